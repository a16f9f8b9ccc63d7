"""H01: selections from parent/child datasets, singly and in chains."""
import hier


def run(ctx):
    ctx.model_check('MCHierarchy', ctx.scale('MCHierarchy', 'MCHierarchyDeep'), workers=3)
    rng = ctx.rng()
    small = ctx.generate('MCHierarchy', 'GenHierarchy')
    for gen in (small if ctx.thorough else rng.sample(small, 160)):
        explore(ctx, rng, hier.Tree(hier.small_tables(gen), rng), 3)
    for i in range(ctx.scale(110, 1500)):
        size = rng.choice([3, 5, 8, 8, 15])
        tables = hier.random_tables(rng, size=size, closed=rng.random() < .5, childful=rng.random() < .3)
        explore(ctx, rng, hier.Tree(tables, rng), 4)
    for i in range(ctx.scale(6, 60)):
        tree = hier.Tree(hier.large_tables(rng, closed=rng.random() < .5), rng)
        explore(ctx, rng, tree, 4, hub(rng, tree))
    ctx.validate('TraceHierarchy')


def hub(rng, tree):
    """A request that includes the record with the most children of its level."""
    k = rng.randrange(tree.n-1)
    named = [r[1] for r in tree.tables[k+1]]
    have = [r[0] for r in tree.tables[k]]
    if not have:
        return []
    ids = [max(have, key=named.count)] + rng.sample(have, rng.randrange(min(3, len(have))))
    return [(0, k, rng.sample(ids, len(ids)))]


def explore(ctx, rng, tree, steps, asked=()):
    ds, trav = hier.open_session(ctx, tree)
    if trav is None:
        return
    sets = [(ds, trav)]
    usable = [0]
    asked = list(asked)
    for s in range(steps):
        src = rng.choice(usable)
        k = rng.randrange(tree.n)
        ids = hier.request(rng, tree, k)
        if asked and (not s or rng.random() < .3):     # once more, in another order
            src, k, ids = rng.choice(asked)
            ids = rng.sample(ids, len(ids))
        asked.append((src, k, ids))
        if not hier.select(ctx, tree, sets, src, k, ids, rng):
            return
        if len(set(ids)) == len(ids):
            usable.append(len(sets)-1)
