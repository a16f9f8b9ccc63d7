"""H02: child counts and replicated ancestor ids."""
import numpy as np
import hier
from core import BAD, quants


def run(ctx):
    ctx.model_check('MCHierarchy', workers=3)
    rng = ctx.rng()
    small = ctx.generate('MCHierarchy', 'GenHierarchy')
    for gen in (small if ctx.thorough else rng.sample(small, 200)):
        explore(ctx, rng, hier.Tree(hier.small_tables(gen), rng))
    for i in range(ctx.scale(150, 1500)):
        tables = hier.random_tables(rng, size=rng.choice([3, 5, 8, 15]), closed=rng.random() < .75,
                                    childful=rng.random() < .3)
        explore(ctx, rng, hier.Tree(tables, rng))
    for i in range(ctx.scale(6, 60)):
        explore(ctx, rng, hier.Tree(hier.large_tables(rng, closed=rng.random() < .8), rng))
    ctx.validate('TraceHierarchy')


def closed(tables, k, j):
    return all({r[1] for r in tables[m]} <= {r[0] for r in tables[m-1]} for m in range(k+2, j+1))


def explore(ctx, rng, tree):
    ds, trav = hier.open_session(ctx, tree)
    if trav is None:
        return
    sets = [(ds, trav)]
    tables = [tree.tables]
    # on the dataset itself, and on a part of it
    if rng.random() < .4:
        k = rng.randrange(tree.n)
        ids = list(dict.fromkeys(hier.request(rng, tree, k)))
        if not hier.select(ctx, tree, sets, 0, k, ids, rng):
            return
        tables.append(tree.tables_of(sets[-1][0]))
    for src, (ds, trav) in enumerate(sets):
        if trav is None:
            return
        for k in range(tree.n-1):
            for to in [0] + list(range(k+1, tree.n)):
                child = tree.entity[to] if to else None
                out, err = ctx.call(trav.count_children, tree.entity[k], child) if to or rng.random() < .5 \
                    else ctx.call(trav.count_children, tree.entity[k])
                res = [] if err else [quants(c) for c in out]
                ctx.event('count', **{'from': src+1, 'level': k+1, 'to': to+1 if to else 0, 'res': res,
                                      'after': tree.tables_of(ds), 'err': err})
            for j in range(k+1, tree.n):
                if not closed(tables[src], k, j):
                    continue
                out, err = ctx.call(trav.replicate_parent_ids, tree.entity[k], tree.parent[j-1])
                res = [] if err else [tree.idof(k, i) for i in np.asarray(out)]
                ctx.event('replicate', **{'from': src+1, 'level': k+1, 'down': j+1, 'res': res,
                                          'after': tree.tables_of(ds), 'err': err})
