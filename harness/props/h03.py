"""H03: the tree check."""
import hier


def run(ctx):
    ctx.model_check('MCHierarchy', workers=3)
    rng = ctx.rng()
    for gen in ctx.generate('MCHierarchy', 'GenHierarchy', limit=ctx.scale(700, 5000)):
        explore(ctx, rng, hier.Tree(hier.small_tables(gen), rng))
    for i in range(ctx.scale(250, 2500)):
        tables = hier.random_tables(rng, size=rng.choice([2, 3, 5, 8, 15]), closed=rng.random() < .4,
                                    childful=rng.random() < .4)
        explore(ctx, rng, hier.Tree(tables, rng))
    for i in range(ctx.scale(8, 80)):
        explore(ctx, rng, hier.Tree(hier.large_tables(rng, closed=rng.random() < .5), rng))
    ctx.validate('TraceHierarchy')


def stats(tree, k, s):
    n, bad, ids = s
    return dict(count=int(n), bad=int(bad), ids=sorted(tree.idof(k, i) for i in ids))


def explore(ctx, rng, tree):
    ds, trav = hier.open_session(ctx, tree)
    if trav is None:
        return

    def check():
        ents, pars = trav.check_parent_child()
        return dict(parents=[stats(tree, k, ents[tree.entity[k]]) for k in range(tree.n-1) if tree.entity[k] in ents],
                    children=[stats(tree, k, pars[tree.parent[k]]) for k in range(tree.n-1) if tree.parent[k] in pars])
    res, err = ctx.call(check)
    ctx.event('check', **{'from': 1, 'res': res or [], 'err': err})
    if rng.random() < .2:
        describe(ctx, rng, tree, ds)


def describe(ctx, rng, tree, ds):
    """Take the first levels of the dataset with too few, enough or too many
    parent keys."""
    from glmtools.io.traversal import OneToManyTraversal
    levels, keys = rng.randrange(1, tree.n+1), rng.randrange(len(tree.parent)+1)
    as_given = rng.choice([tuple, list])
    _, err = ctx.call(OneToManyTraversal, ds, as_given(tree.entity[:levels]), as_given(tree.parent[:keys]))
    refused = err.startswith('ValueError')
    ctx.event('describe', levels=levels, keys=keys, res=refused, err='' if refused else err)
