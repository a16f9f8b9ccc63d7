"""G03: images from sets of files."""
import os
import random
import products


def one(ctx, seed, **kw):
    from glmtools.grid.make_grids import grid_GLM_flashes
    rng = random.Random(seed)
    case = products.Case(rng, **kw)
    case.options()
    case.write(ctx)
    data, run = case.abstract(), case.run()
    if not products.clear_of_box(data, run):
        return
    order = list(case.paths)
    if rng.random() < .5:
        rng.shuffle(order)
    out = os.path.join(case.dir, '{start_time:%Y%j%H%M%S}.nc') if rng.random() < .5 else os.path.join(case.dir, '{dataset_name}')

    def work():
        done = grid_GLM_flashes(order, case.first, case.last, **case.kwargs(out))
        if len(done) != 1 or tuple(done[0][0]) != (0, 0):
            raise ValueError('tiles %s' % [d[0] for d in done])
        frames = {}
        for p in done[0][1]:
            products.part(case, p, frames)
        return products.joined(case, frames)
    ctx.begin()
    res, err = ctx.call(work)
    ctx.event('run', data=data, run=run, res=res if not err else [], err=err)
    case.remove()


def large(ctx, seed):
    one(ctx, seed, large=True, nfiles=random.Random(seed).choice([1, 2]), cells=(5, 4))


def run(ctx):
    ctx.model_check('MCProducts')
    if ctx.thorough:
        ctx.model_check('MCProducts', 'MCProductswide')
    rng = ctx.rng('cases')
    ctx.parallel(one, [rng.random() for i in range(ctx.scale(20, 900))])
    ctx.parallel(large, [rng.random() for i in range(ctx.scale(2, 30))])
    ctx.validate('TraceProducts')
