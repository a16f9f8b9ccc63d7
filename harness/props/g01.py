"""G01: accumulation of pre-gridded rows."""
import random
import numpy as np
import pandas as pd
import xarray as xr
from core import quant


def batches(rng, nx, ny, top):
    cells = [(i, j) for i in range(nx) for j in range(ny)]
    hot = rng.sample(cells, min(len(cells), rng.choice([1, 2, 6])))
    out = []
    for b in range(rng.choice([0, 1, 2, 5, 12])):
        if rng.random() < .15:
            out.append([])
            continue
        some = rng.sample(cells, rng.randrange(1, len(cells)+1)) if rng.random() < .6 else list(hot)
        rng.shuffle(some)
        out.append([dict(c=list(c), v=rng.randrange(1, top)) for c in some])
    return out


def table(rng, rows, form, names, unit, fine=False):
    # the grid is indexed by the second index name first
    var, xi, yi = names
    dt = [(xi, rng.choice(['i4', 'i8'])), (var, 'f8' if fine else rng.choice(['f4', 'f8'])), (yi, 'i4'), ('more', 'f8')]
    a = np.zeros(len(rows), dtype=dt)
    a[yi] = [r['c'][0] for r in rows]
    a[xi] = [r['c'][1] for r in rows]
    a[var] = [r['v']*unit for r in rows]
    a['more'] = 77.
    if form == 'frame':
        d = pd.DataFrame(a)
        d.index = rng.choice([list(range(len(rows))), [5]*len(rows), list(range(9, 9+len(rows)))])
        return d
    if form == 'dataset':
        return xr.Dataset({n: ('rows', a[n]) for n in a.dtype.names})
    return a


def one(ctx, seed, large=False):
    from glmtools.grid import accumulate
    rng = random.Random(seed)
    nx, ny = (16, 18) if large else (rng.choice([1, 2, 3, 5]), rng.choice([1, 2, 4, 7]))
    kind = rng.choice(['sum', 'min'])
    # sums stay exact in single precision
    bs = batches(rng, nx, ny, rng.choice([400, 400, 1000000, 2**26]))
    fine = any(r['v'] >= 1000000 for b in bs for r in b)
    unit = 2.**rng.choice([-3, -3, 0, -36, 9])
    names = rng.choice([('power', 'mesh_xi', 'mesh_yi'), ('v', 'a', 'b')])
    form = rng.choice(['array', 'array', 'frame', 'dataset'])
    routed = rng.choice(['no', 'events', 'flashes']) if form == 'array' else 'no'
    grid = np.zeros((nx, ny, 3), dtype='f8' if fine else rng.choice(['f4', 'f8']))
    out, given, closed = {}, rng.random() < .5, rng.random() < .5

    def work():
        f = {'sum': accumulate.accumulate_var_on_grid_direct_idx,
             'min': accumulate.accumulate_minvar_on_grid_direct_idx}[kind]
        # a frame of a larger grid, as the gridders use it
        acc = f(grid[:, :, 1], *names, out=out) if given else f(grid[:, :, 1], *names)
        to = acc
        if routed != 'no':
            to = accumulate.select_dataset(acc, **(dict(use_event_data=routed == 'events')
                                                   if routed == 'flashes' or rng.random() < .5 else {}))
        for b in bs:
            t = table(rng, b, form, names, unit, fine)
            if routed == 'no':
                to.send(t)
            else:
                # the other table of the pair is not to be counted
                other = table(rng, [dict(c=[0, 0], v=1)], 'array', names, unit)
                to.send((t, other) if routed == 'events' else (other, t))
        if closed:
            to.close()
            acc.close()
        return [[quant(v/unit) for v in r] for r in grid[:, :, 1]], not grid[:, :, 0].any() and not grid[:, :, 2].any()
    ctx.begin()
    r, err = ctx.call(work)
    back = not (given and closed) or 'out' in out and out['out'].shape == (nx, ny) and bool((out['out'] == grid[:, :, 1]).all())
    ctx.event('accumulate', nx=nx, ny=ny, kind=kind, batches=bs, empties=True, form=form, routed=routed,
              out=bool(back and (r[1] if r else True)), res=r[0] if not err else [], err=err)


def large(ctx, seed):
    one(ctx, seed, large=True)


def run(ctx):
    ctx.model_check('MCAccumulation', 'MCAccumulationsum')
    ctx.model_check('MCAccumulation', 'MCAccumulationmin')
    rng = ctx.rng('cases')
    ctx.parallel(one, [rng.random() for i in range(ctx.scale(800, 8000))])
    ctx.parallel(large, [rng.random() for i in range(ctx.scale(8, 60))])
    ctx.validate('TraceAccumulation')
