"""G04: tiles."""
import os
import random
import numpy as np
import products
from core import BAD, quant


def bounds(ctx, seed):
    from glmtools.grid.make_grids import subdivide_bnd
    rng = random.Random(seed)
    n = rng.choice([rng.randrange(1, 12), rng.randrange(1, 200), 2500, 5424])
    s = rng.choice([1, 2, 3, 4, 7, 8])
    delta = rng.choice([.5, 2.**-14, 56e-6, 28e-6, .1, 1.])
    lo = rng.choice([0., -n*delta/2, rng.uniform(-.1, .1)])
    bnd = (lo, lo + n*delta)
    bnd = rng.choice([bnd, np.array(bnd)])
    kw = {} if s == 8 and rng.random() < .5 else dict(s=s)
    ctx.begin()
    r, err = ctx.call(subdivide_bnd, bnd, delta, **kw)
    ctx.event('bounds', size=n, s=s, res=[quant((float(v)-lo)/delta, tol=.001) for v in r] if not err else [], err=err)


def tiles(ctx, seed):
    from glmtools.grid.make_grids import subdivided_fixed_grid
    rng = random.Random(seed)
    s = rng.choice([1, 2, 3, 4])
    n = [s*rng.randrange(1, 9) + rng.randrange(0, s) for k in range(2)]
    d = [rng.choice([2.**-14, 56e-6, 28e-6, 112e-6]) for k in range(2)]
    lo = [rng.uniform(-.1, .1) if rng.random() < .5 else -n[k]*d[k]/2 for k in range(2)]
    tok = [rng.randrange(100) for k in range(8)]
    kwargs = dict(dx=d[0], dy=d[1], x_bnd=np.array([lo[0], lo[0]+n[0]*d[0]]), y_bnd=np.array([lo[1], lo[1]+n[1]*d[1]]),
                  frame_interval=tok[0], ctr_lon=tok[1], proj_name='geos')
    proc = dict(nadir_lon=-75., ellipse_rev=tok[2], min_points_per_flash=tok[3], min_groups_per_flash=tok[4],
                clip_events=True, fixed_grid=True)
    out = dict(output_writer=None, output_filename_prefix='GLM', outpath='/nowhere/{dataset_name}',
               output_kwargs={'scale_and_offset': tok[5]})
    if rng.random() < .3:
        out.pop('outpath')
    pad, kw = [100*28e-6]*2, {}
    if rng.random() < .6:
        pad = [rng.choice([0., 3*d[k], 2.5*d[k], .4*d[k], 100*d[k]]) for k in range(2)]
        kw = dict(x_pad=pad[0], y_pad=pad[1])
    options = dict(frame=tok[0], ctr=tok[1], rev=tok[2], events=tok[3], groups=tok[4], encode=tok[5],
                   dx=1, dy=1, nadir=-75, proj=1, fixed=1, clip=1)
    cells = lambda b, k: [quant((float(v)-lo[k])/d[k], tol=.001) for v in b]

    def work():
        res, names = [], {}
        for ij, k, p, o, pads in subdivided_fixed_grid(kwargs, proc, out, s=s, **kw):
            opt = dict(frame=k['frame_interval'], ctr=k['ctr_lon'], rev=p.pop('ellipse_rev'),
                       events=p['min_points_per_flash'], groups=p['min_groups_per_flash'],
                       encode=o['output_kwargs']['scale_and_offset'], dx=int(k['dx'] == d[0]), dy=int(k['dy'] == d[1]),
                       nadir=int(p['nadir_lon']), proj=int(k['proj_name'] == 'geos'), fixed=int(p['fixed_grid'] is True),
                       clip=int(p['clip_events'] is True))
            name = names.setdefault(o.get('outpath'), len(names)+1)
            if quant(pads[2]/d[0], tol=.001) != pads[0] or quant(pads[3]/d[1], tol=.001) != pads[1]:
                raise ValueError('pads %s' % (pads,))
            res.append(dict(index=list(ij), grid=cells(k['x_bnd'], 0)+cells(k['y_bnd'], 1), name=name,
                            select=cells(p['x_bnd'], 0)+cells(p['y_bnd'], 1), pads=[int(pads[0]), int(pads[1])], options=opt))
            # as the processing of a tile does
            p['clip_events'] = 'mesh'
            o.pop('preprocess_out', None)
            o.setdefault('output_kwargs', {})['pad'] = 1
        return res
    ctx.begin()
    res, err = ctx.call(work)
    ctx.event('tiles', size=n, s=s, pads=[int(pad[k]/d[k]+1e-6) for k in range(2)], options=options,
              res=res if not err else [], err=err)


def trim(ctx, seed):
    """Outputs are held back, cut to the cells of their tile, and written on request."""
    from glmtools.grid.make_grids import GridOutputPreprocess
    rng = random.Random(seed)
    pads = [rng.choice([0, 0, 1, 2, 5]) for k in range(2)]
    writes = rng.random() < .85
    # two tiles at a time
    calls, log = [[], []], [[], []]

    def writer(k):
        def write(*args, **kwargs):
            log[k].append(dict(name=int(args[0]), x=[quant(v) for v in args[3]], y=[quant(v) for v in args[4]],
                               grid=[[quant(v) for v in r] for r in args[9]],
                               others=[int(a) for i, a in enumerate(args) if i not in (0, 3, 4, 9)],
                               options=sorted([n, int(v)] for n, v in kwargs.items())))
        return write

    def work():
        pre = [GridOutputPreprocess(pads=(pads[0], pads[1], pads[0]*.5, pads[1]*.5),
                                    **(dict(writer=writer(k)) if writes else {})) for k in range(2)]
        for i in range(rng.choice([0, 1, 3, 6])):
            k = rng.randrange(2)
            n = [2*pads[a] + rng.choice([1, 2, 4]) for a in range(2)]
            args = [rng.randrange(1000) for a in range(rng.choice([10, 11, 14]))]
            kw = {o: rng.randrange(100) for o in ('format', 'grid_units', 'spatial_scale_factor') if rng.random() < .6}
            x, y = [rng.randrange(9999) for a in range(n[0])], [rng.randrange(9999) for a in range(n[1])]
            grid = [[rng.randrange(9999) for b in y] for a in x]
            calls[k].append(dict(name=args[0], x=x, y=y, grid=grid, options=sorted([o, v] for o, v in kw.items()),
                                 others=[a for j, a in enumerate(args) if j not in (0, 3, 4, 9)]))
            args[3], args[4], args[9] = np.array(x, 'f8'), np.array(y, 'f8'), np.array(grid, 'f4')
            pre[k].capture_write_call(*args, **kw)
        early = len(log[0]) + len(log[1])
        return early, [[int(f) for f in p.write_all()] for p in pre]
    ctx.begin()
    out, err = ctx.call(work)
    for k in range(2):
        ctx.event('trim', pads=pads, writes=writes, calls=calls[k], err=err,
                  res=dict(early=out[0], written=log[k], names=out[1][k]) if not err else {})


def run_tiles(ctx, seed):
    """A run over tiles gives the image of the whole grid."""
    from glmtools.grid.make_grids import grid_GLM_flashes
    rng = random.Random(seed)
    s = rng.choice([2, 2, 3])
    case = products.Case(rng, nfiles=rng.choice([1, 1, 2]), cells=(2*s+rng.randrange(0, s), s+rng.randrange(0, s)), far=False)
    case.options()
    case.write(ctx)
    data, run = case.abstract(), case.run()
    outdir = os.path.join(case.dir, 'images')
    os.makedirs(outdir)
    name = rng.choice(['{start_time:%Y%j%H%M%S}.nc', '{dataset_name}'])

    def work():
        return grid_GLM_flashes(case.paths, case.first, case.last, **case.kwargs(os.path.join(outdir, name), subdivide=s))
    done, err = ctx.call(work)
    found = [os.path.join(a, f) for a, b, c in os.walk(outdir) for f in c]
    number = {}
    num = lambda p: number.setdefault(os.path.realpath(p), len(number)+1)
    nf = len(run['edges'])-1
    e1 = dict(s=s, frames=nf, res=dict(tile=[list(t[0]) for t in done], names=[[num(p) for p in t[1]] for t in done],
                                       found=[num(p) for p in found]) if not err else {}, err=err)

    def gather():
        out = {}
        for t in done:
            for p in t[1]:
                products.part(case, p, out)
        return products.joined(case, out)
    res, err2 = ctx.call(gather) if not err else ([], err)
    case.remove()
    return e1, dict(data=data, run=run, res=res if not err2 else [], err=err2)


def files_of(ctx, seed):
    e1, e2 = run_tiles(ctx, seed)
    ctx.begin()
    ctx.event('files', **e1)
    ctx.begin()
    ctx.event('run', **e2)


def run(ctx):
    ctx.model_check('MCTiles')
    rng = ctx.rng('cases')
    draw = lambda n: [rng.random() for i in range(n)]
    ctx.parallel(tiles, draw(ctx.scale(150, 2000)))
    ctx.parallel(bounds, draw(ctx.scale(400, 5000)))
    ctx.parallel(trim, draw(ctx.scale(150, 1500)))
    ctx.parallel(files_of, draw(ctx.scale(12, 120)))
    runs = [e for e in ctx.events if e['op'] == 'run']
    ctx.events = [e for e in ctx.events if e['op'] != 'run']
    ctx.validate('TraceTiles')
    ctx.events = runs
    ctx.validate('TraceProducts')
