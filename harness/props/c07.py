"""C07: polygons clipped by one polygon, areas, and lines and cells of meshes."""
import random
import numpy as np
import geometry
from core import nearests, quant
from props.c03 import UNITS, free, on_grid, ring


def comb(rng, step, n):
    """Teeth that cut others into several pieces."""
    # upright teeth of one cell from a bar along the bottom
    p = [[0, 0], [n, 0], [n, 1]]
    for k in reversed(range(0, n-1, 2)):
        h = rng.randrange(2, n+1)
        p += [[k+1, 1], [k+1, h], [k, h]] + ([[k, 1]] if k else [])
    return [[x*step, y*step] for x, y in p]


def tidy(p):
    """Without points that go straight on."""
    out = []
    for a, b, c in zip([p[-1]]+p[:-1], p, p[1:]+p[:1]):
        if (b[0]-a[0])*(c[1]-a[1]) != (b[1]-a[1])*(c[0]-a[0]):
            out.append(b)
    return out


def clip(ctx, seed, large=False):
    from glmtools.grid.clipping import clip_polys_by_one_poly
    rng = random.Random(seed)
    unit = rng.choice(UNITS)
    shift = rng.choice([0, 0, -3000, 777])
    step, cells = 0, 0
    n = rng.choice([40, 120]) if large else rng.choice([0, 1, 2, 3, 5, 8])
    if rng.random() < .6:
        step, cells = 16, rng.choice([6, 10])
        if large and rng.random() < .4:
            n, cells = 4, 26
        some = lambda: tidy(comb(rng, step, cells)) if rng.random() < .3 else on_grid(rng, step, cells, cells)
        by, polys = some(), [some() for i in range(n)]
        if rng.random() < .2:
            polys += ring(rng, step, cells)
        size = step*cells
    else:
        size = rng.choice([400, 1500])
        by, polys = free(rng, size, size), [free(rng, size, size) for i in range(n)]
    turn = lambda p: (p[::-1] if rng.random() < .5 else p)
    polys = [turn(p) for p in polys]
    by = turn(by)
    samples = [[rng.randrange(-size//4, size+size//4), rng.randrange(-size//4, size+size//4)] for i in range(20)]
    samples += [[sum(v[0] for v in p)//len(p), sum(v[1] for v in p)//len(p)] for p in polys[:10]+[by]]
    form = rng.choice(['array', 'list', 'ints'])
    if form == 'ints':
        unit, kw = 1.0, dict(scale=False)
        real = lambda p: [[v[0]+shift, v[1]+shift] for v in p]
    else:
        kw = rng.choice([{}, dict(scale=True)])
        real = lambda p: (np.asarray(p, dtype='f8')+shift)*unit
        if form == 'list':
            real = lambda p: [((v[0]+shift)*unit, (v[1]+shift)*unit) for v in p]

    def back(p):
        a = np.asarray(p, dtype='f8')/unit - shift
        return [[x, y] for x, y in zip(nearests(a[:, 0]), nearests(a[:, 1]))]
    ctx.begin()
    given, other = [real(p) for p in polys], real(by)

    def work():
        pieces, counts = clip_polys_by_one_poly(given, other, **kw)
        return dict(pieces=[back(p) for p in pieces], counts=[int(c) for c in counts],
                    after=[[back(p) for p in given], back(other)])
    out, err = ctx.call(work)
    ctx.event('clip', polys=polys, by=by, samples=samples, step=step, cells=cells, res=out if not err else {}, err=err)


def large(ctx, seed):
    clip(ctx, seed, large=True)


def area(ctx, seed):
    from glmtools.grid.clipping import poly_area, vectorized_poly_area
    rng = random.Random(seed)
    n = rng.choice([3, 4, 4, 5, 7, 12, 40])
    polys = []
    for i in range(rng.choice([1, 2, 3, 20])):
        size = rng.choice([40, 400, 4000])
        while True:
            some = [[rng.randrange(-size, size), rng.randrange(-size, size)] for k in range(n)]
            if n > 7:
                # all sides of a star
                t = sorted(rng.sample(range(360), n))
                some = [[int(size*f*np.cos(np.radians(a))), int(size*f*np.sin(np.radians(a)))]
                        for a, f in zip(t, (rng.uniform(.3, 1) for k in t))]
                p = some
                break
            p = [list(v) for v in geometry.hull(some)]
            if len(p) == n:
                break
        k = rng.randrange(n)
        p = p[k:] + p[:k]
        polys.append(p[::-1] if rng.random() < .5 else p)
    unit = rng.choice([2.0**-20, .0625, 1., 16.])
    shift = rng.choice([0, 0, 1000])
    a = (np.asarray(polys, dtype='f8')+shift)*unit

    def work():
        q = lambda v: quant(2*v, unit**2)
        return dict(single=[q(poly_area(p[:, 0], p[:, 1])) for p in a], many=[q(v) for v in vectorized_poly_area(a[:, :, 0], a[:, :, 1])])
    ctx.begin()
    out, err = ctx.call(work)
    ctx.event('area', polys=polys, res=out if not err else {}, err=err)


def mesh(ctx, seed):
    from glmtools.grid.clipping import lines_from_quadmesh, polys_from_quadmesh
    from pyclipper import scale_from_clipper
    rng = random.Random(seed)
    m = geometry.Mesh(rng, size=rng.choice([60, 100, 400]), unit=rng.choice(UNITS[1:]),
                      far=rng.random() < .3)
    r = m.real(np.dstack((m.X, m.Y)))
    x, y = r[:, :, 0].copy(), r[:, :, 1].copy()
    kw = rng.choice([{}, dict(scale=True), dict(scale=False)])

    def work():
        h, v = lines_from_quadmesh(x, y, **kw)
        if kw.get('scale', True):
            h, v = scale_from_clipper(h), scale_from_clipper(v)
        cells = polys_from_quadmesh(x, y)
        return dict(along=[m.back(p) for p in h], across=[m.back(p) for p in v],
                    cells=[[m.back(q) for q in row] for row in cells])
    ctx.begin()
    out, err = ctx.call(work)
    ctx.event('mesh', mesh=m.vertices(), res=out if not err else {}, err=err)


def one(ctx, item):
    item[0](ctx, item[1])


def run(ctx):
    ctx.model_check('MCClips')
    rng = ctx.rng('cases')
    items = [(clip, rng.random()) for i in range(ctx.scale(300, 4000))]
    items += [(large, rng.random()) for i in range(ctx.scale(8, 60))]
    items += [(area, rng.random()) for i in range(ctx.scale(150, 1500))]
    items += [(mesh, rng.random()) for i in range(ctx.scale(100, 1000))]
    ctx.parallel(one, items)
    ctx.validate('TraceClips')
