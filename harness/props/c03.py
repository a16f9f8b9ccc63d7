"""C03: unions of polygons."""
import random
import numpy as np
from core import nearests
from geometry import hull

UNITS = [2.0**-24, 2.0**-16, 2.0**-8, 1.0]


def on_grid(rng, step, n, most):
    """A rectangle, or an L, on the lines of a grid."""
    a, b = sorted(rng.sample(range(n+1), 2))
    c, d = sorted(rng.sample(range(n+1), 2))
    b, d = min(b, a+most), min(d, c+most)
    p = [[a, c], [b, c], [b, d], [a, d]]
    if b-a > 1 and d-c > 1 and rng.random() < .3:
        x, y = rng.randrange(a+1, b), rng.randrange(c+1, d)
        p = [[a, c], [b, c], [b, y], [x, y], [x, d], [a, d]]
    return [[u*step, v*step] for u, v in p]


def free(rng, size, most):
    while True:
        c = [rng.randrange(0, size), rng.randrange(0, size)]
        r = min(rng.choice([size//10, size//4, size//2]), most)
        p = [list(v) for v in hull([[c[0]+rng.randrange(-r, r+1), c[1]+rng.randrange(-r, r+1)]
                                    for i in range(rng.choice([3, 4, 6]))])]
        if len(p) >= 3:
            return p


def ring(rng, step, n):
    """Four rectangles around a hole."""
    a, b = sorted(rng.sample(range(1, n), 2))
    c, d = sorted(rng.sample(range(1, n), 2))
    r = lambda x0, x1, y0, y1: [[x0*step, y0*step], [x1*step, y0*step], [x1*step, y1*step], [x0*step, y1*step]]
    return [r(a-1, b+1, c-1, c), r(a-1, b+1, d, d+1), r(a-1, a, c-1, d+1), r(b, b+1, c-1, d+1)]


def one(ctx, seed, large=False):
    from glmtools.grid.clipping import join_polys
    rng = random.Random(seed)
    unit = rng.choice(UNITS)
    shift = rng.choice([0, 0, -3000, 777])
    step, cells = 0, 0
    if rng.random() < .6:
        step, cells = 16, 40 if large else rng.choice([3, 6, 10])
        polys = [on_grid(rng, step, cells, 6 if large else cells)
                 for i in range(rng.choice([60, 150]) if large else rng.choice([1, 2, 3, 5, 8]))]
        if cells > 3 and rng.random() < .3:
            polys += ring(rng, step, cells)
            rng.shuffle(polys)
        size = step*cells
    else:
        size = rng.choice([400, 1500])
        polys = [free(rng, size, 40 if large else size) for i in range(70 if large else rng.choice([1, 2, 3, 6]))]
    if rng.random() < .2:
        polys.append([list(v) for v in rng.choice(polys)])
    polys = [p[::-1] if rng.random() < .5 else p for p in polys]
    samples = [[rng.randrange(-size//4, size+size//4), rng.randrange(-size//4, size+size//4)] for i in range(40)]
    for p in polys:
        samples.append([sum(v[0] for v in p)//len(p), sum(v[1] for v in p)//len(p)])
    real = [(np.asarray(p, dtype='f8')+shift)*unit for p in polys]
    kw = {}
    form = rng.choice(['array', 'list', 'ints'])
    if form == 'list':
        real = [[tuple(v) for v in p] for p in real]
    elif form == 'ints':
        # already in the integers of the clipping library
        unit = 1.0
        real, kw = [[[v[0]+shift, v[1]+shift] for v in p] for p in polys], dict(scale=False)
    ctx.begin()
    out, err = ctx.call(join_polys, real, **kw)
    res = []
    if not err:
        for p in out:
            a = np.asarray(p, dtype='f8')/unit - shift
            res.append([[x, y] for x, y in zip(nearests(a[:, 0]), nearests(a[:, 1]))])
    ctx.event('join', polys=polys, samples=samples, step=step, cells=cells, res=res, err=err)


def large(ctx, seed):
    one(ctx, seed, large=True)


def run(ctx):
    ctx.model_check('MCUnions')
    rng = ctx.rng('cases')
    ctx.parallel(one, [rng.random() for i in range(ctx.scale(500, 6000))])
    ctx.parallel(large, [rng.random() for i in range(ctx.scale(8, 60))])
    ctx.validate('TraceUnions')
