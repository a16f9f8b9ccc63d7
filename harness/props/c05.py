"""C05: footprints of events from tables of corner offsets."""
import random
import numpy as np
from core import nearest, quant

PARTS = 4


def one(ctx, seed, large=False):
    rng = random.Random(seed)
    unit = rng.choice([1.0, 1.0, 2.0**-6, 2.0**-16])
    def lines(n):
        v = [rng.randrange(-70, 40)]
        for i in range(n-1):
            v.append(v[-1]+rng.choice([3, 8, 8, 8, 20]))
        return v[::-1] if rng.random() < .3 else v
    xs, ys = lines(14 if large else rng.choice([2, 3, 5])), lines(11 if large else rng.choice([2, 3, 4]))
    even = rng.random() < .6
    fields = [[[rng.randrange(-9, 10), rng.randrange(-3, 4), rng.randrange(-3, 4)] for d in range(2)] for c in range(4)]
    if rng.random() < .3:
        # offsets that are the same everywhere
        far = rng.choice([0, 0, 10**7])
        fields = [[[f[0]+rng.randrange(-far, far+1), 0, 0] for f in c] for c in fields]
    aff = lambda f, x, y: f[0]+f[1]*x+f[2]*y
    swap = rng.random() < .5
    X, Y = np.meshgrid(xs, ys, indexing='ij' if swap else 'xy')
    off = np.empty(X.shape+(4, 2), dtype=int)
    for i in range(X.shape[0]):
        for j in range(X.shape[1]):
            for c in range(4):
                for d in range(2):
                    off[i, j, c, d] = aff(fields[c][d], int(X[i, j]), int(Y[i, j])) if even else rng.randrange(-60, 60)
    table = [[dict(at=[int(X[i, j]), int(Y[i, j])], off=off[i, j].tolist()) for j in range(X.shape[1])]
             for i in range(X.shape[0])]
    given = X*unit, Y*unit, off*unit
    ctx.begin()
    for k in range(1 if large else rng.choice([1, 1, 2, 3])):
        query(ctx, rng, given, dict(table=table, even=even, fields=fields), xs, ys, unit, large)


def query(ctx, rng, given, known, xs, ys, unit, large):
    """Footprints from a table that may have been used before."""
    from glmtools.io.ccd import quads_from_corner_lookup
    nadir = rng.choice([0, 0, -75, -137, 140])
    at = []
    x0, x1, y0, y1 = min(xs), max(xs), min(ys), max(ys)
    n = rng.choice([70, 300]) if large else rng.choice([0, 1, 3, 3, 8, 8, 8])
    while len(at) < n:
        how = rng.random()
        if how < .2:
            v = [rng.choice(xs), rng.choice(ys)]
        elif how < .6:
            v = [rng.randrange(x0, x1+1), rng.randrange(y0, y1+1)]
        else:
            v = [rng.randrange(x0-30, x1+31), rng.randrange(y0-30, y1+31)]
        inside = x0 < v[0] < x1 and y0 < v[1] < y1
        outside = v[0] < x0 or v[0] > x1 or v[1] < y0 or v[1] > y1
        if inside or outside:
            at.append([v[0]+nadir, v[1]])
    if at and rng.random() < .3:
        at += [rng.choice(at) for i in range(3)]
    rng.shuffle(at)
    inflate = rng.choice([4, 4, 8, 2, 5, 12])
    extrapolate = rng.random() < .7
    kw = {}
    if nadir or rng.random() < .5:
        kw['nadir_lon'] = nadir*unit
    if inflate != 4 or rng.random() < .5:
        kw['inflate'] = inflate/PARTS
    if not extrapolate or rng.random() < .5:
        kw['extrapolate'] = extrapolate
    px, py = np.array([v[0] for v in at])*unit, np.array([v[1] for v in at])*unit
    before = px.copy(), py.copy()
    out, err = ctx.call(quads_from_corner_lookup, *given, px, py, **kw)
    same = np.array_equal(px, before[0]) and np.array_equal(py, before[1])
    res = []
    if not err:
        q = np.asarray(out, dtype='f8')
        res = [[] if np.isnan(f).all() else [[(quant if known['even'] else nearest)(v, unit/PARTS) for v in c] for c in f] for f in q]
    X, Y, off = given
    after = [[dict(at=[quant(X[i, j], unit), quant(Y[i, j], unit)], off=[[quant(v, unit) for v in c] for c in off[i, j]])
              for j in range(X.shape[1])] for i in range(X.shape[0])]
    ctx.event('footprints', nadir=nadir, at=at, inflate=inflate, parts=PARTS, extrapolate=extrapolate, res=res,
              after=after, same=bool(same), err=err, **known)


def large(ctx, seed):
    one(ctx, seed, large=True)


def run(ctx):
    ctx.model_check('MCCornerTables')
    rng = ctx.rng('cases')
    ctx.parallel(one, [rng.random() for i in range(ctx.scale(600, 6000))])
    ctx.parallel(large, [rng.random() for i in range(ctx.scale(8, 60))])
    ctx.validate('TraceCornerTables')
