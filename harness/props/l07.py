"""L07: location identifiers."""
import random
import numpy as np


def points(rng, s, n, exact):
    """Positions that share and do not share cells; in exact spaces also on the
    borders of cells and of the range."""
    nx = (s['xmax']-s['xmin'])//s['step']
    ny = (s['ymax']-s['ymin'])//s['step']
    out = []
    # cells in one row, in one column, at the edges, and such that adding
    # indices without weighing them would give the same number
    base = [(rng.randrange(nx+1), rng.randrange(ny+1)) for i in range(5)]
    cells = list(base) + [(0, 0), (nx, 0), (0, ny), (nx, ny), (0, 1), (nx, 1), (nx-1, 1), (0, 2)]
    for a, b in base:
        cells += [(a+1, b), (a, b+1), (a-1, b+1), (b, a), (a+1, b-1), (nx-a, b), (0, b+1), (nx, b), (nx-1, b)]
    cells = [(a, b) for a, b in cells if 0 <= a <= nx and 0 <= b <= ny]
    for i in range(n):
        a, b = rng.choice(cells)
        p = []
        for c, lo, hi in ((a, s['xmin'], s['xmax']), (b, s['ymin'], s['ymax'])):
            margin = 0 if exact else max(1, s['step']//50)
            inner = rng.choice([0, s['step']//2, s['step']-1, rng.randrange(s['step'])])
            v = lo + c*s['step'] + min(max(inner, margin), s['step']-1-margin)
            p.append(v)
        if p[0] <= s['xmax'] and p[1] <= s['ymax']:
            out.append(p)
    return out


def one(ctx, seed):
    rng = random.Random(seed)
    exact = rng.random() < .6
    if exact:
        # powers of two, so that positions and borders are exact
        unit = 2.0**-rng.choice([10, 20, 24])
        step = 2**rng.randrange(0, 10)
        nx, ny = (rng.choice([1, 2, 3, 7, 50, 1000, 20000]) for i in range(2))
        xmin, ymin = rng.randrange(-10**5, 10**5), rng.randrange(-10**5, 10**5)
        extra = rng.choice([0, 0, step//2, step-1])
        s = dict(xmin=xmin, xmax=xmin+nx*step+extra, ymin=ymin, ymax=ymin+ny*step+rng.choice([0, extra]), step=step)
    else:
        unit = 1e-8
        if rng.random() < .5:
            s = dict(xmin=-31000000, xmax=31000000, ymin=-31000000, ymax=31000000, step=2800)
        else:
            step = rng.choice([100, 950, 2800, 5600, 22400])
            xmin, ymin = rng.choice([-31000000, -15000000, 0, 1000000]), rng.choice([-31000000, 7, 5000000])
            # ranges end in the middle of a cell
            s = dict(xmin=xmin, xmax=xmin + rng.choice([5, 300, 9000])*step + step//2,
                     ymin=ymin, ymax=ymin + rng.choice([4, 300, 7000])*step + step//2, step=step)
    ctx.begin()
    if exact and rng.random() < .3:
        # the same ranges with cells of other sizes just before
        identify(ctx, rng, dict(s, step=s['step']*rng.choice([2, 4, 16])), unit, exact)
    identify(ctx, rng, s, unit, exact)


def identify(ctx, rng, s, unit, exact):
    from glmtools.io.glm import discretize_2d_location
    pts = points(rng, s, 60, exact)
    if len(pts) < 2:
        return
    x, y = np.array([p[0] for p in pts])*unit, np.array([p[1] for p in pts])*unit
    kw = {}
    n = ((s['xmax']-s['xmin'])//s['step']+2)*((s['ymax']-s['ymin'])//s['step']+2)
    types = [t for t, top in (('uint64', 2**63), ('uint32', 2**32), ('int64', 2**63), ('uint16', 2**16)) if n < top]
    if rng.random() < .6:
        kw['int_type'] = rng.choice(types)
    x0, y0 = x.copy(), y.copy()
    out, err = ctx.call(discretize_2d_location, x, y, s['step']*unit, (s['xmin']*unit, s['xmax']*unit),
                        (s['ymin']*unit, s['ymax']*unit), **kw)
    res = []
    if not err:
        index = {}
        res = [index.setdefault(int(i), len(index)) for i in np.asarray(out).ravel()]
    ctx.event('identify', space=s, points=pts, res=res, err=err, same=bool((x == x0).all() and (y == y0).all()))


def run(ctx):
    ctx.model_check('MCLocations')
    rng = ctx.rng('cases')
    ctx.parallel(one, [rng.random() for i in range(ctx.scale(700, 8000))])
    ctx.validate('TraceLocations')
