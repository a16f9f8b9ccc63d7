"""G02: events clipped by the grid, in chunks."""
import datetime as dt
import random
import numpy as np
import geometry
import gridcase
from core import BAD, nearest, quant

UNIT = 2.0**-24


class Inlet(object):
    """The receiving end of a pipeline."""
    def __init__(self):
        self.got = []

    def send(self, pair):
        self.got.append((np.array(pair[0]), np.array(pair[1])))


def footprints(rng):
    """Corner offsets c0 + c1*x/STEP + c2*y/STEP of a convex footprint."""
    w, h = rng.choice([1024, 1600, 2048, 3200]), rng.choice([1024, 1600, 2048, 3200])
    kind = rng.choice(['rect', 'rect', 'shifted', 'quad', 'growing'])
    c = [[-w//2, h//2], [-w//2, -h//2], [w//2, -h//2], [w//2, h//2]]
    if kind == 'shifted':
        dx, dy = rng.randrange(-300, 301), rng.randrange(-300, 301)
        c = [[a+dx, b+dy] for a, b in c]
    if kind == 'quad':
        c = [[a+rng.randrange(-150, 151), b+rng.randrange(-150, 151)] for a, b in c]
    if rng.random() < .3:
        c = c[::-1]
    grow = kind == 'growing'
    return kind not in ('quad',), [[[a, (16 if a > 0 else -16) if grow else 0, 0], [b, 0, (16 if b > 0 else -16) if grow else 0]] for a, b in c]


def one(ctx, seed, large=False, wide=False):
    from glmtools.io import ccd
    from glmtools.io.glm import GLMDataset
    from glmtools.io.mimic_lma import read_flashes
    rng = random.Random(seed)
    d = gridcase.hierarchy(rng, nf=rng.choice([99, 101, 180]), nloc=25, light=True) if large else (
        gridcase.hierarchy(rng, nf=rng.choice([6, 12]), nloc=30) if wide else gridcase.hierarchy(rng))
    nloc = max(e['loc'] for e in d['event'])
    kind = rng.choice(['even', 'uneven', 'bent'])
    mesh = geometry.Mesh(rng, kind=kind, cells=(4, 6) if large else (9, 11) if wide else (rng.choice([1, 2, 4]), rng.choice([1, 3, 5])),
                         size=960 if wide else rng.choice([960, 2048, 3000]), unit=UNIT)
    mesh.origin = (0, 0)
    x0, x1, y0, y1 = mesh.bounds()
    spots = [[a*gridcase.STEP, b*gridcase.STEP] for a in range(x0//1024-3, x1//1024+4) for b in range(y0//1024-3, y1//1024+4)]
    at = rng.sample(spots, nloc)
    if rng.random() < .1:
        at = [[a[0]+x1-x0+8192, a[1]] for a in at]      # all away from the grid
    straight, off = footprints(rng)
    corner = lambda o, p: o[0] + o[1]*(p[0]//gridcase.STEP) + o[2]*(p[1]//gridcase.STEP)
    loc = [[[p[0]+corner(c[0], p), p[1]+corner(c[1], p)] for c in off] for p in at]
    for f in d['flash']:
        a = rng.randrange(0, 9000)
        f.update(first=a, last=a+rng.randrange(0, 900), at=rng.choice(at))
    for g in d['group']:
        g.update(time=rng.randrange(0, 9000), at=rng.choice(at))
    start = dt.datetime(2018, 7, 2, 4, 33, 0) + dt.timedelta(days=rng.randrange(900), seconds=20*rng.randrange(4320))
    base = dt.datetime(start.year, start.month, start.day) - dt.timedelta(days=rng.choice([0, 0, 1]))
    f = gridcase.File(rng, d, start)
    f.nc.frame_times = rng.random() < .3
    path = f.write(ctx.path('grid.nc'))
    # a table of corner offsets around all positions, in microradians
    n = 4
    gx, gy = np.meshgrid(np.linspace(min(p[0] for p in at)-10240, max(p[0] for p in at)+10240, n),
                         np.linspace(min(p[1] for p in at)-10240, max(p[1] for p in at)+10240, n))
    lut = np.zeros((n, n, 4, 2))
    for k, c in enumerate(off):
        for i in range(2):
            lut[:, :, k, i] = c[i][0] + c[i][1]*gx/gridcase.STEP + c[i][2]*gy/gridcase.STEP
    pick = ctx.path('corners.pickle')
    ccd.save_pixel_corner_lookup(gx*UNIT*1e6, gy*UNIT*1e6, lut*UNIT*1e6, filename=pick)
    nf = len(d['flash'])
    size = rng.choice([None, None, 30, 90, nf-1] if large else [None, 1, 2, 3, nf, nf+1])
    kw = {} if size is None else dict(chunk_size=size)
    target = rng.random() < .5

    def parent(lev, r):
        back = f.fback if lev == 'flash' else f.gback
        s = float(r['start'])
        if r['ctr_z'] != 0:
            raise ValueError('altitude')
        return dict(id=back.get(int(r['flash_id']), BAD), area=quant(r['area'], gridcase.AREA), energy=quant(r['total_energy'], tol=.05),
                    at=[quant(r['ctr_x'], UNIT), quant(r['ctr_y'], UNIT)],
                    start=quant((s-(start-base).total_seconds())*500), lasts=quant(float(r['duration'])*500))

    def work():
        glm = GLMDataset(path)
        glm.dataset.load()
        gridcase.place(glm.dataset, f, at, UNIT)
        to = {k: Inlet() for k in ('flash', 'group', 'event')} if target else None
        out = read_flashes(glm, to, base_date=base, clip_events=mesh.subset(), fixed_grid=True, nadir_lon=-75.0,
                           corner_pickle=pick, **kw)
        glm.dataset.close()
        if target:
            n = [len(to[k].got) for k in to]
            if len(set(n)) > 1:
                raise ValueError('the inlets received different numbers of chunks')
            out = [{k: to[k].got[i] for k in to} for i in range(n[0])]
        res = []
        for ch in out:
            r = [[dict(r, x=nearest(p['x'], UNIT), y=nearest(p['y'], UNIT)) for r, p in zip(gridcase.rows(ch[k][0]), ch[k][0])]
                 for k in ('event', 'flash', 'group')]
            if not r[0] == r[1] == r[2]:
                raise ValueError('the inlets received different pieces')
            t = ch['event'][0]['time'] - (start-base).total_seconds()
            if len(t) and not np.all(t == 0):
                raise ValueError('pieces have another time than the file')
            res.append(dict(rows=r[0], flash=[parent('flash', x) for x in ch['flash'][1]],
                            group=[parent('group', x) for x in ch['group'][1]]))
        return res
    ctx.begin()
    res, err = ctx.call(work)
    data = dict(loc=loc, event=d['event'],
                flash=[dict(id=x['id'], area=x['area'], energy=x['energy'], at=x['at'], start=x['first'],
                            lasts=x['last']-x['first']) for x in d['flash']],
                group=[dict(id=x['id'], area=x['area'], energy=x['energy'], at=x['at'], start=x['time'], lasts=0)
                       for x in d['group']])
    ctx.event('chunks', data=data, mesh=mesh.vertices(), exact=straight and kind != 'bent', size=size or 0, target=target,
              res=res if not err else [], err=err)


def large(ctx, seed):
    one(ctx, seed, large=True)


def wide(ctx, seed):
    one(ctx, seed, wide=True)


def run(ctx):
    ctx.model_check('MCGridding')
    rng = ctx.rng('cases')
    ctx.parallel(one, [rng.random() for i in range(ctx.scale(250, 3000))])
    ctx.parallel(large, [rng.random() for i in range(ctx.scale(6, 40))])
    ctx.parallel(wide, [rng.random() for i in range(ctx.scale(4, 40))])
    ctx.validate('TraceGridding')
