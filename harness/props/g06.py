"""G06: outlines of groups and flashes split by the grid."""
import datetime as dt
import random
import numpy as np
import gridcase
from core import BAD, nearest, quant

RAD, DEG = 2.0**-18, 2.0**-10


def grow(rng, used, start, n):
    """Spots of a lattice that hang together, from a given one."""
    blob = [start]
    for k in range(20*n):
        if len(blob) >= n:
            break
        x, y = rng.choice(blob)
        dx, dy = rng.choice([(1, 0), (-1, 0), (0, 1), (0, -1)])
        p = (x+dx, y+dy)
        if p not in blob and not holes(blob + [p]) and not holes(used + blob + [p]):
            blob.append(p)
    return blob


def holes(spots):
    """Whether spots, which also meet at their corners, enclose others."""
    s = set(spots)
    x0, x1 = min(p[0] for p in s)-1, max(p[0] for p in s)+1
    y0, y1 = min(p[1] for p in s)-1, max(p[1] for p in s)+1
    out, todo = {(x0, y0)}, [(x0, y0)]
    while todo:
        x, y = todo.pop()
        for q in ((x+1, y), (x-1, y), (x, y+1), (x, y-1)):
            if x0 <= q[0] <= x1 and y0 <= q[1] <= y1 and q not in s and q not in out:
                out.add(q)
                todo.append(q)
    return len(out) + len(s) < (x1-x0+1)*(y1-y0+1)


def start(rng, used, at):
    """Where more spots begin: at one of those there are, or some way off."""
    if not used:
        return at
    p = rng.choice(used)
    if rng.random() < .4:
        q = (p[0]+rng.randrange(-4, 5), p[1]+rng.randrange(-4, 5))
        if max(abs(q[0]), abs(q[1])) < 14 and not holes(used + [q]):
            return q
    return p


def hierarchy(rng, pitch, many):
    nf = rng.choice([1, 1, 2, 4])
    most = 14 if many else 6
    fl, gr, ev = [], [], []
    fids, gids = rng.sample(range(1, 100), nf), rng.sample(range(1, 400), 60)
    for f in fids:
        at = (rng.randrange(-3, 4), rng.randrange(-3, 4))
        a = rng.randrange(9000)
        fl.append(dict(id=f, area=rng.randrange(1, 200), energy=rng.randrange(1, 120), first=a, last=a+rng.choice([0, 70, 900])))
        used = []
        for k in range(rng.choice([1, 2, 3, 5])):
            g = gids.pop()
            gr.append(dict(id=g, flash=f, area=rng.randrange(1, 200), energy=rng.randrange(1, 120), time=rng.randrange(9000)))
            blob = grow(rng, used, start(rng, used, at), rng.choice([1, 1, 2, 3, most]))
            if len(set(used + blob)) > 14:
                blob = blob[:1]
            elif rng.random() < .25:
                blob = blob + grow(rng, used + blob, start(rng, used + blob, at), rng.choice([1, 2]))
            used = used + blob
            for p in blob + ([rng.choice(blob)] if rng.random() < .2 else []):
                ev.append(dict(flash=f, group=g, xy=(p[0]*pitch[0], p[1]*pitch[1]), energy=rng.randrange(1, 120), time=rng.randrange(9000)))
    for t in (fl, gr, ev):
        rng.shuffle(t)
    for k, e in enumerate(ev):
        e['loc'] = k+1
    return dict(flash=fl, group=gr, event=ev)


def edges(rng, a, b):
    step = rng.choice([60, 100, 150, 250])
    out = [a]
    even = rng.random() < .5
    while out[-1] < b or len(out) < 2:
        out.append(out[-1] + (step if even else rng.randrange(30, 300)))
    return out


def one(ctx, seed, many=False):
    from glmtools.grid.clipping import QuadMeshSubset
    from glmtools.io import ccd
    from glmtools.io.glm import GLMDataset
    from glmtools.io.mimic_lma import read_flash_chunk
    from lmatools.grid.fixed import get_GOESR_coordsys
    rng = random.Random(seed)
    foot = {k: rng.choice([50, 50, 100]) for k in 'lrbt'}
    wide = foot['l']+foot['r'], foot['b']+foot['t']
    pitch = [rng.choice([w, w, w-7]) for w in wide]
    d = hierarchy(rng, pitch, many)
    start = dt.datetime(2018, 7, 2) + dt.timedelta(days=rng.randrange(900), seconds=20*rng.randrange(4320))
    base = dt.datetime(start.year, start.month, start.day) - dt.timedelta(days=rng.choice([0, 0, 1]))
    for t in (d['flash'], d['group']):
        for r in t:
            r['at'] = (0, 0)
    f = gridcase.File(rng, d, start)
    f.eback = {v: k+1 for k, v in enumerate(f.eid)}
    path = f.write(ctx.path('outlines.nc'))
    # a grid that covers all, or a part, or nothing
    xs, ys = [e['xy'][0] for e in d['event']], [e['xy'][1] for e in d['event']]
    far = 4000 if rng.random() < .06 else 0
    part = rng.random() < .5
    ex = edges(rng, rng.choice([min(xs), max(xs)-150] if part else [min(xs)-103, min(xs)-300])+far,
               (max(xs)-50 if part else max(xs)+103)+far)
    ey = edges(rng, rng.choice([min(ys), max(ys)-150] if part else [min(ys)-103, min(ys)-300]),
               max(ys)-50 if part else max(ys)+103)
    ex, ey = ex[::rng.choice([1, 1, -1])], ey[::rng.choice([1, 1, -1])]
    fixed = rng.random() < .6
    nadir = rng.choice([-75.0, -137.0, -89.5])
    unit = RAD if fixed else DEG
    ox, oy = (rng.randrange(-20000, 20001), rng.randrange(-20000, 20001)) if fixed else (
        int(nadir/DEG) + rng.randrange(-30000, 30001), rng.randrange(-40000, 40001))
    X, Y = np.meshgrid((np.array(ex)+ox)*unit, (np.array(ey)+oy)*unit)
    first = rng.choice('xy')
    if first == 'x':
        X, Y = X.T, Y.T
    mesh = QuadMeshSubset(X.copy(), Y.copy(), regular=rng.random() < .6)
    cells = []
    for a in range(len(ex)-1):
        for b in range(len(ey)-1):
            (x0, x1), (y0, y1) = sorted(ex[a:a+2]), sorted(ey[b:b+2])
            cells.append(dict(i=a if first == 'x' else b, j=b if first == 'x' else a, x0=x0, x1=x1, y0=y0, y1=y1))
    # corner offsets, the same everywhere around the events and larger beyond
    n = rng.choice([4, 6])
    span = 4000*(n-1)
    gx, gy = np.meshgrid(np.linspace(ox-span, ox+span, n), np.linspace(oy-span, oy+span, n))
    corners = [(-foot['l'], foot['t']), (-foot['l'], -foot['b']), (foot['r'], -foot['b']), (foot['r'], foot['t'])]
    corners = corners[::rng.choice([1, -1])]
    lut = np.zeros((n, n, 4, 2))
    for k, c in enumerate(corners):
        lut[:, :, k, :] = c[0]*3, c[1]*3
        lut[1:-1, 1:-1, k, :] = c
    pick = ctx.path('corners.pickle')
    if fixed:
        ccd.save_pixel_corner_lookup(gx*RAD*1e6, gy*RAD*1e6, lut*RAD*1e6, filename=pick)
    else:
        ccd.save_pixel_corner_lookup(gx*DEG-nadir, gy*DEG, lut*DEG, filename=pick)
    ids = [x['id'] for x in d['flash']]
    chosen = ids if rng.random() < .6 else rng.sample(ids, rng.randrange(1, len(ids)+1))
    target = rng.random() < .4
    t0 = (start-base).total_seconds()
    back = dict(flash=f.fback, group=f.gback, event=f.eback)
    fix, lla = get_GOESR_coordsys(sat_lon_nadir=nadir)

    class Inlet(object):
        def __init__(self):
            self.got = []

        def send(self, pair):
            self.got.append((np.array(pair[0]), np.array(pair[1])))

    def rows(level, ev, own):
        x, y = ev['lon'].astype('f8'), ev['lat'].astype('f8')
        if fixed and len(ev):
            x, y, z = fix.fromECEF(*lla.toECEF(x, y, np.zeros_like(x)))
        at = lambda v, o: nearest(v/unit-o)
        who = lambda r: back[level].get(int(r['flash_id']), BAD)
        if np.any(ev['alt'] != 0) or any(np.any(own[k] != 0) for k in ('ctr_alt', 'init_alt', 'specific_energy')):
            raise ValueError('altitude or specific energy')
        return dict(
            rows=[dict(id=who(r), i=int(r['mesh_xi']), j=int(r['mesh_yi']), frac=nearest(float(r['mesh_frac'])*10000),
                       energy=nearest(float(r['power'])*16), time=quant((float(r['time'])-t0)*500),
                       x=at(p, ox), y=at(q, oy)) for r, p, q in zip(ev, x, y)],
            own=[dict(id=who(r), energy=quant(r['total_energy'], tol=.05), area=quant(r['area'], gridcase.AREA),
                      time=quant((float(r['start'])-t0)*500), lasts=quant(float(r['duration'])*500)) for r in own])

    def work():
        glm = GLMDataset(path)
        ds = glm.dataset
        ds.load()
        pos = dict(zip(f.eid, (e['xy'] for e in d['event'])))
        p = (np.array([pos[int(i)] for i in ds.event_id.data], dtype='f8') + np.array([ox, oy]))*unit
        x, y = ('event_x', 'event_y') if fixed else ('event_lon', 'event_lat')
        ds[x] = ('number_of_events', p[:, 0])
        ds[y] = ('number_of_events', p[:, 1])
        to = {k: Inlet() for k in ('flash', 'group', 'event')} if target else None
        data = ds if chosen is ids and rng.random() < .5 else glm.get_flashes([f.fid[i] for i in chosen])
        out = read_flash_chunk(data, glm=glm, target=to, base_date=base, nadir_lon=nadir, fixed_grid=fixed,
                               clip_events=mesh, corner_pickle=pick)
        ds.close()
        if target:
            got = {k: to[k].got for k in to}
            if {len(g) for g in got.values()} == {0}:
                return {k: dict(rows=[], own=[]) for k in to}
            if {len(g) for g in got.values()} != {1}:
                raise ValueError('the inlets were not sent one table each')
            out = {k: got[k][0] for k in got}
        return {k: rows(k, *out[k]) for k in ('flash', 'group', 'event')}
    ctx.begin()
    res, err = ctx.call(work)
    none = {k: dict(rows=[], own=[]) for k in ('flash', 'group', 'event')}
    data = dict(foot=foot,
                event=[dict(id=k+1, flash=e['flash'], group=e['group'], x=e['xy'][0], y=e['xy'][1], energy=e['energy'],
                            time=e['time'], area=0, lasts=0) for k, e in enumerate(d['event'])],
                group=[dict(id=g['id'], flash=g['flash'], energy=g['energy'], area=g['area'], time=g['time'], lasts=0)
                       for g in d['group']],
                flash=[dict(id=x['id'], energy=x['energy'], area=x['area'], time=x['first'], lasts=x['last']-x['first'])
                       for x in d['flash']])
    ctx.event('clip', data=data, cells=cells, flashes=chosen, target=target, res=none if err else res, err=err)


def large(ctx, seed):
    one(ctx, seed, many=True)


def run(ctx):
    ctx.model_check('MCOutlines')
    rng = ctx.rng('cases')
    ctx.parallel(one, [rng.random() for i in range(ctx.scale(80, 1500))])
    ctx.parallel(large, [rng.random() for i in range(ctx.scale(20, 300))])
    ctx.validate('TraceOutlines')
