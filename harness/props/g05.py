"""G05: tables of points."""
import datetime as dt
import random
import numpy as np
import gridcase
from core import BAD, quant
from lcfa import LATLON_SCALE

LL = 1/16.


def one_file(rng, start, dur, nf=None, many=False):
    d = gridcase.hierarchy(rng, nf=nf or rng.choice([1, 2, 4, 7]), many=many)
    top = min(65535, dur*500)
    for f in d['flash']:
        a, b = sorted([rng.randrange(top), rng.randrange(top)])
        f.update(first=a, last=rng.choice([a, b]), qlat=rng.randrange(-400, 400), qlon=-1200+rng.randrange(-400, 400))
    for g in d['group']:
        g.update(time=rng.randrange(top), qlat=rng.randrange(-400, 400), qlon=-1200+rng.randrange(-400, 400))
    for t in (d['flash'], d['group']):
        for r in t:
            r.update(lat=r['qlat']*LL, lon=r['qlon']*LL)
    for e in d['event']:
        e.update(lat=rng.randrange(12000, 53000), lon=rng.randrange(12000, 53000), time=rng.randrange(top))
    f = gridcase.File(rng, d, start, seconds=dur)
    f.eback = {v: k+1 for k, v in enumerate(f.eid)}
    f.start = start
    return f


def abstract(f, base):
    d = f.d
    t0 = int(round((f.start-base).total_seconds()*500))
    rec = lambda r: dict(id=r['id'], lat=r['qlat'], lon=r['qlon'], area=r['area'], energy=r['energy'])
    return dict(time=t0,
                flash=[dict(rec(r), start=t0+r['first'], lasts=r['last']-r['first']) for r in d['flash']],
                group=[dict(rec(r), flash=r['flash'], start=t0+r['time'], lasts=0) for r in d['group']],
                event=[dict(id=k+1, flash=e['flash'], group=e['group'], lat=e['lat'], lon=e['lon'], time=t0+e['time'],
                            energy=e['energy']) for k, e in enumerate(d['event'])])


def rows(f, level, ev, own):
    back = dict(flash=f.fback, group=f.gback, event=f.eback)[level]
    raw = lambda v, off: quant((float(v)-off)/float(LATLON_SCALE), tol=.05)
    lat, lon = float(f.nc.lat_offset), float(f.nc.lon_offset)
    place = (lambda r: dict(lat=raw(r['ctr_lat'], lat), lon=raw(r['ctr_lon'], lon))) if level == 'event' else (
        lambda r: dict(lat=quant(r['ctr_lat'], LL), lon=quant(r['ctr_lon'], LL)))
    e = [dict(parent=back.get(int(r['flash_id']), BAD), lat=raw(r['lat'], lat), lon=raw(r['lon'], lon),
              time=quant(r['time']*500), energy=quant(r['power'], tol=.05)) for r in ev]
    if np.any(ev['alt'] != 0):
        raise ValueError('altitude of a point')
    o = []
    for r in own:
        if r['init_lat'] != r['ctr_lat'] or r['init_lon'] != r['ctr_lon']:
            raise ValueError('positions differ')
        if r['ctr_alt'] or r['init_alt'] or r['specific_energy']:
            raise ValueError('altitude or specific energy')
        o.append(dict(place(r), id=back.get(int(r['flash_id']), BAD), energy=quant(r['total_energy'], tol=.05),
                      area=quant(r['area'], gridcase.AREA), start=quant(r['start']*500), lasts=quant(r['duration']*500)))
    return dict(events=e, own=o)


def query(rng):
    def span(mid):
        if rng.random() < .5:
            return []
        a = mid+rng.randrange(-300, 100)
        return [a, a+rng.choice([1, 100, 300, 500])]
    return dict(lat=span(0), lon=span(-1200), events=rng.choice([0, 0, 0, 1, 2, 4]), groups=rng.choice([0, 0, 0, 1, 2]))


def bounds(q):
    r = lambda b: (b[0]*LL, b[1]*LL) if b else None
    return dict(lat_range=r(q['lat']), lon_range=r(q['lon'])), dict(events=q['events'] or None, groups=q['groups'] or None)


def some_start(rng):
    t = dt.datetime(2018, 7, 2) + dt.timedelta(days=rng.randrange(900), seconds=20*rng.randrange(4320))
    if rng.random() < .3:
        t = t.replace(hour=23, minute=59, second=40)
    return t


def base_of(rng, t):
    b = dt.datetime(t.year, t.month, t.day)
    return b + dt.timedelta(days=rng.choice([0, 0, 0, -1, 1]), hours=rng.choice([0, 0, 6]))


def read(ctx, seed, nf=None):
    from glmtools.io.glm import GLMDataset
    from glmtools.io.mimic_lma import read_flashes
    rng = random.Random(seed)
    start = some_start(rng)
    base = base_of(rng, start)
    f = one_file(rng, start, rng.choice([20, 20, 60]), nf)
    f.nc.frame_times = rng.random() < .2
    path = f.write(ctx.path('points.nc'))
    q = query(rng)
    where, least = bounds(q)
    nf = len(f.d['flash'])
    kw = rng.choice([{}, dict(chunk_size=rng.choice([1, 2, 3, nf, nf+1] if nf < 50 else [40, 100, nf-1]))])
    target = rng.random() < .5

    class Inlet(object):
        def __init__(self):
            self.got = []

        def send(self, pair):
            self.got.append((np.array(pair[0]), np.array(pair[1])))

    def work():
        glm = GLMDataset(path)
        to = {k: Inlet() for k in ('flash', 'group', 'event')} if target else None
        out = read_flashes(glm, to, base_date=base, clip_events=False, min_events=least['events'],
                           min_groups=least['groups'], nadir_lon=-75., **dict(where, **kw))
        glm.dataset.close()
        if target:
            n = {len(to[k].got) for k in to}
            if len(n) > 1:
                raise ValueError('the inlets received different numbers of chunks')
            out = [{k: to[k].got[i] for k in to} for i in range(n.pop())]
        return [{k: rows(f, k, *ch[k]) for k in ('flash', 'group', 'event')} for ch in out]
    ctx.begin()
    res, err = ctx.call(work)
    ctx.event('read', data=abstract(f, base), query=q, res=res if not err else [], err=err)


def lassos(rng, files, first, step, base):
    """Boxes, each for a window of time: as polygons and as the flash positions
    and event codes they hold."""
    def edge(offset, mid):
        while True:
            v = (mid + rng.randrange(-400, 400) + .5)*LL
            code = (v-offset)/float(LATLON_SCALE)
            if .1 < code % 1 < .9:
                return v
    n = rng.choice([1, 2, 3])
    t = [first + dt.timedelta(seconds=rng.choice([0, 0, 2, -5]))]
    for k in range(n):
        t.append(t[-1] + rng.choice([.5, 1, 2])*step)
    nc = files[0].nc
    polys, boxes = [], []
    for k in range(n):
        box = dict(t0=int(round((t[k]-base).total_seconds()*500)), t1=int(round((t[k+1]-base).total_seconds()*500)))
        sides = {}
        for name, mid in (('lon', -1200), ('lat', 0)):
            offset = float(getattr(nc, name+'_offset'))
            a, b = sorted([edge(offset, mid), edge(offset, mid)])
            sides[name] = (a, b)
            box[name] = [int(np.ceil(a/LL)), int(np.floor(b/LL))]
            box['e'+name] = [int(np.ceil((a-offset)/float(LATLON_SCALE))), int(np.floor((b-offset)/float(LATLON_SCALE)))]
        (x0, x1), (y0, y1) = sides['lon'], sides['lat']
        ring = [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
        polys.append(ring[::rng.choice([1, -1])])
        boxes.append(box)
    return t, polys, boxes


def several(ctx, seed, nf=None):
    """Collections and time series of files."""
    from glmtools.io.mimic_lma import (GLMncCollection, TimeSeriesGLMFlashSubset,
        TimeSeriesGLMPolygonFlashSubset)
    rng = random.Random(seed)
    start, dur = some_start(rng), 20
    n = rng.choice([1, 2, 3])
    files = [one_file(rng, start+dt.timedelta(seconds=dur*k), dur, nf) for k in range(n)]
    paths = [f.write(ctx.path('points.nc')) for f in files]
    q = query(rng)
    where, least = bounds(q)
    order = list(zip(paths, files))
    rng.shuffle(order)
    names = [p for p, f in order]
    series = rng.random() < .5
    base = dt.datetime(start.year, start.month, start.day) if series and rng.random() < .5 else base_of(rng, start)
    at = {f.start: f for f in files}
    data = [abstract(f, base) for f in files]

    def collect():
        c = GLMncCollection(names, base_date=base, min_points=least['events'], min_groups=least['groups'], **where)
        out = []
        for t in rng.sample(sorted(at), len(at)):
            ev, fl = c.data_for_time(t)
            out.append(dict(rows(at[t], 'flash', ev, fl), time=int(round((t-base).total_seconds()*500))))
        if sorted(c.times) != sorted(at):
            raise ValueError('times %s' % c.times)
        return out
    first = start + dt.timedelta(seconds=rng.choice([0, 0, 5, -5, 20]))
    step = dt.timedelta(seconds=rng.choice([5, 10, 20, 60]))
    last = first + rng.choice([1, 2, 4])*step

    lasso = rng.random() < .5
    t_lasso, polys, boxes = lassos(rng, files, first, step, base)

    def windows():
        kw = {} if base == dt.datetime(first.year, first.month, first.day) and rng.random() < .5 else dict(base_date=base)
        kind = TimeSeriesGLMFlashSubset
        if lasso:
            kind = TimeSeriesGLMPolygonFlashSubset
            kw.update(polys=polys, t_edges_polys=t_lasso)
        ts = kind(names, first, last, step, min_events=least['events'], min_groups=least['groups'],
                  **dict(where, **kw))
        out, files_in_order = None, [at[t] for t in sorted(at)]
        for f, (ev, fl) in zip(files_in_order, ts.gen_chopped_events_flashes()):
            w = [rows(f, 'flash', a, b) for a, b in zip(ev, fl)]
            out = w if out is None else [dict(events=x['events']+y['events'], own=x['own']+y['own']) for x, y in zip(out, w)]
        return out
    ctx.begin()
    if series:
        res, err = ctx.call(windows)
        m = int(np.ceil((last-first).total_seconds()/step.total_seconds()))
        ctx.event('windows', lasso=boxes if lasso else [], files=data, query=q, res=res if not err else [], err=err,
                  edges=[int(round((first+k*step-base).total_seconds()*500)) for k in range(m+1)])
    else:
        res, err = ctx.call(collect)
        ctx.event('collect', files=data, query=q, res=res if not err else [], err=err)


def large_read(ctx, seed):
    read(ctx, seed, nf=random.Random(seed).choice([99, 101, 150]))


def large_several(ctx, seed):
    several(ctx, seed, nf=101)


def run(ctx):
    ctx.model_check('MCPointTables')
    rng = ctx.rng('cases')
    ctx.parallel(read, [rng.random() for i in range(ctx.scale(160, 2500))])
    ctx.parallel(several, [rng.random() for i in range(ctx.scale(100, 1200))])
    ctx.parallel(large_read, [rng.random() for i in range(ctx.scale(5, 30))])
    ctx.parallel(large_several, [rng.random() for i in range(ctx.scale(4, 30))])
    ctx.validate('TracePointTables')
