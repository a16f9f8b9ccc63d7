"""E02: the ellipsoid revision by date, and positions in loaded files."""
import datetime as dt
import random
import numpy as np
import loader
from core import BAD, nearests, quant
from props.e01 import DEG, UNIT, places
from lcfa import Lcfa, LATLON_SCALE

CHANGE = dt.datetime(2018, 10, 15)


def dates(rng, n):
    s = lambda x: dt.timedelta(seconds=x)
    out = [CHANGE, CHANGE-s(1), CHANGE+s(1), CHANGE-s(20), CHANGE+s(20), CHANGE-s(86400), CHANGE+s(86399),
           CHANGE-s(86401), CHANGE.replace(year=2017), CHANGE.replace(year=2019), CHANGE.replace(month=9),
           CHANGE.replace(month=11), dt.datetime(2018, 9, 30, 23), dt.datetime(2019, 1, 1), dt.datetime(2019, 3, 3),
           dt.datetime(2020, 12, 31, 23, 59, 59), dt.datetime(2017, 12, 31), dt.datetime(2018, 1, 20),
           dt.datetime(2018, 11, 1), dt.datetime(2019, 10, 1), dt.datetime(2021, 2, 14)]
    while len(out) < n:
        out.append(CHANGE + s(rng.randrange(-2*365*86400, 5*365*86400) if rng.random() < .5
                              else rng.randrange(-3*86400, 3*86400)))
    return out


def one(ctx, item):
    from glmtools.io.glm import GLMDataset
    start, seed = item
    rng = random.Random(seed)
    nc = Lcfa(start)
    if rng.random() < .4:   # the product time is not the start of its bounds
        nc.product = start
        nc.start, nc.end = start - dt.timedelta(seconds=10), start + dt.timedelta(seconds=10)
    sat = rng.choice([-7500000, -13700000, -7525000])
    nc.nadir = np.float32(sat*DEG)
    nc.lon_center = -75.0 if sat > -10000000 else -137.0
    fl, gr, ev = [], [], []
    snap = lambda p: [6250*round(p[0]/6250), 6250*round(p[1]/6250)]     # exact in single precision
    near = [[lon - 36000000 if lon > 0 else lon, lat] for lon, lat in places(rng, 18, sat)]
    for i in range(3):
        fl.append(snap(near.pop()))
        nc.add_flash(i+1, fl[-1][1]*DEG, fl[-1][0]*DEG)
        for j in range(2):
            gr.append(snap(near.pop()))
            nc.add_group(10*i+j, i+1, gr[-1][1]*DEG, gr[-1][0]*DEG)
            lon, lat = near.pop()
            a, o = (min(max(int(v), 0), 65535) for v in (nc.encode_lat(lat*DEG), nc.encode_lon(lon*DEG)))
            nc.add_event(100*i+j, 10*i+j, a, o)
            ev.append([int(round((float(nc.lon_offset) + o*float(LATLON_SCALE))/DEG)),
                       int(round((float(nc.lat_offset) + a*float(LATLON_SCALE))/DEG))])
    asked = rng.choice([-1, -1, -1, 0, 1])
    path = nc.write(ctx.path(nc.name()))
    kw = dict(ellipse_rev=asked) if asked >= 0 or rng.random() < .5 else {}
    ctx.begin()
    glm, err = ctx.call(GLMDataset, path, **kw)
    res = {}
    if not err:
        d = glm.dataset
        try:
            for lev in ('flash', 'group', 'event'):
                res[lev] = [[a, b] for a, b in zip(nearests(d[lev+'_x'], UNIT), nearests(d[lev+'_y'], UNIT))]
        except KeyError as e:
            err = repr(e)
        d.close()
    ctx.event('load', date=loader.date(start), asked=asked, sat=sat, flash=fl, group=gr, event=ev, res=res, err=err)


def run(ctx):
    from glmtools.io.lightning_ellipse import ltg_ellpse_rev, ltg_ellps_radii
    ctx.model_check('MCSatelliteView')
    rng = ctx.rng('cases')
    whole = dates(rng, ctx.scale(400, 4000))
    for t in whole + [t.replace(microsecond=rng.choice([1, 999999])) for t in rng.sample(whole, 90)]:
        ctx.begin()
        out, err = ctx.call(lambda: (ltg_ellpse_rev(t), ltg_ellps_radii(t)))
        res = dict(rev=quant(out[0]), radii=[quant(v) for v in out[1]]) if not err else {}
        ctx.event('revision', date=loader.date(t), res=res, err=err)
    ctx.parallel(one, [(t, rng.random()) for t in dates(rng, ctx.scale(150, 1200))])
    ctx.validate('TraceSatelliteView')
