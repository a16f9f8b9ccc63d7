"""E01: fixed grid positions of places."""
import random
import numpy as np
from core import nearests

UNIT = 2.0**-28
DEG = 1e-5


def places(rng, n, sat):
    """Longitudes and latitudes that the satellite sees, in 1e-5 degrees; the
    longitudes are written in any equivalent way."""
    out = []
    while len(out) < n:
        if rng.random() < .2:
            d, lat = rng.choice([0, 1, -1, 100, -1000, 3000000, -3000000, 4500000, 5999999, -6000000]), \
                rng.choice([0, 1, -1, 1000, 5000000, -5000000, 6000000, -4500000])
        else:
            d, lat = rng.randrange(-7700000, 7700001), rng.randrange(-7700000, 7700001)
        if (d/1e5)**2 + (lat/1e5)**2 > 77**2:
            continue
        lon = sat + d
        ways = [x for x in (lon, lon+36000000, lon-36000000) if -18000000 <= x <= 36000000]
        out.append([rng.choice(ways), lat])
    return out


def earths(rng):
    """Radii of the earth in 0.1 m and height of the satellite in m; none for
    the standard ones. Any of them may be left to its default."""
    if rng.random() < .6:
        return [], {}
    re, rp, h = 63781370, 63567523, 35786023
    kw = {}
    if rng.random() < .5:
        re = rng.choice([63781370, 63781600, 63700000, 63900000])
        kw['re_grs80'] = re*.1
    if rng.random() < .5:
        rp = rng.choice([63567523, 63560000, 63400000, 63700000])
        kw['rp_grs80'] = rp*.1
    if not kw or rng.random() < .6:
        h = rng.choice([35786023, 35785831, 35786400, 34000000, 36500000])
        kw['sat_grs80_height'] = float(h)
    return [re, rp, h], kw


def positions(ctx, pts, sat, rev, form='f8', **kw):
    from glmtools.io.lightning_ellipse import ltg_ellps_lon_lat_to_fixed_grid
    lon, lat = np.array([p[0] for p in pts])*DEG, np.array([p[1] for p in pts])*DEG
    s = sat*DEG
    if form == '2d':
        lon, lat = lon.reshape(2, -1), lat.reshape(2, -1)
    elif form == 'scalar':
        lon, lat = float(lon[0]), float(lat[0])
    elif form == '0d':
        s = np.array(s)
    lon0, lat0 = np.copy(lon), np.copy(lat)
    out, err = ctx.call(ltg_ellps_lon_lat_to_fixed_grid, lon, lat, s, rev, **kw)
    res = []
    if not err:
        x, y = nearests(out[0], UNIT), nearests(out[1], UNIT)
        res = [[a, b] for a, b in zip(x, y)] if len(x) == len(y) else []
    return res, err, bool(np.array_equal(lon, lon0) and np.array_equal(lat, lat0))


def one(ctx, seed, n=24):
    rng = random.Random(seed)
    sat = rng.choice([-7500000, -7520000, -13700000, -13720000, -8950000, 0, 14070000, 17900000, -17950000, 18000000,
                      -18000000, 4150000, -7525000, -8947000, -13712345, rng.randrange(-18000000, 18000001)])
    rev = rng.choice([0, 1])
    form = rng.choice(['f8', 'f8', 'f8', '2d', 'scalar', '0d'])
    pts = places(rng, 1 if form == 'scalar' else n, sat)
    ctx.begin()
    earth, kw = earths(rng)
    res, err, same = positions(ctx, pts, sat, rev, form, **kw)
    ctx.event('view', points=pts, sat=sat, rev=rev, earth=earth, res=res, err=err, same=same)
    if rng.random() < .3:
        lon, lat = places(rng, 1, sat)[0]
        d = lon - sat
        other = lon + 36000000 if lon <= 0 else lon - 36000000
        pts = [[lon, lat], [sat - d, lat], [lon, -lat], [other, lat], [sat, 0]]
        if all(-54000000 < p[0]-sat < 54000000 for p in pts):
            res, err, same = positions(ctx, pts, sat, rev)
            ctx.event('mirror', points=pts, sat=sat, rev=rev, res=res, err=err)


def large(ctx, seed):
    one(ctx, seed, n=320)


def run(ctx):
    ctx.model_check('MCSatelliteView')
    rng = ctx.rng('cases')
    ctx.parallel(one, [rng.random() for i in range(ctx.scale(400, 6000))])
    ctx.parallel(large, [rng.random() for i in range(ctx.scale(8, 60))])
    ctx.validate('TraceSatelliteView')
