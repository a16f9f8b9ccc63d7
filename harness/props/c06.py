"""C06: nearest pixel lookups, and lookup tables kept in files."""
import random
import numpy as np
from core import quant, quants

UNITS = [1.0, 2.0**-6, 2.0**-3]


def pixel_table(rng, missing=True, large=False):
    n, m = rng.choice([1, 2, 3, 6]), rng.choice([1, 2, 4, 7])
    if large:
        n, m = rng.choice([(8, 9), (8, 20), (17, 9), (17, 20), (2, 300), (300, 1), (270, 2)])
    sx, sy = rng.choice([10, 30, 200]), rng.choice([10, 30, 200])
    if max(n, m) > 100:
        sx, sy = min(sx, 30), min(sy, 30)
    gone = rng.choice([0, .2, .7]) if missing else 0
    base = rng.choice([0, 0, 2**26])
    while True:
        t = [[dict(lon=base+i*sx+rng.randrange(-5, 6), lat=base+j*sy+rng.randrange(-5, 6), known=rng.random() >= gone)
              for j in range(m)] for i in range(n)]
        if any(p['known'] for r in t for p in r):
            return t


def arrays(rng, t, unit, how):
    lon = np.array([[p['lon'] for p in r] for r in t])*unit
    lat = np.array([[p['lat'] for p in r] for r in t])*unit
    bad = np.array([[not p['known'] for p in r] for r in t])
    if how == 'plain':
        return lon, lat
    part = np.array([[rng.random() < .5 for p in r] for r in t])
    blon, blat = bad, bad
    if how == 'one coordinate':
        blon, blat = bad & part, bad & ~part
    fill = rng.choice([np.nan, 1e20, 0.0])
    lon, lat = np.where(blon, fill, lon), np.where(blat, fill, lat)
    if how == 'one array':
        # only one of the arrays is masked
        return np.where(bad, 1e20, lon), np.ma.masked_array(lat, bad)
    return np.ma.masked_array(lon, blon), np.ma.masked_array(lat, blat)


def contents(lons, lats, unit):
    lons, lats = np.ma.asarray(lons), np.ma.asarray(lats)
    bad = np.ma.getmaskarray(lons) | np.ma.getmaskarray(lats)
    if lons.ndim != 2 or lons.shape != lats.shape:
        return []
    return [[dict(lon=quant(lons[i, j], unit) if not bad[i, j] else 0,
                  lat=quant(lats[i, j], unit) if not bad[i, j] else 0, known=bool(not bad[i, j]))
             for j in range(lons.shape[1])] for i in range(lons.shape[0])]


def plain(t):
    return [[p if p['known'] else dict(lon=0, lat=0, known=False) for p in r] for r in t]


def lookups(ctx, seed, large=False):
    """Builds, saves and loads tables in any order, asking in between."""
    from glmtools.io import ccd
    rng = random.Random(seed)
    unit = rng.choice(UNITS)
    ctx.begin()
    history, held, table, loaded = [], None, None, ''
    names = {k: ctx.path('lookup%d.pickle' % k) for k in range(2)}
    for step in range(rng.choice([2, 4, 7])):
        acts = ['build', 'ask', 'ask', 'save', 'load']
        act = rng.choice(acts) if held is not None else 'build'
        if act == 'load' and not history:
            act = 'ask'
        if act == 'build':
            table, loaded = pixel_table(rng, large=large), ''
            gone = any(not p['known'] for r in table for p in r)
            how = rng.choice(['masked', 'one coordinate', 'one array'] + ([] if gone else ['plain']))
            a = arrays(rng, table, unit, how)
            kw = {} if rng.random() < .5 else dict(leaf_size=rng.choice([1, 2, 40]))
            out, err = ctx.call(ccd.create_pixel_lookup, a[0], a[1], **kw)
            if err:
                ctx.event('read', history=[], loaded='', table=plain(table), res=[], err=err)
                return
            held = tuple(out) + (a[0], a[1])
            act = 'ask'
        if act == 'save':
            k = rng.randrange(2)
            now = plain(table)
            if rng.random() < .7:
                _, err = ctx.call(ccd.save_pixel_lookup, *held, filename=names[k])
            else:
                # bytes that the caller writes
                b, err = ctx.call(ccd.save_pixel_lookup, *held)
                if not err:
                    with open(names[k], 'wb') as f:
                        f.write(b)
            if err:
                ctx.event('read', history=[], loaded='', table=now, res=[], err=err)
                return
            history.append(dict(file=str(k), table=now))
        if act == 'load':
            k = rng.choice([h['file'] for h in history])
            out, err = ctx.call(ccd.load_pixel_lookup, names[int(k)])
            res = []
            if not err:
                held, loaded = tuple(out), k
                table = [h['table'] for h in history if h['file'] == k][-1]
                res, err = ctx.call(contents, held[3], held[4], unit)
            ctx.event('read', history=list(history), loaded=k, table=[], res=res if not err else [], err=err)
            if err:
                return
            act = 'ask'
        if act == 'ask':
            at = []
            for i in range(rng.choice([1, 5] if not large else [40, 150])):
                p = rng.choice([p for r in table for p in r if p['known']])
                at.append([p['lon']+rng.randrange(-40, 41), p['lat']+rng.randrange(-40, 41)] if rng.random() < .8
                          else [p['lon']+rng.randrange(-3000, 3000), p['lat']+rng.randrange(-3000, 3000)])

            def ask():
                d, idx = held[0].query(np.array(at, dtype='f8')*unit)
                X, Y = held[1], held[2]
                d2 = (np.ravel(d)/unit)**2
                return [dict(pixel=[int(X[i]), int(Y[i])], dist2=quant(v)) for i, v in zip(np.ravel(idx), d2)]
            res, err = ctx.call(ask)
            ctx.event('ask', history=list(history) if loaded else [], loaded=loaded,
                      table=plain(table) if not loaded else [], at=at, res=res if not err else [], err=err)


def corners(ctx, seed):
    """Tables of corner offsets through files, and from the original files."""
    from glmtools.io import ccd
    from scipy.io import savemat
    rng = random.Random(seed)
    ctx.begin()
    history = []
    name = ctx.path('corners.pickle')

    def flat(lons, lats, c):
        lons, lats, c = np.asarray(lons), np.asarray(lats), np.asarray(c)
        if c.shape != lons.shape + (4, 2) or lats.shape != lons.shape:
            return []
        return [quants(lons[i], unit) + quants(lats[i], unit) + quants(c[i], unit) for i in range(lons.shape[0])]
    for step in range(rng.choice([1, 3])):
        n, m = rng.choice([(1, 1), (1, 3), (2, 2), (4, 1), (4, 3), (2, 3), (3, 40)])
        unit = rng.choice([1.0, 2.0**-6, 2.0**-20])
        draw = lambda *s: np.array([rng.randrange(-99999999, 99999999) for i in range(int(np.prod(s)))], dtype='f8').reshape(s)
        lons, lats, c = draw(n, m)*unit, draw(n, m)*unit, draw(n, m, 4, 2)*unit
        want = flat(lons, lats, c)
        how = rng.choice(['file', 'bytes', 'mat', 'mat names', 'pixels'])
        if how in ('file', 'bytes'):
            def work():
                if how == 'file':
                    ccd.save_pixel_corner_lookup(lons, lats, c, filename=name)
                else:
                    with open(name, 'wb') as f:
                        f.write(ccd.save_pixel_corner_lookup(lons, lats, c))
                return flat(*ccd.load_pixel_corner_lookup(name))
        elif how == 'pixels':
            known = np.array([[rng.random() < .7 for j in range(m)] for i in range(n)])
            want = contents(np.ma.masked_array(lons, ~known), np.ma.masked_array(lats, ~known), unit)

            def work():
                import tables
                with tables.open_file(ctx.scratch + '/pixels%d.mat' % (seed*1e9), 'w') as f:
                    part = rng.choice([known, np.ones_like(known)])
                    kw = {} if rng.random() < .5 else dict(lat_var='a', lon_var='b')
                    f.create_array('/', kw.get('lon_var', 'mean_lon'), np.where(known, lons+360, np.nan))
                    f.create_array('/', kw.get('lat_var', 'mean_lat'), np.where(part, lats, np.nan))
                a, b = ccd.read_pixel_location_mat_file(ctx.scratch + '/pixels%d.mat' % (seed*1e9), **kw)
                return contents(a, b, unit)
        else:
            mat = ctx.path('corners.mat')
            xs, ys = ['nwlon', 'swlon', 'selon', 'nelon'], ['nwlat', 'swlat', 'selat', 'nelat']
            xg, yg, kw = 'lon_grid', 'lat_grid', {}
            if how == 'mat names':
                xs, ys, xg, yg = ['x%d' % k for k in range(4)], ['y%d' % k for k in range(4)], 'x', 'y'
                kw = dict(x_grid=xg, y_grid=yg, x_corners=xs, y_corners=ys)
            d = {xg: lons, yg: lats}
            d.update({v: c[:, :, k, 0] for k, v in enumerate(xs)})
            d.update({v: c[:, :, k, 1] for k, v in enumerate(ys)})

            def work():
                savemat(mat, d)
                return flat(*ccd.read_official_corner_lut(mat, **kw))
        history.append(dict(file='c', table=want))
        res, err = ctx.call(work)
        ctx.event('read', history=list(history), loaded='c', table=[], res=res if not err else [], err=err)


def large(ctx, seed):
    lookups(ctx, seed, large=True)


def run(ctx):
    ctx.model_check('MCPixelLookups')
    rng = ctx.rng('cases')
    ctx.parallel(lookups, [rng.random() for i in range(ctx.scale(250, 3000))])
    ctx.parallel(corners, [rng.random() for i in range(ctx.scale(120, 1500))])
    ctx.parallel(large, [rng.random() for i in range(ctx.scale(20, 80))])
    ctx.validate('TracePixelLookups')
