"""I05: aggregation of series to longer intervals."""
import datetime as dt
import os
import random
import numpy as np
import xarray as xr
import imagery
from core import BAD, nearest
from series import image, multifile, stamp

NAMES = {p: (name, scale) for p, name, scale in imagery.PRODUCTS}


def synthetic(rng, times, top=12000):
    """A series as opened from files: missing where there is no lightning."""
    ny, nx = rng.randrange(1, 4), rng.randrange(1, 4)
    missing = rng.choice([0., .3, .7])
    a = {p: np.zeros((len(times), ny, nx)) for p in NAMES}
    for i in np.ndindex(len(times), ny, nx):
        if rng.random() < missing:
            continue
        for p in NAMES:
            a[p][i] = rng.randrange(1, top)
        for p in ('flash_centroid', 'group_centroid'):
            if rng.random() < .5:
                a[p][i] = 0
    if rng.random() < .3:
        a = {p: np.ceil(v/64)*64 for p, v in a.items()}
    data = {}
    for p, (name, scale) in NAMES.items():
        v = a[p]*(scale/imagery.PARTS)
        v[a[p] == 0] = np.nan
        data[name] = (('time', 'y', 'x'), v.astype(rng.choice(['f4', 'f8'])))
    t = [np.datetime64(imagery.EPOCH + dt.timedelta(seconds=s), 'ns') for s in times]
    data['goes_imager_projection'] = (('time',), np.full(len(times), -2147483647, 'i4'))
    data['nominal_satellite_subpoint_lat'] = (('time',), np.zeros(len(times)))
    data['nominal_satellite_subpoint_lon'] = (('time',), np.full(len(times), -75.))
    data['DQF'] = (('time', 'y', 'x'), np.zeros((len(times), ny, nx), 'f4'))
    d = xr.Dataset(data, coords={'time': t, 'y': np.arange(ny)*-1e-3, 'x': np.arange(nx)*1e-3})
    d['goes_imager_projection'].attrs.update(longitude_of_projection_origin=-75., sweep_angle_axis='x', perspective_point_height=35786023.)
    for p, (name, scale) in NAMES.items():
        d[name].attrs.update(standard_name=name, units=p + ' unit')
    return d


def described(d, products):
    """Attributes of the fields that are summed or taken over, and of the projection."""
    names = sorted(NAMES[p][0] for p in products if p not in imagery.OVER) + ['goes_imager_projection']
    return [[n] + sorted('%s=%s' % kv for kv in d[n].attrs.items()) for n in names]


def place(d):
    return [[nearest(v, 1e-7) for v in d[k].values] for k in ('x', 'y')]


def subpoint(d):
    v = [float(d['nominal_satellite_subpoint_'+k]) for k in ('lon', 'lat')]
    return [BAD if a != a else nearest(a, 1e-3) for a in v]


def from_files(ctx, rng):
    from glmtools.io.imagery import open_glm_time_series
    files, start, corner = [], None, (rng.randrange(-90, 80)*2.**-10, 0.)
    for k in range(rng.randrange(1, 3)):
        c = imagery.Grids(rng, n=(2, 2), frames=rng.randrange(1, 5), kind=rng.choice(['small', 'step']), empty=rng.choice([.1, .5]),
                          start=start, interval=60, cell=(2.**-12, 2.**-11), corner=corner, nadir=-75.)
        files += c.g.write_grids(outpath=os.path.join(os.path.dirname(ctx.path()), '{dataset_name}'))
        start = c.g.t_edges[-1] + dt.timedelta(minutes=rng.choice([0, 1, 5]))
    with multifile():
        return open_glm_time_series(files)


def one(ctx, seed, large=False):
    from glmtools.io.imagery import aggregate
    rng = random.Random(seed)
    every = rng.choice([20, 60, 60, 60, 120])
    t0 = 86400*rng.randrange(6000, 7500) + rng.choice([0, 86400-120, rng.randrange(0, 86400)])
    times = sorted(rng.sample(range(200), rng.choice([30, 70, 150]))) if large else sorted(rng.sample(range(12), rng.randrange(1, 9)))
    times = [t0 + every*k for k in times]
    if rng.random() < .3:
        rng.shuffle(times)
    minutes = rng.choice([1, 1, 2, 3, 5, 10, 60, 1440, .5, 1.5, 2.5])
    if rng.random() < .2 and not large:
        s = from_files(ctx, rng)
    else:
        s = synthetic(rng, times, 1500 if large else 12000)
    stamps = [stamp(t) for t in s.time.values]
    given = []
    if rng.random() < .5:
        a = min(stamps) + rng.choice([0, 0, -60, -3600, 60, 30, -20, 120])
        given = [a, a+int(60*minutes)*rng.choice([1, 1, 2, 3, 6])]
    kw = dict(start_end=tuple(imagery.EPOCH+dt.timedelta(seconds=v) for v in given)) if given else {}
    products = sorted(NAMES)
    if rng.random() < .15:
        products = [p for p in products if p not in (rng.choice(['energy', 'flash_centroid', 'group_centroid', 'least_area']),)]
        s = s.drop_vars([NAMES[p][0] for p in NAMES if p not in products])
    if given and not any(given[0] <= t < given[1] for t in stamps):
        return      # nothing to aggregate
    frames = [dict(time=t, img=image(s.isel(time=k), products), subpoint=subpoint(s.isel(time=k))) for k, t in enumerate(stamps)]
    before = s.copy(deep=True)

    def work():
        r = aggregate(s, minutes, **kw)
        bins = []
        for k, b in enumerate(r.time_bins.values):
            bins.append(dict(left=stamp(b.left), right=stamp(b.right), img=image(r.isel(time_bins=k), products),
                             subpoint=subpoint(r.isel(time_bins=k))))
        return dict(bins=bins, start=imagery.seconds(r.attrs['time_coverage_start']), end=imagery.seconds(r.attrs['time_coverage_end']),
                    place=place(r), described=described(r, products))
    ctx.begin()
    res, err = ctx.call(work)
    ctx.event('aggregate', series=frames, range=given, interval=int(60*minutes), cells=s.sizes['y']*s.sizes['x'], products=products,
              place=place(s), described=described(s, products),
              after='same' if before.identical(s) else 'changed', res=res if not err else {}, err=err)


def large(ctx, seed):
    one(ctx, seed, large=True)


def run(ctx):
    ctx.model_check('MCImageSeries')
    rng = ctx.rng('cases')
    ctx.parallel(one, [rng.random() for i in range(ctx.scale(200, 2500))])
    ctx.parallel(large, [rng.random() for i in range(ctx.scale(8, 60))])
    ctx.validate('TraceImageSeries')
