"""I03: names, metadata and coordinates of imagery."""
import datetime as dt
import os
import random
import re
import netCDF4
import numpy as np
import xarray as xr
import imagery
from core import BAD, nearest, quant

PLATFORMS = [('G16', 'GOES-East', 'GLM-1'), ('G17', 'GOES-West', 'GLM-2'), ('G18', 'GOES-West', 'GLM-3'),
             ('G16', 'GOES-Test', 'GLM-1'), ('G19', 'GOES-East', 'GLM-4')]
NAME = re.compile(r'OR_GLM-L2-GLM(F|C|M1|M2)-M3_([A-Z0-9]+)_s(\d{14})_e(\d{14})_c(\d{14})\.nc')


def digits(name):
    m = NAME.fullmatch(name)
    if not m:
        return dict(scene='', platform='', s=[], e=[], c=[0]*14)
    d = [[int(x) for x in m.group(k)] for k in (3, 4, 5)]
    return dict(scene=m.group(1), platform=m.group(2), s=d[0], e=d[1], c=d[2])


def clock(text, micro=True):
    m = re.fullmatch(r'(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(?:\.(\d+))?Z', str(text))
    if not m:
        return []
    return [int(v) for v in m.groups()[:6]] + ([int((m.group(7) or '0').ljust(6, '0')[:6])] if micro else [])


def given(path):
    """The start and end in a name that was asked for."""
    m = re.fullmatch(r'(\d{14})-(\d{14})\.nc', os.path.basename(path))
    return [moment(dt.datetime.strptime(v, '%Y%m%d%H%M%S')) for v in m.groups()] if m else []


def moment(t):
    return [t.year, t.month, t.day, t.hour, t.minute, t.second]


def resolution(text):
    m = re.fullmatch(r'([\d.]+)(km|microradian) at nadir', text)
    if not m:
        return dict(num=BAD, unit=text, text=text)
    return dict(num=quant(float(m.group(1)), .1 if m.group(2) == 'km' else 1.), unit=m.group(2), text=text)


def names(attrs):
    return dict(name=digits(attrs['dataset_name']), dataset=attrs['dataset_name'], full=attrs['dataset_name'],
                start=clock(attrs['time_coverage_start']), end=clock(attrs['time_coverage_end']),
                created=clock(attrs['date_created'], micro=False), platform=attrs['platform_ID'],
                slot=attrs['orbital_slot'], instrument=attrs['instrument_ID'], scene=attrs['scene_id'])


def packed(nc, k):
    v = nc.variables[k]
    v.set_auto_maskandscale(False)
    a = np.asarray(v[:])
    if a.dtype.kind not in 'iu':
        return dict(codes=[], scale=BAD, offset=BAD)
    return dict(codes=a.astype('i4').tolist(), scale=nearest(v.scale_factor, 1e-7), offset=nearest(v.add_offset, 1e-7))


def field(d, k):
    a = d[k].attrs
    m = re.fullmatch(r'Count per nominal +(\d+) microradian\^2 pixel per +([\d.]+) min', a.get('units', ''))
    area, tenths = (int(m.group(1)), quant(float(m.group(2)), .1)) if m else (0, 0)
    return dict(name=k, standard=a.get('standard_name', ''), mapping=a.get('grid_mapping', ''), dims=list(d[k].dims),
                sizes=list(d[k].shape), units='count' if m else a.get('units', ''), area=area if area < 1e9 else 0, tenths=tenths)


def start_time(rng):
    edge = rng.choice([None, None, dt.datetime(2020, 1, 1), dt.datetime(2020, 2, 29), dt.datetime(2020, 3, 1),
                       dt.datetime(2021, 1, 1), dt.datetime(2019, 3, 1), dt.datetime(2020, 12, 31)])
    if edge is None:
        return dt.datetime(2018, 1, 1) + dt.timedelta(days=rng.randrange(1400), seconds=rng.randrange(86400))
    return edge - dt.timedelta(seconds=rng.choice([0, 1, 30, 60, 61, 3600]))


def spans(rng):
    """Spans between first and last centres, clear of the limits of scenes."""
    kind = rng.choice(['full', 'conus', 'meso', 'wide', 'other', 'mixed'])
    near = lambda v: v*(1+rng.choice([0, 0, rng.uniform(-.009, .009), rng.choice([-1, 1])*rng.uniform(.012, .05)]))
    if kind == 'full':
        return near(.303744), near(.303744)
    if kind == 'conus':
        return near(.14), near(.084)
    if kind == 'meso':
        return near(.028), near(.028)
    if kind == 'wide':
        return near(.172732), rng.choice([near(.084), rng.uniform(.01, .3)])
    if kind == 'mixed':
        s = [.303744, .14, .084, .028, .172732]
        return rng.choice(s), rng.choice(s)
    return rng.uniform(.001, .3), rng.uniform(.001, .3)


def clear(v, refs):
    return all(abs(abs(v-r)/r - .01) > 5e-4 for r in refs)


SPANS = [.303744, .14, .084, .028, .172732]
SPACINGS = [14e-6, 28e-6, 56e-6, 112e-6, 224e-6, 280e-6, 2800e-6]


def meta(ctx, seed):
    rng = random.Random(seed)
    aligned = rng.random() < .3
    while True:
        ew, ns = spans(rng)
        if aligned:
            n = rng.randrange(2, 40), rng.randrange(2, 40)
            dx = dy = 56e-6
            first = rng.randrange(0, 5424-n[0]), rng.randrange(0, 5424-n[1])
            corner = (-.151844+(first[0]-.5)*56e-6, .151844-(first[1]+n[1]-.5)*56e-6)
        else:
            n = rng.randrange(2, 12), rng.randrange(2, 12)
            dx, dy = ew/(n[0]-1), ns/(n[1]-1)
            if rng.random() < .2:
                dx = dy = rng.choice(SPACINGS[2:6])*(1+rng.choice([0, .005, -.02, .02]))
            corner = [-.5*k*d + (rng.uniform(-.15+.5*k*d, .15-.5*k*d) if k*d < .25 else 0) for k, d in zip(n, (dx, dy))]
        c = imagery.Grids(rng, n=n, frames=rng.randrange(1, 4), kind='small', empty=.9, start=start_time(rng),
                          interval=rng.choice([1, 5, 20, 60, 60, 300, 3600, 86400]), cell=(dx, dy), corner=corner,
                          nadir=rng.choice([-75., -75.2, -137., -137.2, -89.5, 0., 140.7]))
        x, y = [(e[1:]+e[:-1])/2 for e in (c.g.xedge, c.g.yedge)]
        # half of a microradian is rounded either way
        if clear(x[-1]-x[0], SPANS) and clear(y[-1]-y[0], SPANS) and clear(x[1]-x[0], SPACINGS) and \
                abs((x[1]-x[0])*1e6 % 1 - .5) > .02:
            break
    plat, slot, inst = rng.choice(PLATFORMS)
    c.g.first_file_attrs = dict(platform_ID=plat, orbital_slot=slot, instrument_ID=inst)
    plain = rng.random() < .7
    ctx.begin()

    def work():
        where = os.path.dirname(ctx.path())
        files = c.g.write_grids(outpath=os.path.join(where, '{dataset_name}' if plain else 'a/{start_time:%Y%m%d%H%M%S}-{end_time:%Y%m%d%H%M%S}.nc'))
        out = []
        for f in files:
            with xr.open_dataset(f) as d, netCDF4.Dataset(f) as nc:
                r = names(d.attrs)
                p = d['goes_imager_projection'].attrs
                r.update(file=os.path.basename(f), given=given(f), resolution=resolution(d.attrs['spatial_resolution']),
                         x=packed(nc, 'x'), y=packed(nc, 'y'), xs=[nearest(v, 1e-7) for v in d.x.values],
                         ys=[nearest(v, 1e-7) for v in d.y.values],
                         lon=nearest(d['nominal_satellite_subpoint_lon'], 1e-3), lat=nearest(d['nominal_satellite_subpoint_lat'], 1e-3),
                         projlon=nearest(p['longitude_of_projection_origin'], 1e-3), height=quant(p['perspective_point_height']),
                         major=quant(p['semi_major_axis']), flat=nearest(p['inverse_flattening'], 1e-6),
                         projlat=nearest(p['latitude_of_projection_origin'], 1e-3), sweep=p['sweep_angle_axis'],
                         minor=nearest(p['semi_minor_axis'], 1e-2), mapping=p['grid_mapping_name'], timeline=d.attrs['timeline_id'],
                         axes=[[d[k].attrs.get(a, '') for a in ('axis', 'units', 'standard_name')] for k in ('x', 'y')],
                         measured=[d['nominal_satellite_subpoint_'+k].attrs.get('units', '') for k in ('lon', 'lat')],
                         fields=[field(d, k) for k in sorted(d.data_vars) if d[k].ndim],
                         quality=[int(v) for v in np.unique(np.asarray(nc.variables['DQF'][:].filled(255)))])
                out.append(r)
        return out
    res, err = ctx.call(work)
    a = c.abstract()
    common = dict(start=moment(c.start), interval=c.interval, platform=plat, slot=slot, instrument=inst, plain=plain, aligned=aligned,
                  nx=c.n[0], ny=c.n[1], xedges=a['xedges'], yedges=a['yedges'], nadir=nearest(c.nadir, 1e-3),
                  spacing=nearest(x[1]-x[0], 1e-8), dx=nearest(c.g.dx, 1e-7), dy=nearest(c.g.dy, 1e-7))
    common['from'] = common.pop('start')
    if err or len(res) != c.frames:
        ctx.event('meta', frame=0, res={}, err=err or 'another number of files', **common)
        return
    for k, r in enumerate(res):
        ctx.event('meta', frame=k, res=r, err='', **common)


def attrs(ctx, seed):
    from glmtools.io.imagery import get_glm_global_attrs
    rng = random.Random(seed)
    start = start_time(rng)
    end = start + dt.timedelta(seconds=rng.choice([1, 20, 60, 300, 3600, 86400]))
    plat, slot, inst = rng.choice(PLATFORMS)
    scene = rng.choice(['FULL', 'CONUS', 'MESO1', 'MESO2', 'OTHER'])
    text = rng.choice(['2km at nadir', '0.5km at nadir', '8km at nadir', '123microradian at nadir'])
    source = [rng.choice(['OE', 'DE']), rng.choice(['Realtime', 'Postprocessed']), rng.choice(['NAPO', 'TTU'])]

    def work():
        m = get_glm_global_attrs(start, end, plat, slot, inst, scene, text, 'ABI Mode 3', *source)
        return dict(names(m), text=m['spatial_resolution'],
                    source=[m['production_environment'], m['production_data_source'], m['production_site']])
    ctx.begin()
    res, err = ctx.call(work)
    ctx.event('attrs', start=moment(start), end=moment(end), platform=plat, slot=slot, instrument=inst, scene=scene,
              resolution=text, source=source, res=res if not err else {}, err=err)


def scene(ctx, seed):
    from glmtools.io.imagery import infer_scene_from_dataset
    rng = random.Random(seed)
    while True:
        ew, ns = spans(rng)
        want = rng.choice([rng.choice(SPACINGS)*(1+rng.uniform(-.008, .008)), rng.choice(SPACINGS)*(1+rng.choice([-.02, .02])),
                           rng.uniform(20e-6, 4000e-6), ew/rng.randrange(1, 9)])
        if clear(ew, SPANS) and clear(ns, SPANS) and clear(want, SPACINGS) and abs(want*1e6 % 1 - .5) > .02:
            break
    # only the first spacing and the ends matter to what is asked
    x0, y0 = rng.uniform(-.15, .15-ew) if ew < .29 else -ew/2, rng.uniform(-.15, .15-ns) if ns < .29 else -ns/2
    x = np.array(sorted({x0, x0+min(want, ew), x0+ew}))
    y = np.array([y0+ns, y0])
    if rng.random() < .5:
        y = y[::-1]
    spacing = x[1]-x[0]
    if len(x) > 2 and rng.random() < .3:
        # from the east
        x = np.array([x[2], x[2]-spacing, x[0]])
    ctx.begin()
    res, err = ctx.call(infer_scene_from_dataset, x, y)
    ctx.event('scene', ew=nearest(ew, 1e-7), ns=nearest(ns, 1e-7), spacing=nearest(spacing, 1e-8),
              res=dict(scene=res[0], resolution=resolution(res[1])) if not err else {}, err=err)


def coords(ctx, seed):
    from glmtools.io.imagery import get_goes_imager_fixedgrid_coords
    rng = random.Random(seed)
    whole = rng.random() < .15
    nx, ny = (5424, 5424) if whole else (rng.randrange(1, 60), rng.randrange(1, 60))
    fx, fy = rng.randrange(0, 5425-nx), rng.randrange(0, 5425-ny)
    x = -.151844 + 56e-6*(fx+np.arange(nx))
    y = .151844 - 56e-6*(fy+np.arange(ny))
    if rng.random() < .3:
        x, y = x.astype('f4').astype('f8'), y.astype('f4').astype('f8')
    path = ctx.path('coords.nc')

    def work():
        xc, yc = get_goes_imager_fixedgrid_coords(x, y)
        xr.Dataset(coords={'x': xc, 'y': yc}).to_netcdf(path)
        with xr.open_dataset(path) as d, netCDF4.Dataset(path) as nc:
            return dict(x=packed(nc, 'x'), y=packed(nc, 'y'), xs=[nearest(v, 1e-7) for v in d.x.values],
                        ys=[nearest(v, 1e-7) for v in d.y.values])
    ctx.begin()
    res, err = ctx.call(work)
    ctx.event('coords', nx=nx, ny=ny, firstx=fx, firsty=fy, res=res if not err else {}, err=err)


def one(ctx, item):
    item[0](ctx, item[1])


def run(ctx):
    ctx.model_check('MCScenes')
    rng = ctx.rng('cases')
    items = [(meta, rng.random()) for i in range(ctx.scale(120, 1500))]
    items += [(attrs, rng.random()) for i in range(ctx.scale(150, 1500))]
    items += [(scene, rng.random()) for i in range(ctx.scale(300, 3000))]
    items += [(coords, rng.random()) for i in range(ctx.scale(24, 200))]
    ctx.parallel(one, items)
    ctx.validate('TraceScenes')
