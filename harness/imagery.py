"""Accumulated grids and the imagery files written from them."""
import datetime as dt
import os
import numpy as np
from core import BAD, nearest

# product: (name in the file, scale factor)
PRODUCTS = [('flash_extent', 'flash_extent_density', .0625), ('flash_centroid', 'flash_centroid_density', 1.),
            ('flash_area', 'average_flash_area', 10.), ('energy', 'total_energy', 1.52597e-6),
            ('group_extent', 'group_extent_density', .25), ('group_centroid', 'group_centroid_density', 1.),
            ('group_area', 'average_group_area', 1.), ('least_area', 'minimum_flash_area', 10.)]
PARTS = 64
TOP = 65535
OVER = {'flash_area': ('flash_extent', 1), 'group_area': ('group_extent', 4)}
EPOCH = dt.datetime(2000, 1, 1)


def value(rng, kind):
    if kind == 'wide':
        kind = rng.choice(['small', 'step', 'high', 'half', 'any', 'top'])
    if kind == 'small':
        return rng.randrange(1, 2*PARTS+2)
    if kind == 'step':
        return rng.randrange(1, 200)*PARTS + rng.randrange(-1, 2)
    if kind == 'half':
        return min(TOP*PARTS, rng.choice([0, 1, 2, 255, 32766, 32767, 32768, 60000])*PARTS + rng.randrange(30, 35))
    if kind == 'high':
        return rng.randrange(32760, 32775)*PARTS + rng.randrange(PARTS)
    if kind == 'top':
        return TOP*PARTS - rng.randrange(0, 3*PARTS)
    return rng.randrange(1, TOP*PARTS+1)


class Grids(object):
    """A gridder with accumulated values, in 1/64 of the scale factors."""
    def __init__(self, rng, n=None, frames=None, kind='wide', empty=None, start=None, interval=None, cell=None, corner=None,
                 nadir=None):
        from glmtools.grid.make_grids import GLMlutGridder
        from lmatools.grid.fixed import get_GOESR_coordsys
        self.n = n or (rng.randrange(2, 6), rng.randrange(1, 5))
        self.frames = frames or rng.randrange(1, 4)
        self.interval = interval or rng.choice([1, 5, 20, 60, 60, 120, 300, 3600, 86400])
        self.start = start or (dt.datetime(2018, 1, 1) + dt.timedelta(days=rng.randrange(1400), seconds=rng.randrange(86400)))
        self.nadir = nadir if nadir is not None else rng.choice([-75.0, -75.2, -137.0, -89.5, 0.0])
        dx, dy = cell or (rng.choice([2.0**-13, 2.0**-12, 2.0**-10]), rng.choice([2.0**-13, 2.0**-12, 2.0**-10]))
        x0, y0 = corner or (rng.randrange(-100, 90)*2.0**-10, rng.randrange(-100, 90)*2.0**-10)
        self.empty = rng.choice([0., .2, .5, .9, 1.]) if empty is None else empty
        end = self.start + dt.timedelta(seconds=self.interval*self.frames)
        self.g = GLMlutGridder(self.start, end, do_3d=False, proj_name='geos',
                               pixel_coords=get_GOESR_coordsys(self.nadir)[0], dx=dx, dy=dy,
                               x_bnd=(x0, x0+self.n[0]*dx), y_bnd=(y0, y0+self.n[1]*dy),
                               frame_interval=float(self.interval), ctr_lon=self.nadir, ctr_lat=0.,
                               event_grid_area_fraction_key='mesh_frac')
        self.n = (len(self.g.xedge)-1, len(self.g.yedge)-1)
        self.attrs = dict(platform_ID='G16', orbital_slot='GOES-East', instrument_ID='GLM-1')
        self.g.first_file_attrs = self.attrs
        self.grids = {p[0]: self.fill(rng, p[0], kind) for p in PRODUCTS if p[0] not in OVER}
        for p in OVER:
            self.grids[p] = self.totals(rng, p, kind)
        for (p, name, scale), out in zip(PRODUCTS, self.g.outgrids):
            out[:] = np.array(self.grids[p], dtype='f8').transpose(1, 2, 0)*(scale/PARTS)

    def fill(self, rng, p, kind):
        return [[[0 if rng.random() < self.empty else value(rng, kind) for j in range(self.n[1])]
                 for i in range(self.n[0])] for k in range(self.frames)]

    def totals(self, rng, p, kind):
        """Totals whose averages are within the range of the encoding."""
        over, times = OVER[p]

        def total(c):
            if rng.random() < .05 or (c == 0 and rng.random() < .8):
                return 0
            c = c or PARTS
            return max(1, min(2**20, value(rng, kind)*c*times//1024, (TOP*PARTS-2)*c*times//1024))
        return [[[total(c) for c in col] for col in frame] for frame in self.grids[over]]

    def times(self):
        """Edges of the frames, in seconds since 2000 modulo a long time."""
        t0 = int((self.start-EPOCH).total_seconds())
        return [t0+k*self.interval for k in range(self.frames+1)]

    def abstract(self):
        tenth = lambda e: [nearest(v, 1e-7) for v in e]
        return dict(grids=self.grids, frames=self.frames, nx=self.n[0], ny=self.n[1], times=self.times(),
                    xedges=tenth(self.g.xedge), yedges=tenth(self.g.yedge))

    def snapshot(self):
        return [np.array(o) for o in self.g.outgrids] + [np.array(self.g.xedge), np.array(self.g.yedge)]


def seconds(text):
    """Seconds since 2000 of an ISO time."""
    try:
        t = dt.datetime.fromisoformat(str(text).rstrip('Z'))
    except ValueError:
        return BAD
    s = (t-EPOCH).total_seconds()
    return int(s) if s == int(s) else BAD


def parts(v, scale):
    """A value in 1/64 of the scale, 0 where it is missing."""
    v = float(v)
    if v != v:
        return 0
    if v == 0:
        return -1       # a zero that is not marked as missing
    n = nearest(v, scale/PARTS)
    return 1 if n == 0 and v > 0 else n


def read(path):
    """What a file says, as xarray and as the integers in it."""
    import netCDF4
    import xarray as xr
    with xr.open_dataset(path) as d:
        d.load()
    out = dict(start=seconds(d.attrs['time_coverage_start']), end=seconds(d.attrs['time_coverage_end']),
               x=[nearest(v, 1e-7) for v in d.x.values], y=[nearest(v, 1e-7) for v in d.y.values], values={}, codes={})
    with netCDF4.Dataset(path) as nc:
        nc.set_auto_maskandscale(False)
        for p, name, scale in PRODUCTS:
            if d[name].dims != ('y', 'x'):
                raise ValueError('dimensions of %s' % name)
            out['values'][p] = [[parts(v, scale) for v in row] for row in d[name].values]
            raw = nc.variables[name]
            raw.set_auto_maskandscale(False)
            a = np.asarray(raw[:])
            if a.dtype.kind == 'i' and a.dtype.itemsize == 2 and getattr(raw, '_Unsigned', '') == 'true':
                a = a.astype('i4') % 65536
            out['codes'][p] = a.tolist() if a.dtype.kind in 'iu' else []
    return out
