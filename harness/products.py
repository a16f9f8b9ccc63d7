"""Gridding runs: sets of files, and the images that come out."""
import datetime as dt
import os
import random
import shutil
import numpy as np
import gridcase
from core import BAD, nearest, quant

UNIT = 2.0**-22
STEP = dt.timedelta(milliseconds=2)


def inverse(x, y, nadir):
    from lmatools.grid.fixed import get_GOESR_coordsys
    geo, lla = get_GOESR_coordsys(nadir)
    lon, lat, alt = lla.fromECEF(*geo.toECEF(x, y, 0.))
    return float(lon), float(lat)


class Case(object):
    """Files with flashes around a grid, with the options of a run."""

    def __init__(self, rng, nfiles=None, cells=None, far=True, large=False):
        self.rng, self.large = rng, large
        self.dx = 2.0**-rng.choice([12, 12, 12, 13])
        self.dy = 2.0**-rng.choice([12, 12, 12, 13])
        self.cells = cells or (rng.choice([2, 3, 4]), rng.choice([1, 2, 5]))
        self.nadir = rng.choice([-75., -75., -137., -89.5])
        self.rev = rng.choice([-1, 0, 1])
        nx, ny = self.cells
        self.x0 = rng.randrange(-160, 160)*2.0**-12
        self.y0 = rng.randrange(-160, 160)*2.0**-12
        self.x_bnd = np.array([self.x0, self.x0+nx*self.dx])
        self.y_bnd = np.array([self.y0, self.y0+ny*self.dy])
        self.pad = [int(100*28e-6/d)*d for d in (self.dx, self.dy)]
        self.files = []
        self.dur = rng.choice([20, 20, 20, 10])
        self.start = dt.datetime(2018, 7, 2) + dt.timedelta(days=rng.randrange(900), seconds=60*rng.randrange(1440))
        n = rng.choice([1, 2, 3, 4]) if nfiles is None else nfiles
        if rng.random() < .3:                   # around midnight
            self.start = self.start.replace(hour=0, minute=0) - dt.timedelta(seconds=self.dur*rng.randrange(0, n+1))
        far = far and rng.random() < .5
        self.spots = self.lattice(rng.choice([2, 4, 8]) if not large else 25, far)
        for k in range(n):
            self.files.append(self.one_file(self.start+dt.timedelta(seconds=self.dur*k), far))

    def lattice(self, n, far):
        """Event positions, at least 100 microradians from each other."""
        rng, out, seen = self.rng, [], set()
        w = 150e-6
        span = [int((b[1]-b[0]+600e-6)/w)+1 for b in (self.x_bnd, self.y_bnd)]
        for i in range(n):
            at = (rng.randrange(span[0]), rng.randrange(span[1]))
            if far and rng.random() < .2:
                at = (at[0] + rng.choice([-18, 18, -25, 25, 0]), at[1] + rng.choice([-18, 0, 18, 25]))
            if at in seen:
                continue
            seen.add(at)
            out.append((self.x_bnd[0]-300e-6+(at[0]+rng.random()*.3)*w, self.y_bnd[0]-300e-6+(at[1]+rng.random()*.3)*w))
        return out

    def one_file(self, start, far):
        rng = self.rng
        d = gridcase.hierarchy(rng, nf=rng.choice([101, 150] if self.large else [1, 2, 4]), nloc=len(self.spots),
                               light=self.large)
        few = rng.random()
        if few < .1 and not self.large:         # nothing, or a single event
            d = dict(flash=[], group=[], event=[])
        elif few < .25 and not self.large:
            e = d['event'][0]
            d = dict(flash=[f for f in d['flash'] if f['id'] == e['flash']], group=[g for g in d['group'] if g['id'] == e['group']],
                     event=[e])
        top = self.dur*500
        edge = [0, top-1, top//2]
        for f in d['flash']:
            a = rng.choice(edge) if rng.random() < .3 else rng.randrange(top)
            f.update(first=a, last=min(65534, a+rng.randrange(900)))
            x, y = rng.choice(self.spots)
            x, y = x+rng.uniform(-2e-4, 2e-4), y+rng.uniform(-2e-4, 2e-4)
            f['lon'], f['lat'] = inverse(x, y, self.nadir)
        for g in d['group']:
            x, y = rng.choice(self.spots)
            g['lon'], g['lat'] = inverse(x+rng.uniform(-1e-4, 1e-4), y+rng.uniform(-1e-4, 1e-4), self.nadir)
            g['time'] = rng.choice(edge) if rng.random() < .3 else rng.randrange(top)
        f = gridcase.File(rng, dict(d, event=[]), start, seconds=self.dur)
        nc = f.nc
        nc.nadir, nc.lon_center = self.nadir, self.nadir
        raw = {k+1: (nc.encode_lat(inverse(x, y, self.nadir)[1]), nc.encode_lon(inverse(x, y, self.nadir)[0]))
               for k, (x, y) in enumerate(self.spots)}
        for e in d['event']:
            e['lat'], e['lon'] = raw[e['loc']]
            e['time'] = rng.randrange(top)
        f = gridcase.File(rng, d, start, seconds=self.dur)
        f.nc.nadir, f.nc.lon_center = self.nadir, self.nadir
        f.nc.platform, f.nc.slot = {-75.: ('G16', 'GOES-East'), -137.: ('G17', 'GOES-West')}.get(self.nadir, ('G17', 'GOES-Test'))
        f.start = start
        return f

    def write(self, ctx):
        self.dir = ctx.path('run')
        os.makedirs(self.dir)
        self.paths = [f.write(os.path.join(self.dir, f.nc.name())) for f in self.files]

    def remove(self):
        shutil.rmtree(self.dir)

    def options(self):
        rng = self.rng
        n = len(self.files)
        frame = self.dur*rng.choice([1, 1, 2, 3])
        first = self.start + dt.timedelta(seconds=self.dur*rng.choice([0, 0, 0, 1, -1]))
        if rng.random() < .25:
            first += dt.timedelta(seconds=rng.choice([5, -5, 1]))       # not where files begin
        last = first + dt.timedelta(seconds=rng.choice([1, n, n, n+1])*self.dur)
        self.frame, self.first, self.last = frame, first, last
        self.min_events = rng.choice([None, None, None, 1, 2, 3])
        self.min_groups = rng.choice([None, None, None, 1, 2])

    def kwargs(self, outpath, **more):
        from lmatools.grid.fixed import get_GOESR_coordsys
        kw = dict(proj_name='geos', pixel_coords=get_GOESR_coordsys(self.nadir)[0],
                  base_date=self.first.replace(hour=0, minute=0, second=0) - dt.timedelta(days=self.rng.choice([0, 0, 0, 1, 30])),
                  dx=self.dx, dy=self.dy, x_bnd=self.x_bnd, y_bnd=self.y_bnd, frame_interval=float(self.frame),
                  ctr_lat=0., ctr_lon=self.nadir, outpath=outpath, output_writer=None, output_filename_prefix='GLM',
                  output_kwargs={'scale_and_offset': False}, spatial_scale_factor=1., energy_grids=('total_energy',),
                  fixed_grid=True, nadir_lon=self.nadir, clip_events=True, ellipse_rev=self.rev)
        if self.min_events is not None:
            kw['min_points_per_flash'] = self.min_events
        if self.min_groups is not None:
            kw['min_groups_per_flash'] = self.min_groups
        kw.update(more)
        return kw

    def units(self, xy):
        return [nearest(float(xy[0])-self.x0, UNIT), nearest(float(xy[1])-self.y0, UNIT)]

    def abstract(self):
        """The content of the files, with positions as loaded, in units."""
        from glmtools.io.glm import GLMDataset
        from glmtools.io.ccd import load_pixel_corner_lookup, quads_from_corner_lookup
        import glmtools
        lut = load_pixel_corner_lookup(os.path.join(os.path.dirname(glmtools.__file__), 'io', 'G16_corner_lut_fixedgrid.pickle'))
        data = dict(loc=[[[0, 0], [1, 0], [0, 1]]]*len(self.spots), pos=[[0, 0]]*len(self.spots), event=[], flash=[], group=[], file=[])
        where = {}
        for n, f in enumerate(self.files):
            glm = GLMDataset(self.paths[n], ellipse_rev=self.rev)
            ds = glm.dataset
            data['file'].append(dict(time=self.steps(f.start)))
            ex = dict(zip(ds.event_id.data.tolist(), zip(ds.event_x.data, ds.event_y.data)))
            fx = dict(zip(ds.flash_id.data.tolist(), zip(ds.flash_x.data, ds.flash_y.data)))
            gx = dict(zip(ds.group_id.data.tolist(), zip(ds.group_x.data, ds.group_y.data)))
            g2 = lambda i: 1000*n+i
            for x in f.d['flash']:
                data['flash'].append(dict(id=g2(x['id']), file=n+1, start=self.steps(f.start)+x['first'], area=x['area'],
                                          at=self.units(fx[f.fid[x['id']]])))
            for x in f.d['group']:
                data['group'].append(dict(id=g2(x['id']), flash=g2(x['flash']), time=self.steps(f.start)+x['time'],
                                          area=x['area'], at=self.units(gx[f.gid[x['id']]])))
            for i, x in zip(f.eid, f.d['event']):
                where[x['loc']] = ex[i]
                data['event'].append(dict(flash=g2(x['flash']), group=g2(x['group']), loc=x['loc'], energy=x['energy']))
            ds.close()
        if where:
            loc = sorted(where)
            q = np.array(quads_from_corner_lookup(lut[0], lut[1], lut[2], np.array([where[k][0] for k in loc])*1e6,
                                                  np.array([where[k][1] for k in loc])*1e6))*1e-6
            for k, p in zip(loc, q):
                data['loc'][k-1] = [self.units(v) for v in p]
                data['pos'][k-1] = self.units(where[k])
        return data

    def steps(self, t):
        return int((t-self.first)/STEP)

    def run(self):
        """The run in units: mesh, box and frame edges."""
        n = int(np.ceil((self.last-self.first).total_seconds()/self.frame))
        ux, uy = int(self.dx/UNIT), int(self.dy/UNIT)
        nx, ny = self.cells
        px, py = (int(p/UNIT) for p in self.pad)
        return dict(edges=[k*self.frame*500 for k in range(n+1)],
                    mesh=[[[i*ux, j*uy] for j in range(ny+1)] for i in range(nx+1)],
                    box=[-px, nx*ux+px, -py, ny*uy+py], events=self.min_events or 0, groups=self.min_groups or 0)


PRODUCTS = (('flash_extent_density', 'flashes', 2.**-15), ('flash_centroid_density', 'fcd', 2.**-15),
            ('average_flash_area', 'flasharea', gridcase.AREA*2.**-5), ('total_energy', 'energy', 2.**-15),
            ('group_extent_density', 'groups', 2.**-15), ('group_centroid_density', 'gcd', 2.**-15),
            ('average_group_area', 'grouparea', gridcase.AREA*2.**-5), ('minimum_flash_area', 'minarea', gridcase.AREA))


def part(case, path, out):
    """Add the cells of an image to those of its frame."""
    import xarray as xr
    nx, ny = case.cells
    with xr.open_dataset(path) as d:
        d = d.load()
        t = tuple(case.steps(dt.datetime.strptime(d.attrs['time_coverage_'+k], '%Y-%m-%dT%H:%M:%SZ')) for k in ('start', 'end'))
        x = [int(np.floor((float(v)-case.x0)/case.dx)) for v in d.x.data]
        y = [int(np.floor((float(v)-case.y0)/case.dy)) for v in d.y.data]
        frame = out.setdefault(t, {})
        for i, a in enumerate(x):
            for j, b in enumerate(y):
                if (a, b) in frame or not (0 <= a < nx and 0 <= b < ny):
                    raise ValueError('cell %s in frame %s' % ((a, b), t))
                frame[a, b] = {}
        for name, short, unit in PRODUCTS:
            v = np.nan_to_num(d[name].data.astype('f8'), nan=0.)
            q = nearest if short != 'minarea' else quant
            for i, a in enumerate(x):
                for j, b in enumerate(y):
                    frame[a, b][short] = q(v[j, i], unit)


def joined(case, frames):
    nx, ny = case.cells
    return [dict(start=t[0], end=t[1], cells=[[frames[t][i, j] for j in range(ny)] for i in range(nx)])
            for t in sorted(frames)]


def clear_of_box(data, run):
    b = run['box']
    return all(min(abs(p[0]-b[0]), abs(p[0]-b[1]), abs(p[1]-b[2]), abs(p[1]-b[3])) > 2
               for p in [f['at'] for f in data['flash']] + data['pos'])
