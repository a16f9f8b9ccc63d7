"""P02: plots of grids."""
import datetime as dt
import random
import re
import numpy as np
from core import BAD, quant

UNIT = dict(total_energy=1e-6)
NAMES = ['flash_extent_density', 'flash_centroid_density', 'group_extent_density', 'group_centroid_density',
         'total_energy', 'average_flash_area', 'average_group_area', 'minimum_flash_area']


def offline():
    """Maps are fetched when drawn; draw none."""
    from cartopy.mpl.geoaxes import GeoAxes
    GeoAxes.coastlines = lambda self, *args, **kwargs: None
    GeoAxes.add_feature = lambda self, *args, **kwargs: None


def one(ctx, seed):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    import pandas as pd
    import xarray as xr
    offline()
    from glmtools.plot.grid import plot_glm_grid
    rng = random.Random(seed)
    ny, nx, nt = rng.randrange(2, 6), rng.randrange(2, 6), rng.choice([1, 2, 3])
    first = dt.datetime(2018, 1, 1) + dt.timedelta(minutes=rng.randrange(1500000))
    times = [first + dt.timedelta(minutes=k) for k in range(nt)]
    names = rng.sample(NAMES, rng.choice([1, 2, 3, 4, 4, 8]))
    some = lambda: rng.choice([-1, 0, rng.randrange(1, 10), rng.randrange(1, 100)])
    empty = lambda: rng.random() < .1
    cube = []
    for n in names:
        frames = []
        for t in times:
            none = empty()
            frames.append([[-1 if none else some() for c in range(nx)] for r in range(ny)])
        cube.append(frames)
    d = rng.choice([56e-6, 112e-6, 2e-3])
    x = (rng.randrange(-40, 40) + np.arange(nx))*d
    y = (rng.randrange(-40, 40) + np.arange(ny)[::-1])*d
    proj = [rng.choice([-750, -752, -1370, 1402]), rng.choice([35786023, 35780000]), 6378137, 6356752]
    ds = xr.Dataset({n: (('time', 'y', 'x'), np.where(np.array(v) < 0, np.nan, np.array(v)*UNIT.get(n, 1.)))
                     for n, v in zip(names, cube)}, coords=dict(x=x, y=y, time=pd.DatetimeIndex(times)))
    ds['goes_imager_projection'] = xr.DataArray(0, attrs=dict(
        longitude_of_projection_origin=proj[0]/10., perspective_point_height=float(proj[1]),
        semi_major_axis=float(proj[2]), semi_minor_axis=float(proj[3])+.25))
    fig = plt.figure()
    height = float(proj[1])

    def sample(img, unit):
        a, (x0, x1, y0, y1) = np.ma.filled(img.get_array(), np.nan), img.get_extent()
        rows, cols = a.shape
        out = []
        for v in y*height:
            line = []
            for u in x*height:
                c, r = (u-x0)/(x1-x0)*cols, (y1-v)/(y1-y0)*rows
                if img.origin != 'upper':
                    r = rows - r
                inside = -1e-6 < c < cols+1e-6 and -1e-6 < r < rows+1e-6
                v2 = a[min(max(int(r), 0), rows-1), min(max(int(c), 0), cols-1)] if inside else np.nan
                line.append(quant(v2, unit) if v2 == v2 else BAD)
            out.append(line)
        return out

    def panel(ax):
        text = ' '.join(t.get_text() for t in ax.texts if len(t.get_text()) > 1)
        field = [n for n in NAMES if n.replace('_', ' ').lower() in text.lower()]
        field = field[0] if len(field) == 1 else ''
        unit = [k for k in ('count', 'nJ', 'km') if '(%s' % k in text]
        top = re.search(r'max\s*([-+.0-9e]+)', text)
        when = re.findall(r'\d{4}-\d\d-\d\d \d\d:\d\d:\d\d', text)
        at = [k+1 for k, t in enumerate(times) if when and t.isoformat(' ') == when[0]]
        xl, yl = ax.get_xlim(), ax.get_ylim()
        near = d*height/1000
        p = ax.projection.proj4_params
        norm, fine = ax.images[0].norm, 1e-9 if field == 'total_energy' else 1.
        rows, cols, place, _ = ax.get_subplotspec().get_geometry()
        letter = [t.get_text() for t in ax.texts if len(t.get_text()) == 1]
        return dict(field=field, unit=unit[0] if unit else '', top=quant(float(top.group(1)), UNIT.get(field, 1.)) if top else BAD,
                    time=at[0] if at else BAD, letter=letter[0] if letter else '', shown=sample(ax.images[0], UNIT.get(field, 1.)),
                    covers=int(xl[0] <= x.min()*height+near and x.max()*height-near <= xl[1]
                               and yl[0] <= y.min()*height+near and y.max()*height-near <= yl[1]),
                    scale=[type(norm).__name__, quant(norm.vmin, fine), quant(norm.vmax, fine)], place=[rows, cols, place+1],
                    proj=[quant(p['lon_0'], .1), quant(p['h']), quant(p['a']), quant(p['b']-.25)])
    for k in range(rng.choice([1, 2])):
        fields = [rng.choice(names) for j in range(rng.randrange(1, len(names)+1))]
        if rng.random() < .1:
            fields = [rng.choice(names) for j in range(rng.choice([7, 12]))]
        t = rng.randrange(nt)
        n = len(fields)
        shape = rng.choice([(2, 3) if n <= 6 else (3, 4), (1, n), (n, 1), (2, (n+1)//2), ((n+1)//2, 2)])

        def work():
            when = rng.choice([times[t], pd.Timestamp(times[t])])
            kw = {} if shape == (2, 3) else dict(subplots=shape)
            axes, bars = plot_glm_grid(fig, ds, when, fields, **kw)
            index = {id(ax.images[0]): j+1 for j, ax in enumerate(axes)}
            left = sum(int(np.isnan(ds[m].data).sum()) for m in names)
            if [ax for ax in fig.axes if ax.images and ax not in axes]:
                raise ValueError('other images are shown')
            out = dict(panels=[panel(ax) for ax in axes], missing=left,
                       bars=[index.get(id(b.mappable), BAD) for b in bars])
            # a closer look at one panel
            a, b = rng.choice(axes), (x.min()+d/4)*height
            a.set_xlim(b, b+d*height)
            a.set_ylim(b, b+d*height)
            out['moved'] = [int(quant((v-w)/d/height) == 0) for o in axes
                            for v, w in zip(o.get_xlim() + o.get_ylim(), a.get_xlim() + a.get_ylim())]
            return out
        ctx.begin()
        res, err = ctx.call(work)
        ctx.event('grid', names=names, cube=cube, fields=fields, time=t+1, proj=proj, shape=list(shape), res=res if not err else {}, err=err)
    plt.close('all')


def run(ctx):
    ctx.model_check('MCPlots')
    rng = ctx.rng('cases')
    ctx.parallel(one, [rng.random() for i in range(ctx.scale(100, 1200))])
    ctx.validate('TracePlots')
