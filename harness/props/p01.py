"""P01: plots of flashes."""
import random
import re
import numpy as np
from core import BAD, quant
from lcfa import LATLON_SCALE
from props import g05

STAMP = r'\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(?:\.\d+)?'


def one(ctx, seed, many=False):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from matplotlib.transforms import Affine2D
    from glmtools.io.glm import GLMDataset
    from glmtools.plot.locations import plot_flash
    rng = random.Random(seed)
    start = g05.some_start(rng)
    f = g05.one_file(rng, start, 20, many=many)
    path = f.write(ctx.path('flash.nc'))
    data = g05.abstract(f, start)
    lat, lon = float(f.nc.lat_offset), float(f.nc.lon_offset)
    fine = lambda v, off: quant((float(v)-off)/float(LATLON_SCALE), tol=.05)

    def shown(ax, proj):
        sets = []
        for c in ax.collections:
            to = c.get_offset_transform() + (proj or ax.transData).inverted()
            xy = to.transform(np.asarray(c.get_offsets()))
            e = c.get_array()
            low, high = (c.norm.vmin, c.norm.vmax) if e is not None else (0, 0)
            sets.append(dict(wide=[[quant(y, g05.LL), quant(x, g05.LL)] for x, y in xy],
                             fine=[[fine(y, lat), fine(x, lon)] for x, y in xy],
                             energy=[quant(v, tol=.05) for v in e] if e is not None else [],
                             scale=[type(c.norm).__name__ if e is not None else '', quant(low, 1e-9), quant(high, 1e-9)]))
        return sets

    def work(glm, which, given, moved):
        fig = plt.figure()
        try:
            mine = fig.add_subplot(111) if given else None
            before = set(map(id, fig.axes))
            kw = dict(ax=mine) if given else {}
            proj = None
            if moved and given:
                proj = kw['proj'] = Affine2D().translate(rng.randrange(1, 9), -rng.randrange(1, 9)) + mine.transData
            ax = plot_flash(glm, f.fid[which], **kw)
            title = ax.get_title()
            ident = re.search(r'#(\d+)', title)
            stamps = re.findall(STAMP, title)
            ticks = [quant((np.datetime64(s, 'ns')-np.datetime64(start, 'ns'))/np.timedelta64(2, 'ms')) for s in stamps]
            return dict(sets=shown(ax, proj), times=ticks, id=f.fback.get(int(ident.group(1)), BAD) if ident else BAD,
                        axes=int(ax is mine if given else id(ax) not in before))
        finally:
            plt.close('all')
    glm, err = ctx.call(GLMDataset, path)
    biggest = max((r['id'] for r in f.d['flash']), key=lambda i: sum(g['flash'] == i for g in f.d['group']))
    for which in [biggest] if many else rng.sample([r['id'] for r in f.d['flash']], min(2, len(f.d['flash']))):
        ctx.begin()
        res, e = ctx.call(work, glm, which, rng.random() < .6, rng.random() < .5) if not err else ({}, err)
        ctx.event('flash', data=data, id=which, res=res if not e else {}, err=e)
    if not err:
        glm.dataset.close()


def large(ctx, seed):
    one(ctx, seed, many=True)


def run(ctx):
    ctx.model_check('MCPlots')
    rng = ctx.rng('cases')
    ctx.parallel(one, [rng.random() for i in range(ctx.scale(120, 1500))])
    ctx.parallel(large, [rng.random() for i in range(ctx.scale(4, 40))])
    ctx.validate('TracePlots')
