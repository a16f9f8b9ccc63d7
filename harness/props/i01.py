"""I01, I02: images written from accumulated grids."""
import os
import random
import netCDF4
import numpy as np
import xarray as xr
import imagery
from core import quant


def write(ctx, seed, kind='wide', **kw):
    from glmtools.io.imagery import write_goes_imagery
    rng = random.Random(seed)
    c = imagery.Grids(rng, kind=rng.choice([kind, kind, 'small', 'any']), **kw)
    g = c.g
    pad = [[0, 0], [0, 0]]
    if rng.random() < .5:
        for n, p in zip(c.n, pad):
            p[0] = rng.randrange(0, max(1, n-2))
            p[1] = rng.randrange(0, max(1, n-1-p[0]))
    cut = tuple(slice(p[0] or None, rng.choice([n-p[1], -p[1]]) if p[1] else None) for n, p in zip(c.n, pad))
    scaled = rng.random() < .8
    again = rng.random() < .4
    option = dict(pad=cut) if (pad != [[0, 0], [0, 0]] or rng.random() < .5) else {}
    if not scaled or rng.random() < .3:
        option['scale_and_offset'] = scaled
    name = rng.choice(['{dataset_name}', '{start_time:%Y/%b/%d}/{dataset_name}', 'GLM_{start_time:%Y%m%d_%H%M%S}.nc',
                       'x/{end_time:%Y%m%d%H%M%S}.nc'])
    by_method = rng.random() < .5

    def work(where):
        out = os.path.join(where, name)
        if by_method:
            files = g.write_grids(outpath=out, output_kwargs=option)
        else:
            files = write_goes_imagery(g, outpath=out, **option)
        found = [os.path.join(r, f) for r, _, fs in os.walk(where) for f in fs]
        if sorted(map(os.path.abspath, files)) != sorted(map(os.path.abspath, found)):
            raise ValueError('the list of files is not what was written')
        return [imagery.read(f) for f in files]
    before = c.snapshot()
    ctx.begin()
    res, err = ctx.call(work, os.path.dirname(ctx.path()))
    repeat = []
    if again and not err:
        repeat, err = ctx.call(work, os.path.dirname(ctx.path()))
    same = all(np.array_equal(a, b) for a, b in zip(before, c.snapshot()))
    ctx.event('write', scaled=scaled, pad=pad, after='same' if same else 'changed', again=again, repeat=repeat if again and not err else [],
              res=res if not err else [], err=err, **c.abstract())


def encode(ctx, seed):
    """One image with any scale, offset and kind of integer. Values are in 1/64 of the scale."""
    from glmtools.io.imagery import glm_image_to_var
    rng = random.Random(seed)
    kind = rng.choice(['uint16', 'uint16', 'int16', 'uint8', 'int32', 'none'])
    top = {'uint16': 65535, 'int16': 32767, 'uint8': 255, 'int32': 100000, 'none': 5000}[kind]
    scale = 2.**rng.choice([0, -4, -2, 3, -20])
    offset = rng.choice([0, 0, 1, 7, 40])
    n = rng.randrange(1, 5), rng.randrange(1, 5)
    pick = lambda: rng.choice([1, rng.randrange(1, 64*(offset+2)), 64*(offset+1), 64*(offset+rng.randrange(1, top)),
                               64*offset + rng.randrange(64, 64*min(top, 2000)), 64*(offset+top)])
    # nothing is told by the code 0, which an offset moves elsewhere
    v = [[0 if not offset and rng.random() < .2 else pick() for c in range(n[1])] for r in range(n[0])]
    given = [rng.choice(['flash_extent_density', 'something']), rng.choice(['long', 'a name']), rng.choice(['nJ', '1'])]
    path = ctx.path('one.nc')
    # a part of a unit is told as one unit, as both are less than the scale
    part = rng.choice([1, .5, 1e-3, 1e-9]) if kind != 'none' else 1

    def work():
        data = np.array([[part if x == 1 else x for x in r] for r in v], dtype='f8')*(scale/64)
        kw = {} if kind == 'none' else dict(dtype=kind)
        kw.update(scale_factor=scale)
        if offset or rng.random() < .5:
            kw.update(add_offset=offset*scale)
        var = glm_image_to_var(data, *given, ('y', 'x'), **kw)
        said = [var.name, var.attrs['long_name'], var.attrs['units']]
        var.to_dataset().to_netcdf(path)
        with xr.open_dataset(path) as d:
            got = d[given[0]].values
        with netCDF4.Dataset(path) as nc:
            stored = nc[given[0]]
            stored.set_auto_maskandscale(False)
            width, whole = stored.dtype.itemsize*8, stored.dtype.kind in 'iu'
        return dict(values=[[0 if np.isnan(x) else quant(x, scale/64) for x in r] for r in got], said=said,
                    bits=width if whole else 0)
    ctx.begin()
    res, err = ctx.call(work)
    ctx.event('encode', values=v, offset=offset, said=given, err=err, res=res if not err else {},
              bits={'uint16': 16, 'int16': 16, 'uint8': 8, 'int32': 32, 'none': 0}[kind])


def large(ctx, seed):
    write(ctx, seed, n=(random.Random(seed).choice([17, 33]), 20), frames=1)


def one(ctx, seed):
    write(ctx, seed)


def run(ctx):
    ctx.model_check('MCImagery')
    rng = ctx.rng('cases')
    ctx.parallel(one, [rng.random() for i in range(ctx.scale(150, 2000))])
    ctx.parallel(encode, [rng.random() for i in range(ctx.scale(250, 2500))])
    ctx.parallel(large, [rng.random() for i in range(ctx.scale(6, 40))])
    ctx.validate('TraceImagery')
