"""L08: decoding of unsigned integers read as signed ones. All 8 and 16 bit
integers are decoded, with several scale factors and offsets."""
import random
import netCDF4
import numpy as np
import xarray as xr
from core import BAD, nearests, quant

# unit, scale, offset of values in use: positions, areas, energies, plain
ENC16 = [(1e-5, 203, -6656000), (1e-4, 1516, 630957), (1e-18, 1526, 285), (1e-18, 1526, 0), (1e-3, 1000, 0),
         (1e-3, 2000, 0), (1e-4, 10, -7)]


def signed_array(stored, bits, scale, offset, dtype):
    raw = np.asarray(stored, dtype='u%d' % (bits//8)).view('i%d' % (bits//8))
    data = (raw.astype('f8')*scale + offset).astype(dtype)
    da = xr.DataArray(data, dims=('n',))
    da.encoding = dict(dtype=raw.dtype, scale_factor=scale, add_offset=offset)
    return da


def from_file(ctx, stored, scale, offset, marked):
    """The same integers read by xarray from a file, with and without the
    unsigned marking."""
    path = ctx.path('u.nc')
    with netCDF4.Dataset(path, 'w') as nc:
        nc.createDimension('n', len(stored))
        v = nc.createVariable('v', 'i2', ('n',))
        v.set_auto_maskandscale(False)
        v.scale_factor, v.add_offset = np.float32(scale), np.float32(offset)
        if marked:
            v.setncattr('_Unsigned', 'true')
        v[:] = np.asarray(stored, dtype='u2').view('i2')
    with xr.open_dataset(path) as ds:
        return ds['v'].load()


def decode16(ctx, item):
    from glmtools.io.glm import fix_unsigned
    kind, stored, (unit, scale, offset), bits = item
    s, o = scale*unit, offset*unit
    ctx.begin()
    if kind == 'file':
        data = from_file(ctx, stored, s, o, False)
    elif kind == 'marked':
        data = from_file(ctx, stored, s, o, True)
    else:
        data = signed_array(stored, bits, s, o, kind)
    out, err = ctx.call(fix_unsigned, data)
    res = [] if err else nearests(np.asarray(out), unit)
    if kind in ('file', 'marked'):
        # the scale factor is single precision; work in its own steps
        sf, of = float(np.float32(s)), float(np.float32(o))
        if not err:
            res = nearests((np.asarray(out, dtype='f8') - of)/sf, 1/1000.)
        scale, offset = 1000, 0
    ctx.event('decode', stored=stored, scale=scale, offset=offset, res=res, err=err)


def decode32(ctx, seed):
    from glmtools.io.glm import fix_unsigned
    rng = random.Random(seed)
    stored = [rng.choice([0, 1, 2**31-1, 2**31, 2**31+1, 2**32-1, 2**32-2, 65536, rng.randrange(2**32)]) for i in range(200)]
    s, o = rng.choice([(1.0, 0.0), (0.5, -100.0), (2.0, 7.0), (0.001, -5.0)])
    ctx.begin()
    out, err = ctx.call(fix_unsigned, signed_array(stored, 32, s, o, 'f8'))
    res = []
    if not err:
        for v in np.asarray(out):
            r = (v - o)/s
            n = int(round(r)) if np.isfinite(r) else -1
            res.append([n >> 16, n & 65535] if abs(r-n) < .01 and 0 <= n < 2**32 else [BAD, BAD])
    ctx.event('decode32', stored=[[n >> 16, n & 65535] for n in stored], res=res, err=err)


def locations(ctx, item):
    from glmtools.io.glm import fix_event_locations
    kind, lat, lon = item
    ctx.begin()
    if kind == 'netcdf':
        path = ctx.path('e.nc')
        with netCDF4.Dataset(path, 'w') as nc:
            nc.createDimension('n', len(lat))
            for name, raw, off in (('event_lat', lat, -66.56), ('event_lon', lon, -156.06)):
                v = nc.createVariable(name, 'i2', ('n',))
                v.set_auto_maskandscale(False)
                v.scale_factor, v.add_offset = np.float32(0.00203128), np.float32(off)
                v.setncattr('_Unsigned', 'true')
                v[:] = np.asarray(raw, dtype='u2').view('i2')
        nc = netCDF4.Dataset(path)
        nc.set_auto_mask(False)
        out, err = ctx.call(fix_event_locations, nc.variables['event_lat'], nc.variables['event_lon'])
        nc.close()
    else:
        view = (lambda r: np.asarray(r, dtype='u2').view('i2')) if kind != 'unsigned' else (lambda r: np.asarray(r))
        dtype = 'f4' if kind == 'f4' else 'f8'
        a = xr.DataArray((view(lat)*0.00203128 - 66.56).astype(dtype), dims=('n',))
        b = xr.DataArray((view(lon)*0.00203128 - 156.06).astype(dtype), dims=('n',))
        out, err = ctx.call(fix_event_locations, a, b, is_xarray=True)
    res = [] if err else dict(lat=nearests(out[0], 1e-6), lon=nearests(out[1], 1e-6))
    ctx.event('locations', stored=lat, storedlon=lon, res=res, err=err)


def run(ctx):
    ctx.model_check('MCUnsigned')
    rng = ctx.rng('cases')
    every = list(range(65536))
    parts = [every[i:i+4096] for i in range(0, 65536, 4096)]
    items = []
    for p in parts:
        for enc in ENC16 if ctx.thorough else rng.sample(ENC16, 2):
            items.append((rng.choice(['f4', 'f8']), p, enc, 16))
        items.append((rng.choice(['file', 'marked']), p, rng.choice(ENC16), 16))
    for enc in ENC16:
        items.append((rng.choice(['f4', 'f8']), [0, 1, 32767, 32768, 65535, 40000], enc, 16))
        items.append(('f8', list(range(256)), enc, 8))
    ctx.parallel(decode16, items)
    ctx.parallel(decode32, [rng.random() for i in range(ctx.scale(8, 100))])
    kinds = ['netcdf', 'f8', 'unsigned', 'f4']
    locs = []
    for i, p in enumerate(parts):
        q = list(p)
        rng.shuffle(q)
        other = parts[(i*7+3) % len(parts)]
        for kind in kinds if ctx.thorough else [kinds[i % 4], kinds[(i+1+i//4) % 4]]:
            locs.append((kind, q, other))
    ctx.parallel(locations, locs)
    ctx.validate('TraceUnsigned')
