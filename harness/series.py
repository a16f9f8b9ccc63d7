"""Series of imagery files."""
import contextlib
import importlib.util
import numpy as np
import imagery
from core import BAD, nearest


def eager(paths, concat_dim=None, chunks=None, combine='by_coords', **kwargs):
    """open_mfdataset without dask: the files one after the other along a new
    dimension, in the order given."""
    import xarray as xr
    if combine != 'nested' or not isinstance(concat_dim, str):
        raise NotImplementedError('only a nested list of files along one dimension')
    opened = []
    for p in paths:
        with xr.open_dataset(p) as d:
            opened.append(d.load())
    return xr.concat(opened, dim=concat_dim, data_vars='all', combine_attrs='override')


@contextlib.contextmanager
def multifile():
    """xarray opens several files with dask only; where that is missing, files
    are read at once instead."""
    import xarray as xr
    if importlib.util.find_spec('dask') is not None:
        yield
        return
    was = xr.open_mfdataset
    xr.open_mfdataset = eager
    try:
        yield
    finally:
        xr.open_mfdataset = was


def stamp(t):
    """Seconds since 2000 of a numpy or pandas time."""
    s = (np.datetime64(t, 'us')-np.datetime64(imagery.EPOCH, 'us'))/np.timedelta64(1, 's')
    return int(s) if s == int(s) else BAD


def image(d, products=None):
    """Values of all cells by product, in 1/64 of the scales, 0 if missing."""
    out = {}
    for p, name, scale in imagery.PRODUCTS:
        if products is None or p in products:
            a = np.asarray(d[name].transpose('y', 'x'), dtype='f8').ravel()
            out[p] = [0 if v != v or v == 0 else nearest(v, scale/imagery.PARTS) for v in a]
    return out
