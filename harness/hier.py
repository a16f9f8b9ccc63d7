"""Parent/child datasets for the traversal checks: from abstract tables to
xarray and back."""
import numpy as np
import xarray as xr
from core import BAD, quant

DTYPES = ('u2', 'i4', 'u4', 'i8', 'u8')
RANGES = {'u2': 2**16, 'i4': 2**31, 'u4': 2**32, 'i8': 2**40, 'u8': 2**48}


class Tree(object):
    """tables: per level a list of [id, parent, value, value2] with small
    abstract ids; the concrete ids are drawn per level."""

    def __init__(self, tables, rng, plain=False):
        self.n = len(tables)
        self.rng = rng
        self.maps, self.back, self.dtypes = [], [], []
        for k in range(self.n):
            ids = {r[0] for r in tables[k]}
            if k+1 < self.n:
                ids |= {r[1] for r in tables[k+1]}
            ids |= set(range(1, 8))
            ids = sorted(ids)
            dt = rng.choice(DTYPES)
            style = 'same' if plain else rng.choice(['same', 'zero', 'zero', 'sparse', 'offset', 'reversed', 'top'])
            if style == 'same':
                conc = ids
            elif style == 'zero':
                # zero is an id like any other
                off = rng.randrange(1, 1000)
                conc = [off + i for i in ids]
                conc[rng.randrange(len(conc))] = 0
            elif style == 'offset':
                off = rng.randrange(0, 59000)
                conc = [i + off for i in ids]
            elif style == 'reversed':
                conc = [max(1000, ids[-1]) - i for i in ids]
            elif style == 'top':
                conc = [RANGES[dt] - 1 - i for i in ids]
            else:
                conc = rng.sample(range(RANGES[dt]) if RANGES[dt] < 2**20 else range(0, RANGES[dt], 977), len(ids))
            self.maps.append(dict(zip(ids, conc)))
            self.back.append(dict(zip(conc, ids)))
            self.dtypes.append(dt)
        self.entity = ['lev%d_id' % k for k in range(self.n)]
        self.parent = ['lev%d_parent_lev%d_id' % (k, k-1) for k in range(1, self.n)]
        self.tables = tables

    def dataset(self):
        coords, data = {}, {}
        for k, t in enumerate(self.tables):
            dim = 'number_of_lev%d' % k
            coords[self.entity[k]] = (dim, np.array([self.maps[k][r[0]] for r in t], dtype=self.dtypes[k]))
            if k:
                coords[self.parent[k-1]] = (dim, np.array([self.maps[k-1][r[1]] for r in t],
                                                          dtype=self.dtypes[k-1]))
            data['lev%d_value' % k] = (dim, np.array([r[2] for r in t], dtype='f8'))
            data['lev%d_other' % k] = (dim, np.array([r[3] for r in t], dtype='i4'))
        return xr.Dataset(data, coords=coords)

    def idof(self, k, conc):
        return self.back[k].get(int(conc), BAD)

    def tables_of(self, ds):
        out = []
        for k in range(self.n):
            ids = ds[self.entity[k]].data
            par = ds[self.parent[k-1]].data if k else None
            v, w = ds['lev%d_value' % k].data, ds['lev%d_other' % k].data
            if not (ids.ndim == 1 and len(v) == len(w) == len(ids)) or (k and len(par) != len(ids)):
                return []
            out.append([[self.idof(k, ids[i]), self.idof(k-1, par[i]) if k else 0,
                         quant(v[i]), quant(w[i])] for i in range(len(ids))])
        return out

    def concrete(self, k, ids):
        return [self.maps[k][i] for i in ids]


def random_tables(rng, levels=None, size=8, closed=False, childful=False):
    n = levels or rng.choice([2, 3, 3, 3, 4, 4, 5])
    tables = []
    val = 0
    for k in range(n):
        m = rng.choice([0, 1, 2, 3, size//2, size, size, size + rng.randrange(size+1)] if size < 50 else
                       [size//10, size, size, size + rng.randrange(size+1)])
        if childful:
            m = max(m, 1) if k == 0 else max(m, len(tables[-1]))
        ids = rng.sample(range(1, 3*size), m)
        if rng.random() < .3:
            ids.sort()
        rows = []
        up = [r[0] for r in tables[-1]] if k else [0]
        if closed and not up:
            ids = []
        hub = rng.choice(up) if up else 0
        for j, i in enumerate(ids):
            val += 1
            if k == 0:
                par = 0
            elif childful and j < len(up):
                par = up[j]
            elif not closed and (not up or rng.random() < .12):
                par = rng.randrange(1, 3*size)
            else:
                par = hub if rng.random() < (.3 if size < 50 else .6) else rng.choice(up)
            rows.append([i, par, val, 1000 + (val*37) % 101])
        rng.shuffle(rows)
        tables.append(rows)
    return tables


def large_tables(rng, closed=False):
    """More children of one record, and more records, than fit a byte."""
    return random_tables(rng, levels=rng.choice([2, 3, 3]), size=rng.choice([100, 300, 450]), closed=closed, childful=rng.random() < .3)


def small_tables(gen):
    """Datasets emitted by TLC carry one value per row."""
    return [[[r[0], r[1] if k else 0, r[2], 100+r[2]] for r in t] for k, t in enumerate(gen)]


def request(rng, tree, k):
    pool = [r[0] for r in tree.tables[k]]
    absent = [i for i in tree.maps[k] if i not in pool]
    kind = rng.choice(['some', 'some', 'one', 'all', 'none', 'repeat', 'absent', 'mixed'])
    if kind == 'none' or not (pool or absent):
        ids = []
    elif kind == 'absent':
        ids = rng.sample(absent, min(2, len(absent)))
    elif kind == 'one' and pool:
        ids = [rng.choice(pool)]
    elif kind == 'all':
        ids = list(pool)
        rng.shuffle(ids)
    else:
        ids = rng.sample(pool, rng.randrange(len(pool)+1))
        if kind == 'repeat' and ids:
            ids += [rng.choice(ids) for i in range(rng.randrange(1, 4))]
            rng.shuffle(ids)
        if kind == 'mixed':
            ids += rng.sample(absent, min(2, len(absent)))
            rng.shuffle(ids)
    return ids


def as_request(rng, conc, dtype):
    """The same ids in the forms callers pass them."""
    kind = rng.choice(['list', 'array', 'array', 'dataarray', 'tuple', 'i8'])
    if kind == 'list':
        return conc
    if kind == 'tuple':
        return tuple(conc)
    if kind == 'dataarray':
        return xr.DataArray(np.array(conc, dtype=dtype), dims=('x',))
    return np.array(conc, dtype='i8' if kind == 'i8' else dtype)


def traversal(tree, ds):
    from glmtools.io.traversal import OneToManyTraversal
    return OneToManyTraversal(ds, tuple(tree.entity), tuple(tree.parent))


def open_session(ctx, tree):
    ds = tree.dataset()
    ctx.begin()
    trav, err = ctx.call(traversal, tree, ds)
    ctx.event('open', tables=tree.tables, err=err)
    return ds, trav


def select(ctx, tree, sets, src, k, ids, rng):
    """sets: [(dataset, traversal)]; records one selection."""
    ds, trav = sets[src]
    arg = as_request(rng, tree.concrete(k, ids), tree.dtypes[k])
    out, err = ctx.call(lambda: trav.reduce_to_entities(tree.entity[k], arg))
    res = []
    if not err:
        res, err = ctx.call(tree.tables_of, out)
    ctx.event('select', **{'from': src+1, 'level': k+1, 'ids': ids, 'res': res or [],
                           'after': tree.tables_of(ds), 'err': err})
    if not err:
        new, err = ctx.call(traversal, tree, out)
        sets.append((out, new))
    return not err
