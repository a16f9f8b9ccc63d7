"""A01: conversion of text listings, to tables, to a dataset and to a file."""
import random
import xarray as xr
from core import BAD, quants

BASE = 543398000.       # times are recorded in ms from here
UNITS = dict(time=1e-3, ll=1e-5, energy=1e-18, area=.1, n=1.0)
COLS = {
    'flash': [('flash_id', 'n'), ('flash_time_offset_of_first_event', 'time'), ('flash_time_offset_of_last_event', 'time'),
              ('flash_lat', 'll'), ('flash_lon', 'll'), ('flash_energy', 'energy'), ('flash_area', 'area'),
              ('flash_child_group_count', 'n')],
    'group': [('group_id', 'n'), ('group_parent_flash_id', 'n'), ('group_time_offset', 'time'), ('group_lat', 'll'),
              ('group_lon', 'll'), ('group_energy', 'energy'), ('group_area', 'area'), ('group_child_event_count', 'n')],
    'event': [('event_id', 'n'), ('event_parent_group_id', 'n'), ('event_time_offset', 'time'), ('x_pixel', 'n'),
              ('y_pixel', 'n'), ('event_lat', 'll'), ('event_lon', 'll'), ('event_energy', 'energy')],
}


def num(v, digits):
    """v in units of the last digit, as a decimal"""
    s = '%0*d' % (digits+1, abs(v))
    return ('-' if v < 0 else '') + s[:-digits] + '.' + s[-digits:]


def place(v):
    """v in 1e-5 degrees, mostly written to three digits"""
    return num(v, 5) if v % 100 else num(v//100 if v >= 0 else -(-v//100), 3)


def sci(v):
    """v in 1e-18, with four figures"""
    return '%.3e' % (v*1e-18)


def clock(ms):
    return num(int(BASE)*1000 + ms, 3)


def values(rng, kind):
    t = rng.randrange(0, 900000)
    fine = rng.choice([100, 100, 100, 1])
    lat, lon = rng.choice([0, -1, 999, rng.randrange(-66000, 66000)]), rng.choice([0, rng.randrange(-180000, 180000), -rng.randrange(8000, 142000), -rng.randrange(8000, 142000)])
    lat, lon = ((v*100 + rng.randrange(100))//fine*fine for v in (lat, lon))
    # numbers with at most four figures, as they are written
    energy = rng.randrange(1000, 10000)*10**rng.choice([0, 1, 2, 3])
    if kind == 'flash':
        return [t, t+rng.randrange(0, 3000), lat, lon, energy, rng.randrange(1, 200000), rng.randrange(0, 100)]
    if kind == 'group':
        return [t, lat, lon, energy, rng.randrange(1, 100000), rng.randrange(0, 100)]
    return [t, rng.randrange(1372), rng.randrange(1300), lat, lon, energy]


def write(rng, lines):
    out, child = [], {}
    for r in lines:
        v = r['values']
        n = child.setdefault((r['kind'], r['parent']), 0)
        child[(r['kind'], r['parent'])] = n+1
        if r['kind'] == 'flash':
            out.append('D Flash #%d Start Time:%s End Time:%s Centroid Lat:%s Centroid Lon:%s Energy:%s Footprint:%s '
                       'Child_Count:%d' % (r['id'], clock(v[0]), clock(v[1]), place(v[2]), place(v[3]), sci(v[4]),
                                           num(v[5], 1), v[6]))
        elif r['kind'] == 'group':
            # the end time of a group is not kept
            end = v[0] + rng.choice([0, 2, 500])
            out.append('\tD Group #%d Child #%d Start Time:%s End Time:%s Centroid Lat:%s Centroid Lon:%s Energy:%s '
                       'Footprint:%s Parent_ID:%d Child_Count:%d' % (r['id'], n, clock(v[0]), clock(end), place(v[1]),
                                                                     place(v[2]), sci(v[3]), num(v[4], 1), r['parent'],
                                                                     v[5]))
        elif r['kind'] == 'event':
            out.append('\t\tEvent #%d Child #%d Time:%s X_Pixel:%d Y_Pixel:%d Lat:%s Lon:%s Energy:%s Parent_ID:%d' % (
                r['id'], n, clock(v[0]), v[1], v[2], place(v[3]), place(v[4]), sci(v[5]), r['parent']))
        else:
            out.append(rng.choice(['', 'LCFA listing', '# end']))
    return '\n'.join(out) + '\n'


def table(kind, get):
    cols = []
    for name, unit in COLS[kind]:
        v = get(name)
        cols.append(quants([float(x) - (BASE if unit == 'time' else 0) for x in v], UNITS[unit], tol=.02))
        if kind == 'flash' and name == 'flash_id':
            cols.append([0]*len(v))
    return [list(r) for r in zip(*cols)]


def tables(get):
    return {k: table(k, get) for k in COLS}


def listing(rng, small=None, many=False):
    if small is not None:
        for r in small:
            r['values'] = values(rng, r['kind']) if r['kind'] != 'other' else []
        return small
    lines = []
    nf = rng.choice([40, 140]) if many else rng.choice([1, 2, 4, 8])
    top = rng.choice([1000, 60000, 300000, 120000000] + ([] if many else [50]))
    most = [1, 2, 5, 0] if nf > 100 else [0, 1, 1, 2, 5]
    fids = rng.sample(range(top), nf)
    gids = iter(rng.sample(range(top*4), nf*6))
    eids = iter(rng.sample(range(top*8), nf*6*6))
    last = {}

    def add(kind, i, p):
        # records may be alike in everything but their id
        if kind not in last or rng.random() > .12:
            last[kind] = values(rng, kind)
        lines.append(dict(kind=kind, id=i, parent=p, values=last[kind]))
    allg = []
    for f in fids:
        add('flash', f, 0)
        for j in range(rng.choice(most)):
            g = next(gids)
            add('group', g, rng.choice(fids) if rng.random() < .1 else f)
            allg.append(g)
            for k in range(rng.choice(most[-3:] if many else most)):
                add('event', next(eids), rng.choice(allg) if rng.random() < .1 else g)
    if rng.random() < .2:
        # a listing may name a record again
        lines += [dict(r, values=values(rng, r['kind'])) for r in rng.sample(lines, min(len(lines), 3))]
    if rng.random() < .3:
        lines.insert(rng.randrange(len(lines)+1), dict(kind='other', id=0, parent=0, values=[]))
    return lines


def one(ctx, item, many=False):
    from glmtools.io import convert_lcfa
    from glmtools.io.traversal import OneToManyTraversal
    seed, small = item
    rng = random.Random(seed)
    lines = listing(rng, small, many)
    path = ctx.path('listing.txt')
    with open(path, 'w') as f:
        f.write(write(rng, lines))
    ctx.begin()

    def convert():
        fl, gr, ev = convert_lcfa.parse_LCFA_ASCII(path)
        first = tables(lambda name: {'f': fl, 'g': gr}.get(name[0], ev)[name].values)
        return first, convert_lcfa.merge_dataframes_to_xarray(fl, gr, ev)

    out, err = ctx.call(convert)
    ctx.event('convert', lines=lines, res={} if err else out[0], err=err)
    if err:
        return
    ds = out[1]
    got, err = ctx.call(lambda: tables(lambda name: ds[name].values))
    ctx.event('convert', lines=lines, res={} if err else got, err=err)
    kinds = {r['kind'] for r in lines}
    ids = {k: [r['id'] for r in lines if r['kind'] == k] for k in COLS}
    unique = all(len(set(v)) == len(v) for v in ids.values())
    known = all(r['parent'] in ids[{'group': 'flash', 'event': 'group'}[r['kind']]]
                for r in lines if r['kind'] in ('group', 'event'))
    if unique and 'flash' in kinds and 'group' in kinds and 'event' in kinds:
        fids = [r['id'] for r in lines if r['kind'] == 'flash']
        ids = rng.sample(fids, rng.randrange(1, len(fids)+1))

        def select():
            trav = OneToManyTraversal(ds, ('flash_id', 'group_id', 'event_id'),
                                      ('group_parent_flash_id', 'event_parent_group_id'))
            sub = trav.reduce_to_entities('flash_id', ids)
            return tables(lambda name: sub[name].values)
        got, err = ctx.call(select)
        ctx.event('select', lines=lines, ids=ids, res={} if err else got, err=err)
        if known:
            def ancestors():
                trav = OneToManyTraversal(ds, ('flash_id', 'group_id', 'event_id'),
                                          ('group_parent_flash_id', 'event_parent_group_id'))
                return quants(trav.replicate_parent_ids('flash_id', 'event_parent_group_id')), \
                    [quants(c) for c in trav.count_children('flash_id', 'event_id')]
            got, err = ctx.call(ancestors)
            ctx.event('ancestors', lines=lines, res={} if err else dict(flash=got[0], counts=got[1]), err=err)
    if small is None or rng.random() < .1:
        target = ctx.path('out.nc')

        def to_file():
            convert_lcfa.main(path, target)
            with xr.open_dataset(target) as d:
                return tables(lambda name: d[name].values)
        got, err = ctx.call(to_file)
        ctx.event('convert', lines=lines, res={} if err else got, err=err)


def large(ctx, item):
    one(ctx, item, many=True)


def run(ctx):
    ctx.model_check('MCListing')
    rng = ctx.rng('cases')
    small = ctx.generate('MCListing', 'GenListing', limit=ctx.scale(250, 4000))
    items = [(rng.random(), s) for s in small] + [(rng.random(), None) for i in range(ctx.scale(250, 3000))]
    ctx.parallel(one, items)
    ctx.parallel(large, [(rng.random(), None) for i in range(ctx.scale(6, 40))])
    ctx.validate('TraceListing')
