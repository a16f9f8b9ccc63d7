"""L06: event location tables."""
import random
import numpy as np
import xarray as xr
from core import BAD, quant

U = 1e-8            # unit of positions, radians
E = 1/16.           # unit of energies and areas


def dataset(d, fids, gids):
    ev = d['event']
    col = lambda k, unit: np.array([e[k]*unit for e in ev], dtype='f8')
    fm, gm = fids, gids
    return xr.Dataset(
        dict(event_x=('number_of_events', col(2, U)), event_y=('number_of_events', col(3, U)),
             event_energy=('number_of_events', col(4, E).astype(d['etype'])),
             flash_area=('number_of_flashes', np.array([f[1]*E for f in d['flash']]).astype(d['etype'])),
             group_area=('number_of_groups', np.array([g[1]*E for g in d['group']]).astype(d['etype'])),
             event_parent_flash_id=('number_of_events', np.array([fm[e[1]] for e in ev], dtype='u8')),
             product_time=((), np.datetime64(d['time'], 'ns'))),
        coords=dict(event_id=('number_of_events', np.arange(len(ev))),
                    event_parent_group_id=('number_of_events', np.array([gm[e[0]] for e in ev], dtype='u8')),
                    flash_id=('number_of_flashes', np.array([fm[f[0]] for f in d['flash']], dtype='u8')),
                    group_id=('number_of_groups', np.array([gm[g[0]] for g in d['group']], dtype='u8')),
                    group_parent_flash_id=('number_of_groups', np.zeros(len(d['group']), dtype='u8'))))


def observe(out):
    lut = out.lutevent_id.data
    index = {int(i): k+1 for k, i in enumerate(lut)}
    if len(index) != len(lut):
        index = {}
    rows = []
    t0 = out.product_time.data
    g = {n: np.asarray(out['lutevent_' + n].data) for n in
         ('x', 'y', 'energy', 'count', 'flash_count', 'group_count', 'total_flash_area', 'total_group_area',
          'min_flash_area', 'time_offset')}
    for k in range(len(lut)):
        rows.append(dict(x=quant(g['x'][k], U, .51), y=quant(g['y'][k], U, .51), energy=quant(g['energy'][k], E),
                         count=quant(g['count'][k]), flashes=quant(g['flash_count'][k]), groups=quant(g['group_count'][k]),
                         flasharea=quant(g['total_flash_area'][k], E), grouparea=quant(g['total_group_area'][k], E),
                         minarea=quant(g['min_flash_area'][k], E),
                         time=quant((g['time_offset'][k]-t0)/np.timedelta64(1, 'us'))))
    return dict(of=[index.get(int(i), 0) for i in out.event_parent_lutevent_id.data], rows=rows)


def small(rng, gen, step):
    """One of TLC's event lists, placed somewhere in the field of view."""
    cx, cy = rng.randrange(2, 20000), rng.randrange(2, 20000)
    ev = [[g, f, -31000000 + (cx + x//2)*step + step//4 + (x % 2)*step//2,
           -31000000 + (cy + y//2)*step + step//4 + (y % 2)*step//2, e] for g, f, x, y, e in gen]
    return dict(event=ev, flash=[[1, 10], [2, 20]], group=[[1, 1], [2, 2], [3, 4]])


def large(rng, step, xmin, ymin, nx, ny):
    nf = rng.choice([1, 2, 4, 9])
    ng = nf + rng.randrange(8)
    ne = rng.choice([0, 1, 5, 20, 45])
    flash = [[i+1, rng.choice([1, 7, 7, 100, 5000, 99999])] for i in range(nf)]
    group = [[i+1, rng.choice([1, 3, 80, 80, 99999])] for i in range(ng)]
    gf = {g[0]: (g[0]-1) % nf + 1 for g in group}
    rng.shuffle(flash)
    rng.shuffle(group)
    # a few cells, some adjacent, some sharing a row or a column, some at the edge
    cells = [(rng.randrange(nx), rng.randrange(ny)) for i in range(rng.choice([1, 2, 3, 6]))]
    cells += [(c[0]+1, c[1]) for c in cells] + [(c[0], c[1]+1) for c in cells] + [(c[1] % nx, c[0] % ny) for c in cells]
    cells += [(0, 0), (nx-1, ny-1), (0, ny-1), (nx-1, 0)]
    cells = [(min(a, nx-1), min(b, ny-1)) for a, b in cells]
    cells = rng.sample(cells, rng.randrange(1, len(cells)+1))
    ev = []
    for i in range(ne):
        g = rng.choice(group)[0]
        cx, cy = rng.choice(cells)
        ev.append([g, gf[g], xmin + cx*step + rng.randrange(step//20, step-step//20),
                   ymin + cy*step + rng.randrange(step//20, step-step//20), rng.choice([1, 2, 5, 100, 65535])])
    return dict(event=ev, flash=flash, group=group)


def crowded(rng, step):
    """More events, groups and flashes at one location than a byte can count."""
    nf = rng.choice([1, 270])
    ng = 280
    ev = [[i % ng + 1, (i % ng) % nf + 1, 3*step + rng.randrange(step//20, step-step//20),
           7*step + rng.randrange(step//20, step-step//20), rng.choice([1, 2, 5])] for i in range(300)]
    ev += [[1, 1, 90*step + step//2, 7*step + step//2, 9]]
    rng.shuffle(ev)
    return dict(event=ev, flash=[[i+1, 7 + i % 90] for i in range(nf)], group=[[i+1, 3 + i % 50] for i in range(ng)])


def one(ctx, item):
    from glmtools.io.glm import get_lutevents
    seed, gen = item
    rng = random.Random(seed)
    kw = {}
    step, xmin, ymin = 2800, -31000000, -31000000
    if gen == 'crowded':
        step, xmin, ymin = 5600, 0, 0
        kw = dict(scale_factor=step*U, x_range=(0, 2000*step*U), y_range=(0, 1500*step*U))
        d = crowded(rng, step)
    elif gen is None:
        nx = ny = 22000
        if rng.random() < .4:
            step = rng.choice([2800, 5600, 22400, 1000])
            xmin, ymin = rng.choice([-31000000, -10000000, 0]), rng.choice([-31000000, -5000000, 2000000])
            nx, ny = rng.choice([3, 50, 2000]), rng.choice([2, 40, 3000])
            kw = dict(scale_factor=step*U, x_range=(xmin*U, (xmin+nx*step)*U), y_range=(ymin*U, (ymin+ny*step)*U))
        d = large(rng, step, xmin, ymin, nx, ny)
    else:
        d = small(rng, gen, step)
    d['etype'] = rng.choice(['f4', 'f8'])
    d['time'] = rng.choice(['2018-07-02T04:33:00', '2019-12-31T23:59:40', '2020-02-29T12:00:07.000125'])
    fids = {f[0]: i for f, i in zip(d['flash'], rng.sample(range(65536), len(d['flash'])))}
    gids = {g[0]: i for g, i in zip(d['group'], rng.sample(range(2**32), len(d['group'])))}
    ds = dataset(d, fids, gids)
    before = ds.copy(deep=True)
    ctx.begin()
    out, err = ctx.call(get_lutevents, ds, **kw)
    res = []
    if not err:
        res, err = ctx.call(observe, out)
    d.update(step=step, xmin=xmin, ymin=ymin)
    ctx.event('table', data=d, res=res or [], err=err, same=bool(before.identical(ds)))


def run(ctx):
    ctx.model_check('MCEventLut')
    rng = ctx.rng('cases')
    gens = ctx.generate('MCEventLut', 'GenEventLut', limit=ctx.scale(250, 800))
    items = [(rng.random(), g) for g in gens] + [(rng.random(), None) for i in range(ctx.scale(300, 4000))]
    items += [(rng.random(), 'crowded') for i in range(ctx.scale(4, 16))]
    ctx.parallel(one, items)
    ctx.validate('TraceEventLut')
