"""C04: split tables, and events replicated to their pieces."""
import random
import numpy as np
import xarray as xr
import geometry
from core import BAD, nearest, quant

LEVELS = ('event', 'group', 'flash')


def area2(p):
    p = [[int(a), int(b)] for a, b in p]
    return abs(sum(a[0]*b[1]-a[1]*b[0] for a, b in zip(p, p[1:]+p[:1])))


def cell_area2(mesh, i, j):
    X, Y = mesh.X, mesh.Y
    if not (0 <= i < mesh.shape[0] and 0 <= j < mesh.shape[1]):
        return BAD
    return area2([[X[a, b], Y[a, b]] for a, b in ((i, j), (i, j+1), (i+1, j+1), (i+1, j))])


def ids_for(rng, n):
    return rng.choice([lambda: rng.sample(range(4*n), n), lambda: rng.sample(range(2**32), n),
                       lambda: rng.sample(range(2**48), n),
                       lambda: list(range(n)), lambda: rng.sample(range(60000, 65536), n)])()


def table(mesh, lev, ds, ids, polys, ctr):
    names = [ctr[0], ctr[1], 'split_%s_area_fraction' % lev,
             'split_%s_mesh_area_fraction' % lev, 'split_%s_mesh_x_idx' % lev, 'split_%s_mesh_y_idx' % lev,
             'split_%s_parent_%s_id' % (lev, lev)]
    cx, cy, fe, fm, i, j, pid = [ds[v].data for v in names]
    own = {e: k for k, e in enumerate(ids)}
    rows = []
    for k in range(ds.sizes['number_of_split_%s_children' % lev]):
        e = own.get(int(pid[k]), None)
        rows.append(dict(id=e+1 if e is not None else -1, i=int(i[k]), j=int(j[k]),
                         event2=nearest(fe[k]*area2(polys[e])) if e is not None else BAD,
                         mesh2=nearest(fm[k]*cell_area2(mesh, int(i[k]), int(j[k]))),
                         ctr=mesh.back([[cx[k], cy[k]]])[0]))
    return rows


def split(ctx, seed, large=False):
    from glmtools.grid import split_events as se
    from glmtools.grid.clipping import QuadMeshPolySlicer
    rng = random.Random(seed)
    mesh = geometry.Mesh(rng, **(geometry.wide(rng) if large else {}))
    polys = [geometry.polygon(rng, mesh) for i in range(rng.choice([50, 150]) if large else rng.choice([1, 2, 3, 5]))]
    ids = ids_for(rng, len(polys))
    if rng.random() < .3:
        # an event away from the mesh has no pieces
        x0, x1, y0, y1 = mesh.bounds()
        ids.append(max(ids)+1)
        polys.append([[x1+500, y1+500], [x1+800, y1+500], [x1+800, y1+700], [x1+500, y1+700]])
        k = rng.randrange(len(ids))
        ids[k], ids[-1], polys[k], polys[-1] = ids[-1], ids[k], polys[-1], polys[k]
    lev = rng.choice(LEVELS)
    given = np.array(ids, dtype=rng.choice(['u4', 'i8', 'u8'] if max(ids) < 2**32 else ['i8', 'u8'])) if rng.random() < .7 else list(ids)
    if rng.random() < .15:
        ids, given = list(range(len(polys))), None
    ctr, kw = ('split_%s_lon' % lev, 'split_%s_lat' % lev), {}
    if rng.random() < .6:
        ctr = rng.choice([('split_%s_x' % lev, 'split_%s_y' % lev), ('a', 'b')])
        kw = dict(centroid_names=ctr)

    def work():
        slicer = QuadMeshPolySlicer(mesh.subset())
        chopped, areas = slicer.slice([mesh.real(p) for p in polys], bbox=True)
        sub, props = se.split_event_data(chopped, areas, slicer, event_ids=given)
        f = getattr(se, 'split_%s_dataset_from_props' % lev)
        return len(sub), f(props, **kw)
    ctx.begin()
    out, err = ctx.call(work)
    res, pieces = [], 0
    if not err:
        pieces = out[0]
        res, err = ctx.call(table, mesh, lev, out[1], ids, polys, ctr)
    ctx.event('split', mesh=mesh.vertices(), level=lev, ids=list(range(1, len(ids)+1)), polys=polys, pieces=pieces,
              res=res if not err else [], err=err)


def replicate(ctx, seed, large=False):
    from glmtools.grid.split_events import replicate_and_weight_split_child_dataset
    from glmtools.io.traversal import OneToManyTraversal
    rng = random.Random(seed)
    denom = 64
    # a hierarchy, whose rows are in any order
    nf = rng.choice([30, 140]) if large else rng.choice([1, 2, 4])
    fl = ids_for(rng, nf)
    gr = ids_for(rng, nf + rng.randrange(0, 200 if large else 5))
    gp = fl + [rng.choice(fl) for g in gr[nf:]]
    ev = ids_for(rng, len(gr) + rng.randrange(0, 300 if large else 8))
    ep = gr + [rng.choice(gr) for e in ev[len(gr):]]
    def mixed(a, b):
        c = list(zip(a, b))
        rng.shuffle(c)
        return [x for x, y in c], [y for x, y in c]
    rng.shuffle(fl)
    gr, gp = mixed(gr, gp)
    ev, ep = mixed(ev, ep)
    flash_of = dict(zip(gr, gp))
    en = {'event': [rng.randrange(0, 9999) for e in ev], 'group': [rng.randrange(0, 9999) for e in gr],
          'flash': [rng.randrange(0, 9999) for e in fl]}
    other = {k: [rng.randrange(0, 9999) for e in v] for k, v in en.items()}
    v = lambda lev, a, dt='i8': ('number_of_%ss' % lev, np.array(a, dtype=dt))
    data = {}
    for lev in LEVELS:
        data[lev+'_energy'] = v(lev, en[lev], 'f8')
        data[lev+'_mark'] = v(lev, other[lev], rng.choice(['i4', 'f8']))
        data[lev+'_time_offset'] = v(lev, other[lev], 'f8')
    epf = [flash_of[g] for g in ep]
    coords = dict(event_id=v('event', ev), event_parent_group_id=v('event', ep), group_id=v('group', gr),
                  group_parent_flash_id=v('group', gp), flash_id=v('flash', fl),
                  event_parent_flash_id=v('event', epf))
    lev = rng.choice(LEVELS)
    usual = lev == 'event' and rng.random() < .4      # no names are given
    mark = '_time_offset' if usual else '_mark'
    names = [lev+'_energy', lev+mark] + {'event': ['event_parent_group_id', 'event_parent_flash_id'],
                                            'group': ['group_parent_flash_id'], 'flash': []}[lev]
    ids = {'event': ev, 'group': gr, 'flash': fl}[lev]
    upper = {'event': {g: k+1 for k, g in enumerate(gr)}, 'group': {f: k+1 for k, f in enumerate(fl)}, 'flash': {}}[lev]
    top = {f: k+1 for k, f in enumerate(fl)}
    values = [[other[lev][k]] + ({'event': lambda: [upper[ep[k]], top[epf[k]]], 'group': lambda: [upper[gp[k]]],
                                  'flash': lambda: []}[lev]()) for k in range(len(ids))]
    rows = []
    for k in range(len(ids)):
        how = rng.choice(['none', 'whole', 'split', 'split', 'part'])
        if how == 'whole':
            rows.append([k, denom])
        elif how != 'none':
            cuts = [0] + sorted(rng.sample(range(1, denom), rng.randrange(1, 6))) + [denom]
            parts = [[k, b-a] for a, b in zip(cuts, cuts[1:])]
            rows += parts[1:] if how == 'part' else parts
    if not rows:
        rows = [[0, denom]]
    if rng.random() < .5:
        rng.shuffle(rows)
    dim = 'number_of_split_%s_children' % lev
    pid = 'split_%s_parent_%s_id' % (lev, lev)
    frac = 'split_%s_area_fraction' % lev

    def work():
        glm = OneToManyTraversal(xr.Dataset(data, coords=coords), ('flash_id', 'group_id', 'event_id'),
                                 ('group_parent_flash_id', 'event_parent_group_id'))
        sp = xr.Dataset({frac: (dim, np.array([r[1]/denom for r in rows])),
                         pid: (dim, np.array([ids[r[0]] for r in rows], dtype='u8'))})
        kw = {} if usual else dict(parent_id=lev+'_id', split_child_parent_id=pid, names=names,
                                   weights={lev+'_energy': frac})
        out = replicate_and_weight_split_child_dataset(glm, sp, **kw)
        get = lambda n: out['split_'+n].data
        e, m = get(lev+'_energy'), get(lev+mark)
        par = [get(n) for n in names[2:]]
        back = [upper, top]
        if not len(e) == len(m) == len(rows):
            return []
        return [dict(values=[quant(m[r])] + [back[q].get(int(p[r]), BAD) for q, p in enumerate(par)],
                     weighted=quant(e[r]*denom)) for r in range(len(rows))]
    ctx.begin()
    res, err = ctx.call(work)
    ctx.event('replicate', level=lev, ids=list(range(1, len(ids)+1)), values=values, energy=en[lev], denom=denom,
              rows=[dict(id=r[0]+1, frac=r[1]) for r in rows], res=res if not err else [], err=err)


def large_split(ctx, seed):
    split(ctx, seed, large=True)


def large_replicate(ctx, seed):
    replicate(ctx, seed, large=True)


def run(ctx):
    ctx.model_check('MCMeshes')
    rng = ctx.rng('cases')
    ctx.parallel(split, [rng.random() for i in range(ctx.scale(250, 3000))])
    ctx.parallel(replicate, [rng.random() for i in range(ctx.scale(250, 3000))])
    ctx.parallel(large_split, [rng.random() for i in range(ctx.scale(4, 40))])
    ctx.parallel(large_replicate, [rng.random() for i in range(ctx.scale(8, 60))])
    ctx.validate('TraceMeshes')
