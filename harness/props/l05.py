"""L05: flash filters on loaded files."""
import random
import numpy as np
import loader
from core import BAD, quant
from lcfa import Lcfa

NRAD = 1e-9
DEG = 1/16.


def view(case, ds):
    fb, gb, eb = ({c: i for i, c in m.items()} for m in (case.fid, case.gid, case.eid))
    n = lambda x: quant(x, NRAD, .51)
    d = {k: ds[k].data for k in ('flash_id', 'flash_lon', 'flash_lat', 'flash_x', 'flash_y', 'group_id',
                                 'group_parent_flash_id', 'event_id', 'event_parent_group_id', 'event_x', 'event_y')}
    return dict(
        flash=[[fb.get(int(i), BAD), quant(lo, DEG/16), quant(la, DEG/16), n(x), n(y)] for i, lo, la, x, y in
               zip(d['flash_id'], d['flash_lon'], d['flash_lat'], d['flash_x'], d['flash_y'])],
        group=[[gb.get(int(i), BAD), fb.get(int(p), BAD)] for i, p in zip(d['group_id'], d['group_parent_flash_id'])],
        event=[[eb.get(int(i), BAD), gb.get(int(p), BAD), n(x), n(y)] for i, p, x, y in
               zip(d['event_id'], d['event_parent_group_id'], d['event_x'], d['event_y'])])


def spread(rng, f):
    """Positions over the whole field of view and beyond, in clusters."""
    wide = rng.choice([4, 40, 400, 1060])
    cx, cy = rng.randrange(-500, 500), rng.randrange(-500, 500)
    place = {}
    for x in f['flash']:
        x['lat'] = max(-1060, min(1060, cy + rng.randrange(-wide, wide+1)))
        x['lon'] = -1200 + max(-1060, min(1060, cx + rng.randrange(-wide, wide+1)))
        place[x['id']] = (x['lat'], x['lon'])
    gp = {g['id']: g['parent'] for g in f['group']}
    far = rng.random() < .5
    for e in f['event']:
        la, lo = place.get(gp.get(e['parent']), (0, -1200))
        step = rng.choice([2, 30, 30000]) if far else 30
        e['lat'] = max(0, min(65535, int(32767 + la/16./0.00203128) + rng.randrange(-step, step+1)))
        e['lon'] = max(0, min(65535, int(32767 + (lo+1200)/16./0.00203128) + rng.randrange(-step, step+1)))


def pick_range(rng, values, gap, lo, hi):
    """A range with limits at, near and between the values present."""
    def limit():
        k = rng.random()
        if k < .45 and len(values):
            return float(rng.choice(list(values)))
        if k < .6:
            return float(rng.choice([lo, hi, 0.0]))
        v = rng.uniform(lo, hi) if k < .8 or not len(values) else float(rng.choice(list(values))) + rng.choice([-1, 1])*gap*5
        # not ambiguously close to a value present
        while len(values) and np.abs(np.asarray(values, dtype='f8') - v).min() < 2*gap:
            v += 4*gap
        return v
    pairs = []
    for i in range(rng.choice([1, 3, 6])):
        a, b = limit(), limit()
        if a > b and rng.random() < .95:
            a, b = b, a
        pairs.append((a, b))
    return max(pairs, key=lambda p: p[1]-p[0])


def one(ctx, item):
    from glmtools.io.glm import GLMDataset
    f, seed = item
    rng = random.Random(seed)
    spread(rng, f)
    case = loader.Case(loader.attributes(rng, f), rng)
    path = case.write(ctx.path(Lcfa().name()))
    ctx.begin()
    glm, err = ctx.call(GLMDataset, path)
    data = [] if err else view(case, glm.dataset)
    ctx.event('open', data=data, err=err)
    if err:
        return
    ds = glm.dataset
    for k in range(6):
        q = dict(lon=[], lat=[], x=[], y=[], minev=-1, mingr=-1, check=True)
        kw = {}
        for name, prob in (('lon', .25), ('lat', .25), ('x', .35), ('y', .35)):
            if rng.random() > prob:
                continue
            if name in ('lon', 'lat'):
                vals = np.unique(ds['flash_' + name].data)
                gap, unit, mid = DEG/4, DEG/16, (-75 if name == 'lon' else 0)
                r = pick_range(rng, vals, gap, mid-66.5, mid+66.5)
                r = tuple(round(v/unit)*unit for v in r)
            else:
                vals = np.unique(np.concatenate([ds['flash_' + name].data, ds['event_' + name].data]))
                lim = [0.1349, -0.1349, .16, -.16, .05]
                r = pick_range(rng, vals, 2*NRAD, -.15, .15)
                r = tuple(rng.choice(lim) if rng.random() < .15 else v for v in r)
                unit = NRAD
            q[name] = [quant(v, unit, .51) for v in r]
            kw[name + '_range'] = r if rng.random() < .7 else list(r)
        if rng.random() < .3:
            q['minev'] = kw['min_events'] = rng.choice([0, 1, 2, 2, 3, 3, 4, 30])
        if rng.random() < .3:
            q['mingr'] = kw['min_groups'] = rng.choice([0, 1, 2, 2, 3])
        if rng.random() < .35:
            q['check'] = kw['check_event_xy'] = False
        out, err = ctx.call(glm.subset_flashes, **kw)
        res = [] if err else view(case, out)
        ctx.event('filter', query=q, res=res, after=view(case, glm.dataset), err=err)
    ids = [x[0] for x in data['flash']]
    want = rng.sample(ids, rng.randrange(len(ids)+1))
    out, err = ctx.call(glm.get_flashes, [case.fid[i] for i in want])
    ctx.event('get', ids=want, res=[] if err else view(case, out), err=err)


def run(ctx):
    ctx.model_check('MCFilters')
    rng = ctx.rng('cases')
    items = []
    for i in range(ctx.scale(150, 2500)):
        k = rng.random()
        if k < .1:
            f = loader.fill(rng, loader.links(rng, rng.choice([0, 2, 4]), 5, 8, damage=1))
        else:
            f = loader.consistent_case(rng, rng.choice([5, 10]))
        items.append((f, rng.random()))
    items += [(loader.many(rng), rng.random()) for i in range(ctx.scale(4, 40))]
    ctx.parallel(one, items)
    ctx.validate('TraceFilters')
