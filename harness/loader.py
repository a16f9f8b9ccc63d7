"""Cases for the loading checks: abstract file contents, written as LCFA files,
and what is observed after loading."""
import datetime as dt
import numpy as np
from core import BAD, quant
from lcfa import Lcfa

MISSING = -5
LL = 1/16.              # group and flash positions, degrees
EDGE = [0, 1, 2, 255, 256, 32766, 32767, 32768, 32769, 65000, 65533, 65534]

# scale, offset in 1e-4 km2 and 1e-9 nJ
AREA_ENC = [(1516, 630957), (1250, 0), (1000, 10000), (1525, 640000)]
ENERGY_ENC = [(1526, 0), (1526, 285), (1526, 3000), (19, 285), (1000, 0), (2000, 500), (7000, 0)]
AREA_FILL = [65535, 65535, 65535, 65534, 40000]


def links(rng, nf, ng, ne, damage=0.0):
    """Random record ids and parents, rows shuffled."""
    fl = rng.sample(range(1, 200), nf)
    gr = rng.sample(range(1, 400), ng)
    ev = rng.sample(range(1, 900), ne)
    group, event = [], []
    for j, g in enumerate(gr):
        par = fl[j] if j < nf else (rng.choice(fl) if fl else rng.randrange(1, 200))
        group.append([g, par])
    for j, e in enumerate(ev):
        par = gr[j] if j < ng else (rng.choice(gr) if gr else rng.randrange(1, 400))
        event.append([e, par])
    if damage:
        for kind in rng.sample(['flash', 'group', 'event', 'dangle_g', 'dangle_e', 'all_e', 'all_g'], rng.choice([1, 1, 2, 3])):
            n = rng.choice([1, 1, 2])
            if kind == 'flash':
                for i in range(min(n, len(fl))):
                    fl.pop(rng.randrange(len(fl)))
            elif kind == 'group':
                for i in range(min(n, len(group))):
                    group.pop(rng.randrange(len(group)))
            elif kind == 'event' and event:
                par = rng.choice(event)[1]
                event = [e for e in event if e[1] != par]
            elif kind == 'dangle_g' and group:
                rng.choice(group)[1] = rng.randrange(1, 200)
            elif kind == 'dangle_e' and event:
                rng.choice(event)[1] = rng.randrange(1, 400)
            elif kind == 'all_e' and rng.random() < .2:
                event = []
            elif kind == 'all_g' and rng.random() < .1:
                group = []
    rng.shuffle(fl)
    if rng.random() < .7:
        rng.shuffle(group)
        rng.shuffle(event)
    return dict(flash=fl, group=group, event=event)


def raw(rng, top=65535):
    return min(top, rng.choice(EDGE) if rng.random() < .4 else rng.randrange(65536))


def fill(rng, lk, fillvalues=.1):
    """Give every record raw values."""
    def area():
        return 65535 if rng.random() < fillvalues else raw(rng, 65534)

    def energy(miss=False):
        if rng.random() < .25:
            return rng.choice([0, 0, 1, 2])
        return raw(rng, 65534)
    n = [0]

    def ll(j):
        n[0] += 1
        return dict(lat=(n[0]*7) % 800 - 400, lon=-1200 + (n[0]*11) % 800 - 400)

    def evll():
        n[0] += 1
        return dict(lat=32767 + ((n[0]*97) % 20000) - 10000, lon=32767 + ((n[0]*61) % 20000) - 10000)
    f = dict(flash=[], group=[], event=[])
    for i in lk['flash']:
        a, b = sorted([raw(rng), raw(rng)]) if rng.random() < .8 else [raw(rng), raw(rng)]
        f['flash'].append(dict(id=i, area=area(), energy=energy(), first=a, last=b, **ll(0)))
    for i, p in lk['group']:
        f['group'].append(dict(id=i, parent=p, area=area(), energy=energy(), time=raw(rng), **ll(0)))
    for i, p in lk['event']:
        f['event'].append(dict(id=i, parent=p, energy=energy(), time=raw(rng), **evll()))
    return f


def date(t):
    return [t.year, t.month, t.day, t.hour*3600 + t.minute*60 + t.second]


def attributes(rng, f, start=None, frames=None, marked=None, areaunit=None):
    f['start_dt'] = start or dt.datetime(2018, 7, 2, 4, 33, 0) + dt.timedelta(days=rng.randrange(-200, 900),
                                                                            seconds=20*rng.randrange(4320))
    f['end_dt'] = f['start_dt'] + dt.timedelta(seconds=20)
    f['start'], f['end'] = date(f['start_dt']), date(f['end_dt'])
    f['frames'] = rng.random() < .5 if frames is None else frames
    f['marked'] = True if marked is None else marked
    f['areaenc'], f['energyenc'] = {}, {}
    same = rng.random() < .4        # the levels need not be encoded alike
    unit, a, e, top = None, None, None, None
    for level in ('flash', 'group', 'event'):
        if not same or a is None:
            unit, a, e = areaunit or rng.choice(['km2', 'm2']), rng.choice(AREA_ENC), rng.choice(ENERGY_ENC)
            top = rng.choice(AREA_FILL)
        f['areaenc'][level] = dict(scale=a[0], offset=a[1], fill=top, unit=unit)
        f['energyenc'][level] = dict(scale=e[0], offset=e[1])
    for level in ('flash', 'group'):
        top = f['areaenc'][level]['fill']
        for x in f[level]:          # a file has no area above the one that stands for all larger ones
            x['area'] = min(x['area'], top)
    return f


class Mapped(Lcfa):
    """An LCFA file with the area and energy encoding of the case."""
    def area_encoding(self, level):
        a = self.f['areaenc'][level]
        u = 1e2 if a['unit'] == 'm2' else 1e-4
        return np.float32(a['scale']*u), np.float32(a['offset']*u), a['fill'], a['unit']

    def energy_encoding(self, level):
        e = self.f['energyenc'][level]
        return np.float32(e['scale']*1e-18), np.float32(e['offset']*1e-18)

    def energy_unit(self, level):
        return self.f.get('energyunit', {}).get(level, 'J')


class Case(object):
    def __init__(self, f, rng):
        self.f, self.rng = f, rng
        self.fid = self._ids({x['id'] for x in f['flash']} | {x['parent'] for x in f['group']}, 2**16)
        self.gid = self._ids({x['id'] for x in f['group']} | {x['parent'] for x in f['event']}, 2**32)
        self.eid = self._ids({x['id'] for x in f['event']}, 2**32)

    def _ids(self, ids, top):
        rng, ids = self.rng, sorted(ids)
        style = rng.choice(['same', 'zero', 'sparse', 'high', 'wrap'])
        if style == 'same':
            conc = ids
        elif style == 'zero':
            conc = [i+100 for i in ids]
            if conc:
                conc[rng.randrange(len(conc))] = 0
        elif style == 'sparse':
            conc = rng.sample(range(top), len(ids))
        elif style == 'high':
            conc = [top-1000+i for i in ids]
        else:
            conc = [top//2 - 100 + i for i in ids]
        return dict(zip(ids, conc))

    def write(self, path):
        f = self.f
        nc = Mapped(f['start_dt'], seconds=int((f['end_dt']-f['start_dt']).total_seconds()))
        nc.f = f
        nc.frame_times, nc.time_unsigned_attr = f['frames'], f['marked']
        for x in f['flash']:
            nc.add_flash(self.fid[x['id']], x['lat']*LL, x['lon']*LL, x['area'], x['energy'], x['first'], x['last'])
        for x in f['group']:
            nc.add_group(self.gid[x['id']], self.fid[x['parent']], x['lat']*LL, x['lon']*LL, x['area'], x['energy'], x['time'])
        for x in f['event']:
            nc.add_event(self.eid[x['id']], self.gid[x['parent']], x['lat'], x['lon'], x['energy'], x['time'])
        self.nc = nc
        return nc.write(path)

    def event_file(self):
        """The part of the case the specification reads."""
        return {k: v for k, v in self.f.items() if not k.endswith('_dt')}

    def observe(self, ds, family=True):
        """The loaded dataset in the units of the specification."""
        f = self.f
        t0 = np.datetime64(f['start_dt'])
        fb, gb, eb = ({c: i for i, c in m.items()} for m in (self.fid, self.gid, self.eid))
        au = {'km2': 1e-4, 'm2': 1e2}.get(ds.flash_area.attrs.get('units'), 1e-4)
        gu = {'km2': 1e-4, 'm2': 1e2}.get(ds.group_area.attrs.get('units'), 1e-4)

        def eu(name):
            return {'nJ': 1e-9, 'J': 1e-18}.get(ds[name].attrs.get('units'), 1e-9)

        def val(x, unit):
            return MISSING if np.isnan(x) else quant(x, unit, .51)

        def ms(t):
            return quant((t - t0)/np.timedelta64(1, 'us'), 1000.)
        out = dict(flash=[], group=[], event=[],
                   units={n: str(ds[n].attrs.get('units')) for n in
                          ('flash_area', 'group_area', 'flash_energy', 'group_energy', 'event_energy')})
        d = {n: ds[n].data for n in ds.variables if n.split('_')[0] in ('flash', 'group', 'event')}
        frames = f['frames'] and 'group_frame_time_offset' in d
        for i in range(len(d['flash_id'])):
            r = dict(id=fb.get(int(d['flash_id'][i]), BAD), lat=quant(d['flash_lat'][i], LL), lon=quant(d['flash_lon'][i], LL),
                     area=val(d['flash_area'][i], au), energy=val(d['flash_energy'][i], eu('flash_energy')),
                     first=ms(d['flash_time_offset_of_first_event'][i]), last=ms(d['flash_time_offset_of_last_event'][i]))
            if family:
                r.update(ngroups=quant(d['flash_child_group_count'][i]), nevents=quant(d['flash_child_event_count'][i]))
            if f['frames']:
                r.update(frame_first=ms(d['flash_frame_time_offset_of_first_event'][i]) if frames else BAD,
                         frame_last=ms(d['flash_frame_time_offset_of_last_event'][i]) if frames else BAD)
            out['flash'].append(r)
        for i in range(len(d['group_id'])):
            r = dict(id=gb.get(int(d['group_id'][i]), BAD), parent=fb.get(int(d['group_parent_flash_id'][i]), BAD),
                     lat=quant(d['group_lat'][i], LL), lon=quant(d['group_lon'][i], LL),
                     area=val(d['group_area'][i], gu), energy=val(d['group_energy'][i], eu('group_energy')),
                     time=ms(d['group_time_offset'][i]))
            if family:
                r.update(nevents=quant(d['group_child_event_count'][i]))
            if f['frames']:
                r.update(frame=ms(d['group_frame_time_offset'][i]) if frames else BAD)
            out['group'].append(r)
        nc = self.nc
        for i in range(len(d['event_id'])):
            e = d['event_energy'][i]
            r = dict(id=eb.get(int(d['event_id'][i]), BAD), parent=gb.get(int(d['event_parent_group_id'][i]), BAD),
                     lat=quant(float(d['event_lat'][i]) - float(nc.lat_offset), 0.00203128, .05),
                     lon=quant(float(d['event_lon'][i]) - float(nc.lon_offset), 0.00203128, .05),
                     energy2=MISSING if np.isnan(e) else quant(2*e, eu('event_energy'), .51),
                     time=ms(d['event_time_offset'][i]))
            if family:
                r.update(flash=fb.get(int(d['event_parent_flash_id'][i]), BAD))
            out['event'].append(r)
        return out


def load(ctx, case, family=True, times=True, tree=True, area=True, energy=True):
    """Write, load and record one case."""
    from glmtools.io.glm import GLMDataset
    path = case.write(ctx.path(Lcfa().name()))
    opts = dict(times=times, tree=tree, area=area, energy=energy)
    kw = {}
    if not times:
        kw['fix_bad_DO07_times'] = False
    if not tree:
        kw['check_tree'] = False
    if not area:
        kw['check_area_units'] = False
    if not energy:
        kw['change_energy_units'] = False
    if not family:
        kw['calculate_parent_child'] = False
    ctx.begin()
    glm, err = ctx.call(GLMDataset, path, **kw)
    res = []
    if not err:
        res, err = ctx.call(case.observe, glm.dataset, family)
        ctx.call(glm.dataset.close)
    ctx.event('load', file=case.event_file(), opts=opts, res=res or [], err=err)
    return glm


def damaged_cases(ctx, name, small, large):
    """TLC's small link structures and random larger ones."""
    rng = ctx.rng(name)
    gens = ctx.generate('MCLoader', 'GenLoader', limit=small)
    out = [fill(rng, g) for g in gens]
    for i in range(large):
        nf = rng.choice([0, 1, 2, 3, 5, 8])
        ng = nf + rng.randrange(0, 8) if nf or rng.random() < .5 else 0
        ne = ng + rng.randrange(0, 12) if ng or rng.random() < .5 else 0
        out.append(fill(rng, links(rng, nf, ng, ne, damage=rng.random() < .7)))
    return out


def crowded(rng, k):
    """More records below one parent than a byte can count."""
    return fill(rng, links(rng, 1, 2, 620) if k % 2 else links(rng, 1, 260, 400))


def many(rng, damage=False):
    """More records of each level than a byte can count."""
    nf, ng = rng.choice([40, 150, 195]), rng.choice([270, 380])
    lk = links(rng, nf, ng, rng.choice([400, 600]))
    if damage:
        lk['flash'] = rng.sample(lk['flash'], len(lk['flash'])-rng.randrange(1, 30))
        lk['group'] = rng.sample(lk['group'], len(lk['group'])-rng.randrange(1, 90))
        for g in rng.sample(lk['group'], rng.randrange(1, 9)):
            g[1] = rng.randrange(1, 200)
        lost = {e[1] for e in rng.sample(lk['event'], rng.randrange(1, 60))}
        lk['event'] = [e for e in lk['event'] if e[1] not in lost]
        for e in rng.sample(lk['event'], 5):
            e[1] = rng.randrange(1, 400)
    return fill(rng, lk)


def consistent_case(rng, big=8):
    nf = rng.choice([1, 2, 3, big])
    ng = nf + rng.randrange(0, big)
    return fill(rng, links(rng, nf, ng, ng + rng.randrange(0, 2*big)))
