"""Files whose events have known footprints, for the gridding checks."""
import datetime as dt
import numpy as np
from core import BAD, nearest, quant
from loader import Mapped

ONE = 32768
AREA = .25          # km2 of a unit of area
STEP = 1024         # event locations are on a lattice of this many units


def hierarchy(rng, nf=None, nloc=None, light=False, many=False):
    """Flashes, groups and events; events name a location from 1."""
    nf = rng.choice([1, 2, 3, 6]) if nf is None else nf
    nloc = rng.choice([1, 3, 6, 9]) if nloc is None else nloc
    area = lambda: rng.choice([rng.randrange(1, 20), rng.randrange(1, 200)])
    if light:       # the sums over many records remain small
        area = lambda: rng.randrange(1, 20)
    fl = [dict(id=i, area=area(), energy=rng.randrange(1, 900)) for i in rng.sample(range(1, 200), nf)]
    gr, ev = [], []
    top = 150 if many else 4
    gids = rng.sample(range(1, max(400, nf*(top+1))), nf*top)
    for k, f in enumerate(fl):
        for j in range(rng.choice([1, 1, 2, 4] if not many or k else [80, 150])):
            gr.append(dict(id=gids[top*k+j], flash=f['id'], area=area(), energy=rng.randrange(1, 900)))
    for g in gr:
        for j in range(rng.choice([1, 1, 2, 5])):
            ev.append(dict(flash=g['flash'], group=g['id'], loc=rng.randrange(1, nloc+1), energy=rng.randrange(1, 40 if light else 400)))
    for t in (fl, gr, ev):
        rng.shuffle(t)
    return dict(flash=fl, group=gr, event=ev)


class File(object):
    """An LCFA file holding a hierarchy; ids are drawn over the whole range of
    the format."""

    def __init__(self, rng, d, start, seconds=20):
        self.d = d
        nc = self.nc = Mapped(start, seconds=seconds)
        area, energy = dict(scale=int(AREA*10000), offset=0, fill=65535, unit='km2'), dict(scale=10**9, offset=0)
        nc.f = dict(areaenc=dict.fromkeys(('flash', 'group', 'event'), area),
                    energyenc=dict.fromkeys(('flash', 'group', 'event'), energy))
        draw = lambda n, top: rng.sample(range(top), n) if rng.random() < .6 else list(range(n))
        self.fid = dict(zip([f['id'] for f in d['flash']], draw(len(d['flash']), 2**16)))
        self.gid = dict(zip([g['id'] for g in d['group']], draw(len(d['group']), 2**31)))
        eid = draw(len(d['event']), 2**31)
        for f in d['flash']:
            nc.add_flash(self.fid[f['id']], f.get('lat', 0.), f.get('lon', -75.), f['area'], f['energy'],
                         f.get('first', 0), f.get('last', 0))
        for g in d['group']:
            nc.add_group(self.gid[g['id']], self.fid[g['flash']], g.get('lat', 0.), g.get('lon', -75.), g['area'],
                         g['energy'], g.get('time', 0))
        for i, e in zip(eid, d['event']):
            nc.add_event(i, self.gid[e['group']], e.get('lat', 32767), e.get('lon', 32767), e['energy'],
                         e.get('time', 0))
        self.fback = {v: k for k, v in self.fid.items()}
        self.gback = {v: k for k, v in self.gid.items()}
        self.eid = eid

    def write(self, path):
        return self.nc.write(path)


def place(ds, f, at, unit):
    """Give the loaded records exact positions, in units."""
    pos = dict(zip(f.eid, (at[e['loc']-1] for e in f.d['event'])))
    p = np.array([pos[int(i)] for i in ds.event_id.data], dtype='f8')*unit
    ds['event_x'] = ('number_of_events', p[:, 0])
    ds['event_y'] = ('number_of_events', p[:, 1])
    for lev, back in (('flash', f.fback), ('group', f.gback)):
        xy = {r['id']: r['at'] for r in f.d[lev]}
        p = np.array([xy[back[int(i)]] for i in ds[lev+'_id'].data], dtype='f8')*unit
        ds[lev+'_x'] = ('number_of_%ss' % (lev if lev == 'group' else 'flashe'), p[:, 0])
        ds[lev+'_y'] = ('number_of_%ss' % (lev if lev == 'group' else 'flashe'), p[:, 1])


def rows(ev):
    """Rows of split events, fractions in multiples of 2^-15."""
    f = lambda r, n, unit=1.: nearest(float(r[n])*ONE/unit)
    return [dict(i=int(r['mesh_xi']), j=int(r['mesh_yi']), energy=f(r, 'power'), count=f(r, 'lutevent_count'),
                 flashes=f(r, 'lutevent_flash_count'), groups=f(r, 'lutevent_group_count'),
                 flasharea=f(r, 'lutevent_total_flash_area', AREA), grouparea=f(r, 'lutevent_total_group_area', AREA),
                 minarea=quant(r['lutevent_min_flash_area'], AREA), frac=f(r, 'mesh_frac')) for r in ev]
