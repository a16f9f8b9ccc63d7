"""L03: areas and energies of loaded files, with every combination of options."""
import itertools
import random
import loader


def one(ctx, item):
    f, seed, area, energy, family, unit = item
    rng = random.Random(seed)
    case = loader.Case(loader.attributes(rng, f, areaunit=unit), rng)
    loader.load(ctx, case, family=family, area=area, energy=energy)


def units(ctx, seed):
    """Files whose energies may not be in joules."""
    from glmtools.io.glm import GLMDataset
    rng = random.Random(seed)
    case = loader.Case(loader.attributes(rng, loader.consistent_case(rng, 3)), rng)
    given = {level: 'J' for level in ('flash', 'group', 'event')}
    for level in rng.sample(sorted(given), rng.choice([0, 1, 1, 1, 2, 3])):
        given[level] = rng.choice(['nJ', 'fJ', 'mJ', 'j', 'joule', '1'])
    case.f['energyunit'] = given
    change = rng.random() < .8
    path = case.write(ctx.path('units.nc'))
    ctx.begin()
    glm, err = ctx.call(GLMDataset, path, **({} if change else dict(change_energy_units=False)))
    if glm is not None:
        ctx.call(glm.dataset.close)
    # an exception of another kind is no refusal
    refused = err.startswith('ValueError')
    ctx.event('units', given=[given[k] for k in ('flash', 'group', 'event')], change=change, res=refused, err='' if refused else err)


def run(ctx):
    ctx.model_check('MCLoader')
    rng = ctx.rng('cases')
    items = []
    for i in range(ctx.scale(20, 220)):
        for area, energy, family, unit in itertools.product([True, False], [True, False], [True, False], ['m2', 'km2', None]):
            if rng.random() < .12:
                f = loader.fill(rng, loader.links(rng, 3, 5, 8, damage=1), fillvalues=.4)
            else:
                f = loader.consistent_case(rng, rng.choice([2, 5, 10]))
            kind = rng.random()
            if kind < .15:      # nothing overflowed
                for x in f['flash'] + f['group']:
                    x['area'] = min(x['area'], 65534)
            elif kind < .25:    # everything overflowed at one level
                for x in f[rng.choice(['flash', 'group'])]:
                    x['area'] = 65535
            kind = rng.random()
            if kind < .2:       # no zero energies, or only those
                for x in f['event']:
                    x['energy'] = max(1, x['energy'])
            elif kind < .3:
                for x in f['event']:
                    x['energy'] = 0
            elif kind < .4:
                for x in f['event'] + f['group'] + f['flash']:
                    if rng.random() < .2:
                        x['energy'] = 65535
            items.append((f, rng.random(), area, energy, family, unit))
    for i in range(ctx.scale(4, 40)):
        items.append((loader.many(rng), rng.random(), rng.random() < .8, rng.random() < .8, True, None))
    ctx.parallel(one, items)
    ctx.parallel(units, [rng.random() for i in range(ctx.scale(24, 200))])
    ctx.validate('TraceLoader', keys=('area', 'energy', 'energy2', 'units'))
