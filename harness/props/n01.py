"""N01: product file names. Every day of 2016-2025 comes from the calendar of
the specification; times of day, names and suffixes vary."""


def digits(rng, days):
    t = [rng.choice([0, 1, 9, 10, 11, 12, 13, 19, 20, 22, 23]), rng.choice([0, 5, 29, 30, 58, 59]),
         rng.choice([0, 1, 19, 20, 39, 40, 59])]
    if rng.random() < .5:
        t = [rng.randrange(24), rng.randrange(60), rng.randrange(60)]
    return list(days) + [c for n in t for c in (n//10, n % 10)] + [rng.randrange(10)]


def run(ctx):
    from glmtools.io.glm import parse_glm_filename
    ctx.model_check('MCCalendar')
    rng = ctx.rng('cases')
    days = ctx.generate('MCCalendar', 'GenCalendar')
    near = {}
    for i, d in enumerate(days):
        near[tuple(d)] = days[min(i+1, len(days)-1)]
    for d in days:
        start = digits(rng, d)
        end = digits(rng, rng.choice([d, near[tuple(d)], rng.choice(days)]))
        created = digits(rng, rng.choice([d, near[tuple(d)], rng.choice(days)]))
        env = rng.choice(['OR', 'OT', 'IR', 'IT', 'IP', 'IS'])
        product = rng.choice(['GLM-L2-LCFA', 'GLM-L2-LCFA', 'GLM-L2-GLMC-M3', 'GLM-L2-GLMF-M6'])
        platform = rng.choice(['G16', 'G17', 'G18', 'G19'])
        text = lambda ds: ''.join(str(c) for c in ds)
        name = '%s_%s_%s_s%s_e%s_c%s' % (env, product, platform, text(start), text(end), text(created))
        if rng.random() < .8:
            name += '.nc'
        ctx.begin()
        out, err = ctx.call(parse_glm_filename, name)
        res = {}
        if not err:
            t = lambda v: [v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond]
            try:
                res = dict(environment=str(out[0]), product=str(out[1]), platform=str(out[2]),
                           start=t(out[3]), end=t(out[4]), created=t(out[5]))
            except (AttributeError, IndexError, TypeError) as e:
                err = repr(e)
        ctx.event('parse', name=name, environment=env, product=product, platform=platform, start=start, end=end,
                  created=created, res=res, err=err)
    ctx.validate('TraceCalendar')
