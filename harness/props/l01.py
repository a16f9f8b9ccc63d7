"""L01: files with missing and dangling records."""
import random
import loader


def one(ctx, item):
    f, seed = item
    rng = random.Random(seed)
    case = loader.Case(loader.attributes(rng, f), rng)
    family = rng.random() < .8
    # without the check, families of damaged files are not defined
    loader.load(ctx, case, family=family, tree=family or rng.random() < .5)


def run(ctx):
    ctx.model_check('MCLoader', ctx.scale('MCLoader', 'MCLoaderDeep'))
    rng = ctx.rng('seeds')
    cases = loader.damaged_cases(ctx, 'cases', ctx.scale(400, 2500), ctx.scale(250, 3000))
    cases += [loader.many(rng, damage=True) for i in range(ctx.scale(6, 60))]
    ctx.parallel(one, [(f, rng.random()) for f in cases])
    ctx.validate('TraceLoader', keys=('id', 'lat', 'lon', 'parent'))
