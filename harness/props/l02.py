"""L02: family information of loaded files."""
import random
import loader


def one(ctx, item):
    f, seed = item
    rng = random.Random(seed)
    case = loader.Case(loader.attributes(rng, f), rng)
    loader.load(ctx, case)


def run(ctx):
    ctx.model_check('MCLoader', ctx.scale('MCLoader', 'MCLoaderDeep'))
    rng = ctx.rng('cases')
    cases = loader.damaged_cases(ctx, 'damaged', ctx.scale(150, 2500), ctx.scale(50, 500))
    for i in range(ctx.scale(300, 4000)):
        cases.append(loader.consistent_case(rng, rng.choice([3, 5, 8, 12])))
    cases += [loader.crowded(rng, i) for i in range(ctx.scale(4, 40))]
    cases += [loader.many(rng, damage=rng.random() < .5) for i in range(ctx.scale(4, 40))]
    ctx.parallel(one, [(f, rng.random()) for f in cases])
    ctx.validate('TraceLoader', keys=('flash', 'ngroups', 'nevents'))
