"""I02: files of frames."""
import random
from props.i01 import write


def one(ctx, seed):
    rng = random.Random(seed)
    write(ctx, seed, kind='any', n=(rng.randrange(2, 8), rng.randrange(1, 8)), frames=rng.choice([1, 1, 2, 3, 5, 8]),
          empty=rng.choice([0., .1, .5]))


def large(ctx, seed):
    rng = random.Random(seed)
    n, frames = rng.choice([((40, 19), 1), ((3, 2), 70)])
    write(ctx, seed, kind='any', n=n, frames=frames, empty=.5)


def run(ctx):
    ctx.model_check('MCImagery')
    rng = ctx.rng('cases')
    ctx.parallel(one, [rng.random() for i in range(ctx.scale(100, 1500))])
    ctx.parallel(large, [rng.random() for i in range(ctx.scale(6, 40))])
    ctx.validate('TraceImagery')
