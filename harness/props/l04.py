"""L04: time offsets of loaded files, in and around the affected period."""
import datetime as dt
import random
import loader

START, END = dt.datetime(2018, 10, 15), dt.datetime(2018, 11, 6)


def one(ctx, item):
    f, seed, start, frames, marked, times, family = item
    rng = random.Random(seed)
    case = loader.Case(loader.attributes(rng, f, start=start, frames=frames, marked=marked), rng)
    loader.load(ctx, case, family=family, times=times)


def run(ctx):
    ctx.model_check('MCLoader')
    rng = ctx.rng('cases')
    s = lambda n: dt.timedelta(seconds=n)
    edges = [START, START-s(1), START-s(20), START+s(1), START-s(10), END-s(20), END-s(21), END-s(19), END,
             END-s(1), END+s(1), END-s(10)]
    items = []
    for i in range(ctx.scale(360, 4000)):
        kind = rng.random()
        if kind < .35:
            start = rng.choice(edges)
        elif kind < .75:
            start = START + s(rng.randrange(22*86400-20))
        elif kind < .9:
            start = rng.choice([START, END]) + s(rng.randrange(-3*86400, 3*86400))
        else:
            start = dt.datetime(2018, 1, 1) + s(rng.randrange(3*365*86400))
        if rng.random() < .5:
            f = loader.fill(rng, loader.links(rng, rng.choice([1, 2, 5]), 6, 9, damage=1))
        else:
            f = loader.consistent_case(rng, 4)
        items.append((f, rng.random(), start, rng.random() < .8, rng.random() < .35, rng.random() < .85,
                      rng.random() < .8))
    for i in range(ctx.scale(3, 20)):
        items.append((loader.many(rng), rng.random(), START + s(rng.randrange(22*86400-20)), True, False, True, True))
    ctx.parallel(one, items)
    ctx.validate('TraceLoader', keys=('time', 'first', 'last', 'frame', 'frame_first', 'frame_last'))
