"""L09: the field of view reported for loaded files."""
import random
import loader
from core import quant
from lcfa import Lcfa


def one(ctx, item):
    from glmtools.io.glm import GLMDataset
    f, seed = item
    rng = random.Random(seed)
    lat, lon, wide = rng.randrange(65536), rng.randrange(65536), rng.choice([1, 30, 3000, 65535])
    some = lambda c: max(0, min(65535, c + rng.randrange(-wide, wide+1)))
    for e in f['event']:
        e.update(lat=some(lat), lon=some(lon))
    case = loader.Case(loader.attributes(rng, f), rng)
    path = case.write(ctx.path(Lcfa().name()))

    def work():
        glm = GLMDataset(path)
        return [[quant(float(v) - float(off), 0.00203128, .05) for v in b]
                for b, off in zip(glm.fov_bounds, (case.nc.lon_offset, case.nc.lat_offset))]
    ctx.begin()
    res, err = ctx.call(work)
    ctx.event('bounds', events=[[e['lat'], e['lon']] for e in f['event']], res=res if not err else [], err=err)


def run(ctx):
    ctx.model_check('MCBounds')
    rng = ctx.rng('cases')
    cases = [loader.consistent_case(rng, rng.choice([1, 3, 5, 8, 12])) for i in range(ctx.scale(200, 2500))]
    cases += [loader.many(rng) for i in range(ctx.scale(4, 40))]
    ctx.parallel(one, [(f, rng.random()) for f in cases if f['event']])
    ctx.validate('TraceBounds')
