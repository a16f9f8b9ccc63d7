"""C02: lookups of mesh cells."""
import random
import geometry


def found(mesh, out):
    quads, i, j = out
    if len(quads) != len(i) or len(i) != len(j):
        raise ValueError('%d quads, %d and %d indices' % (len(quads), len(i), len(j)))
    return [dict(i=int(a), j=int(b), quad=mesh.back(q)) for q, a, b in zip(quads, i, j)]


def coordinate(rng, mesh, axis, out=.3):
    """A coordinate, often on or beside a line of the mesh, or beyond it."""
    lines = sorted(set((mesh.X, mesh.Y)[axis].flat))
    lo, hi = int(lines[0]), int(lines[-1])
    k = rng.random()
    if k < .35:
        return int(rng.choice(lines)) + rng.choice([0, 0, 1, -1])
    if k < .35 + out:
        return rng.choice([lo - rng.randrange(1, 3000), hi + rng.randrange(1, 3000)])
    return rng.randrange(lo, hi+1)


def one(ctx, seed, large=False):
    rng = random.Random(seed)
    kw = dict(size=rng.choice([60, 100, 400]))
    if large:
        kw = geometry.wide(rng)
        kw['size'] = rng.choice([12, 18] if max(kw['cells']) > 100 else [60, 100])
    mesh = geometry.Mesh(rng, far=rng.random() < .25, **kw)
    n = mesh.shape[0]*mesh.shape[1]
    k = rng.randrange(1, n+1) if not large else rng.choice([12, 100, 300, n])
    ctx.begin()
    sub, err = ctx.call(mesh.subset, **(dict(n_neighbors=k) if not mesh.regular else {}))
    for q in range(4):
        head = dict(mesh=mesh.vertices(), regular=mesh.regular, kind=mesh.kind, first=mesh.first)
        if rng.random() < .6:
            a, b = (sorted((coordinate(rng, mesh, axis), coordinate(rng, mesh, axis))) for axis in (0, 1))
            box = a + b
            lo, hi = mesh.real([box[0], box[2]]), mesh.real([box[1], box[3]])
            out, e = (None, err) if err else ctx.call(
                lambda: found(mesh, sub.quads_in_bbox((lo[0], hi[0], lo[1], hi[1]))))
            ctx.event('in_box', box=box, res=out if not e else [], err=e, **head)
        else:
            at = [coordinate(rng, mesh, axis, .15) for axis in (0, 1)]
            out, e = (None, err) if err else ctx.call(lambda: found(mesh, sub.quads_nearest(tuple(mesh.real(at)))))
            ctx.event('nearest', at=at, wanted=k, res=out if not e else [], err=e, **head)


def large(ctx, seed):
    one(ctx, seed, large=True)


def run(ctx):
    ctx.model_check('MCMeshes')
    rng = ctx.rng('cases')
    ctx.parallel(one, [rng.random() for i in range(ctx.scale(500, 6000))])
    ctx.parallel(large, [rng.random() for i in range(ctx.scale(8, 60))])
    ctx.validate('TraceMeshes')
