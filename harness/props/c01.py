"""C01: slicing of polygons by meshes."""
import random
import numpy as np
import geometry
from core import BAD, nearest


def sliced(mesh, out):
    subs, areas = out
    u2 = mesh.unit**2
    res = []
    for (polys, fracs, (i, j)), area in zip(subs, areas):
        n = len(polys)
        i, j = list(np.atleast_1d(i)), list(np.atleast_1d(j))
        if not (len(fracs) == len(i) == len(j) == n):
            res.append(dict(area2=BAD, pieces=[]))
            continue
        res.append(dict(area2=nearest(2*area/u2),
                        pieces=[dict(i=int(a), j=int(b), share2=nearest(2*f*area/u2), poly=mesh.back(p))
                                for p, f, a, b in zip(polys, fracs, i, j)]))
    return res


def one(ctx, seed, large=False):
    from glmtools.grid.clipping import QuadMeshPolySlicer
    rng = random.Random(seed)
    mesh = geometry.Mesh(rng, **geometry.wide(rng)) if large else geometry.Mesh(rng)
    n = mesh.shape[0]*mesh.shape[1]
    how = rng.choice(['poly', 'poly', 'poly', 'box', 'near'])
    kw, limit, box = {}, 'all', [0, 0, 0, 0]
    if how == 'near':
        if mesh.regular:
            limit = 'centre'
        else:
            k = rng.choice([n, n, max(1, n//2), 1])
            kw['n_neighbors'] = k
            limit = 'all' if k == n else 'none'
    nv = rng.choice([None, None, 4])
    polys = [geometry.polygon(rng, mesh, nv) for i in range(rng.choice([40, 130]) if large else rng.choice([1, 2, 4]))]
    bbox = True if how == 'poly' else None
    if how == 'box':
        limit = 'box'
        a, b = geometry.point(rng, mesh), geometry.point(rng, mesh)
        box = [min(a[0], b[0]), max(a[0], b[0])+1, min(a[1], b[1]), max(a[1], b[1])+1]
        lo, hi = mesh.real([box[0], box[2]]), mesh.real([box[1], box[3]])
        bbox = (lo[0], hi[0], lo[1], hi[1])
    real = [mesh.real(p) for p in polys]
    if nv == 4 and rng.random() < .7:
        real = np.asarray(real)
    elif rng.random() < .3:
        real = [[tuple(v) for v in p] for p in real]
    ctx.begin()
    sub, err = ctx.call(mesh.subset, **kw)
    out = None
    if not err:
        out, err = ctx.call(lambda: QuadMeshPolySlicer(sub).slice(real, bbox=bbox))
    if not err:
        out, err = ctx.call(sliced, mesh, out)
    ctx.event('slice', mesh=mesh.vertices(), regular=mesh.regular, kind=mesh.kind, limit=limit, box=box, polys=polys,
              res=out if not err else [], err=err)


def large(ctx, seed):
    one(ctx, seed, large=True)


def run(ctx):
    ctx.model_check('MCMeshes')
    rng = ctx.rng('cases')
    ctx.parallel(one, [rng.random() for i in range(ctx.scale(500, 6000))])
    ctx.parallel(large, [rng.random() for i in range(ctx.scale(8, 60))])
    ctx.validate('TraceMeshes')
