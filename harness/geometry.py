"""Meshes and polygons with integer coordinates, for the clipping checks."""
import numpy as np
from core import nearests

UNITS = [2.0**-24, 2.0**-24, 2.0**-20, 2.0**-12, 2.0**-8, 1.0]


class Mesh(object):
    """xy: (N, M, 2) integer vertices; unit: size of an integer step; origin is
    added to all coordinates given to the code under test."""

    def __init__(self, rng, kind=None, cells=None, size=None, unit=None, far=False):
        self.rng = rng
        self.unit = unit or rng.choice(UNITS)
        self.kind = kind or rng.choice(['even', 'uneven', 'bent', 'sheared'])
        n0, n1 = cells or (rng.choice([1, 2, 3, 4, 6]), rng.choice([1, 2, 3, 5, 7]))
        step = size or rng.choice([400, 1000, 1500])
        uneven = self.kind == 'uneven'
        ext = lambda n: np.cumsum([0] + [rng.choice([step, step//2, step//3, step*3//2]) if uneven else step
                                          for i in range(n)])
        x, y = ext(n1), ext(n0)
        if rng.random() < .3:
            x = x[::-1]
        if rng.random() < .3:
            y = y[::-1]
        self.first = rng.choice(['y', 'x'])        # coordinate that varies along the first dimension
        X, Y = np.meshgrid(x, y)
        if self.first == 'x':
            X, Y = X.T, Y.T
        X, Y = np.array(X), np.array(Y)
        if self.kind == 'sheared':
            X, Y = X + Y//4, Y + X//8
        if self.kind == 'bent':
            j = step//6
            X = X + np.array([rng.randrange(-j, j+1) for v in X.flat]).reshape(X.shape)
            Y = Y + np.array([rng.randrange(-j, j+1) for v in Y.flat]).reshape(Y.shape)
        self.X, self.Y, self.step = X, Y, step
        self.origin = (rng.choice([0, 0, -5000, 12345]), rng.choice([0, 0, -9000, 777]))
        if far:
            self.origin = tuple(rng.choice([0, 2**25+1, -2**26-5]) for v in range(2))
        self.regular = self.kind in ('even', 'uneven') and rng.random() < .6
        self.shape = (X.shape[0]-1, X.shape[1]-1)

    def real(self, xy):
        """Integer coordinates (..., 2) as the code under test gets them."""
        return (np.asarray(xy, dtype='f8') + np.array(self.origin))*self.unit

    def back(self, xy):
        a = np.asarray(xy, dtype='f8')
        if a.ndim != 2 or a.shape[-1] != 2:
            return []
        a = a/self.unit - np.array(self.origin)
        return [[p, q] for p, q in zip(nearests(a[:, 0]), nearests(a[:, 1]))]

    def subset(self, **kw):
        from glmtools.grid.clipping import QuadMeshSubset
        r = self.real(np.dstack((self.X, self.Y)))
        return QuadMeshSubset(r[:, :, 0].copy(), r[:, :, 1].copy(), regular=self.regular, **kw)

    def vertices(self):
        return np.dstack((self.X, self.Y)).tolist()

    def bounds(self):
        return int(self.X.min()), int(self.X.max()), int(self.Y.min()), int(self.Y.max())


def wide(rng):
    """Sizes of a mesh of many cells, or of many along one side."""
    if rng.random() < .4:
        return dict(cells=rng.choice([(2, 150), (300, 1), (140, 3)]), size=rng.choice([60, 120]))
    return dict(cells=(rng.choice([18, 27]), rng.choice([20, 29])), size=rng.choice([200, 300]))


def point(rng, mesh, out=.15):
    x0, x1, y0, y1 = mesh.bounds()
    if rng.random() < out:
        w, h = x1-x0, y1-y0
        return [rng.randrange(x0-w//2-50, x1+w//2+50), rng.randrange(y0-h//2-50, y1+h//2+50)]
    return [rng.randrange(x0, x1), rng.randrange(y0, y1)]


def hull(pts):
    pts = sorted(set(map(tuple, pts)))

    def half(ps):
        out = []
        for p in ps:
            while len(out) > 1 and ((out[-1][0]-out[-2][0])*(p[1]-out[-2][1])
                                    - (out[-1][1]-out[-2][1])*(p[0]-out[-2][0])) <= 0:
                out.pop()
            out.append(p)
        return out[:-1]
    return half(pts) + half(pts[::-1])


def polygon(rng, mesh, nvert=None, simple=None):
    """A convex polygon of doubled area below 2^29."""
    x0, x1, y0, y1 = mesh.bounds()
    while True:
        c = point(rng, mesh, .2)
        r = rng.choice([20, 100, mesh.step//2, mesh.step, mesh.step*3//2, mesh.step*2, mesh.step*4])
        kind = simple or rng.choice(['rect', 'hull', 'hull', 'quad', 'aligned', 'all', 'round'])
        if kind == 'rect':
            a, b = rng.randrange(10, r+11), rng.randrange(10, r+11)
            p = [[c[0]-a, c[1]-b], [c[0]+a, c[1]-b], [c[0]+a, c[1]+b], [c[0]-a, c[1]+b]]
        elif kind == 'aligned':
            # edges on the lines of the mesh
            xs, ys = sorted(set(mesh.X.flat)), sorted(set(mesh.Y.flat))
            i, j = sorted(rng.sample(range(len(xs)), 2)), sorted(rng.sample(range(len(ys)), 2))
            a, b, e, f = int(xs[i[0]]), int(xs[i[1]]), int(ys[j[0]]), int(ys[j[1]])
            p = [[a, e], [b, e], [b, f], [a, f]]
        elif kind == 'all':
            m = rng.randrange(1, 200)
            p = [[x0-m, y0-m], [x1+m, y0-m], [x1+m, y1+m], [x0-m, y1+m]]
        elif kind == 'round':
            a, b, n = rng.randrange(10, r+11), rng.randrange(10, r+11), rng.choice([9, 16, 40])
            p = [list(v) for v in hull([[c[0]+int(a*np.cos(2*np.pi*k/n)), c[1]+int(b*np.sin(2*np.pi*k/n))]
                                        for k in range(n)])]
        elif kind == 'quad':
            j = max(r//3, 3)
            p = [[c[0]+s*r+rng.randrange(-j, j), c[1]+t*r+rng.randrange(-j, j)]
                 for s, t in ((-1, -1), (1, -1), (1, 1), (-1, 1))]
        else:
            p = [list(v) for v in hull([[c[0]+rng.randrange(-r, r+1), c[1]+rng.randrange(-r, r+1)]
                                        for i in range(rng.choice([3, 4, 6, 9]))])]
        if len(p) < 3 or (nvert and len(p) != nvert):
            continue
        if max(v[0] for v in p)-min(v[0] for v in p) > 16000 or max(v[1] for v in p)-min(v[1] for v in p) > 16000:
            continue
        area2 = sum(a[0]*b[1]-a[1]*b[0] for a, b in zip(p, p[1:]+p[:1]))
        w = max(v[0] for v in p)-min(v[0] for v in p) + max(v[1] for v in p)-min(v[1] for v in p)
        if abs(area2) < 20*w:
            continue        # thinner than the rounding
        k = rng.randrange(len(p))
        p = p[k:] + p[:k]
        if rng.random() < .5:
            p = p[::-1]
        return p
