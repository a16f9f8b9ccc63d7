import numpy as np

def inside(poly, x, y):
    """ True where the points are inside the polygon, by the number of its
    edges crossed going along x. """
    result = np.zeros(x.shape, dtype=bool)
    n = len(poly)
    for k in range(n):
        (x0, y0), (x1, y1) = poly[k][:2], poly[(k+1) % n][:2]
        if y0 == y1:
            continue
        crosses = (y0 > y) != (y1 > y)
        result ^= crosses & (x < x0 + (y-y0)*(x1-x0)/(y1-y0))
    return result

class TimeSeriesPolygonLassoFilter(object):
    """ Selects rows whose time is in one of the windows between time_edges and
    whose position is in the polygon for that window. """
    def __init__(self, coord_names=None, time_key='time', time_edges=None, polys=None, basedate=None):
        self.coord_names, self.time_key = coord_names, time_key
        self.edges = [(t-basedate).total_seconds() for t in time_edges]
        self.polys = polys

    def filter_mask(self, a):
        good = np.zeros(a.shape, dtype=bool)
        t, x, y = a[self.time_key], a[self.coord_names[0]], a[self.coord_names[1]]
        for t0, t1, poly in zip(self.edges[:-1], self.edges[1:], self.polys):
            good |= (t >= t0) & (t < t1) & inside(poly, x.astype('f8'), y.astype('f8'))
        return good
