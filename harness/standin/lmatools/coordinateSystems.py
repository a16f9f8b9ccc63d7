import numpy as np
from pyproj import Transformer

ECEF = '+proj=geocent +a=6378137.0 +b=6356752.31414 +units=m +no_defs'
LLA = '+proj=longlat +a=6378137.0 +b=6356752.31414 +no_defs'

class GeographicSystem(object):
    def __init__(self):
        self._to = Transformer.from_crs(LLA, ECEF, always_xy=True)
        self._from = Transformer.from_crs(ECEF, LLA, always_xy=True)
    def toECEF(self, lon, lat, alt):
        return self._to.transform(lon, lat, alt)
    def fromECEF(self, x, y, z):
        return self._from.transform(x, y, z)

class GeostationaryFixedGridSystem(object):
    h = 35786023.0
    def __init__(self, subsat_lon=0.0):
        geos = ('+proj=geos +lon_0={0} +h={1} +sweep=x +a=6378137.0 '
                '+b=6356752.31414 +units=m +no_defs').format(subsat_lon, self.h)
        self._to = Transformer.from_crs(geos, ECEF, always_xy=True)
        self._from = Transformer.from_crs(ECEF, geos, always_xy=True)
    def toECEF(self, x, y, z):
        h = self.h
        return self._to.transform(np.multiply(x, h)[()], np.multiply(y, h)[()], np.multiply(z, h)[()])
    def fromECEF(self, X, Y, Z):
        x, y, z = self._from.transform(X, Y, Z)
        return x/self.h, y/self.h, z/self.h
