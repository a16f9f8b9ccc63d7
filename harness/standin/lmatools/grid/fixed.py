"""The GOES-R fixed grid."""
from lmatools.coordinateSystems import GeographicSystem, GeostationaryFixedGridSystem

goesr_nadir_lon = {'east': -75.0, 'west': -137.0, 'test': -89.5}

goesr_resolutions = {
    '0.5km': 14.0e-6, '1.0km': 28.0e-6, '2.0km': 56.0e-6, '4.0km': 112.0e-6,
    '8.0km': 224.0e-6, '10.0km': 280.0e-6, '100.0km': 2800.0e-6,
}
goesr_full = {'spanEW': 0.303744, 'spanNS': 0.303744}
goesr_conus = {'spanEW': 0.14, 'spanNS': 0.084}
goesr_meso = {'spanEW': 0.028, 'spanNS': 0.028}

def get_GOESR_coordsys(sat_lon_nadir=-75.0):
    # without a longitude, proj takes it to be zero
    return (GeostationaryFixedGridSystem(subsat_lon=float(sat_lon_nadir or 0)),
            GeographicSystem())
