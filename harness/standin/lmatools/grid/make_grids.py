from datetime import datetime, timedelta
import numpy as np
from lmatools.coordinateSystems import GeographicSystem, GeostationaryFixedGridSystem

def time_edges(start_time, end_time, frame_interval):
    """ Edges of equal-length frames from start_time; the last frame may extend
        beyond end_time by less than frame_interval. """
    frame_dt = timedelta(0, frame_interval)
    duration = end_time - start_time
    n_frames = int(np.ceil(duration.total_seconds() / frame_dt.total_seconds()))
    return [start_time + i*frame_dt for i in range(n_frames+1)], duration

class FlashGridder(object):
    def __init__(self, start_time, end_time, do_3d=True, frame_interval=120.0,
                 dx=4.0e3, dy=4.0e3, dz=1.0e3, base_date=None,
                 x_bnd=(-100e3, 100e3), y_bnd=(-100e3, 100e3), z_bnd=(0e3, 20e3),
                 ctr_lat=33.5, ctr_lon=-101.5, ctr_alt=0.0,
                 proj_name='aeqd', proj_datum='WGS84', proj_ellipse='WGS84',
                 pixel_coords=None, flash_count_logfile=None, energy_grids=None,
                 event_grid_area_fraction_key=None,
                 spatial_scale_factor=1.0/1000.0):
        self.start_time, self.end_time = start_time, end_time
        self.do_3d = do_3d
        self.frame_interval = frame_interval
        self.dx, self.dy, self.dz = dx, dy, dz
        self.x_bnd, self.y_bnd, self.z_bnd = x_bnd, y_bnd, z_bnd
        self.ctr_lat, self.ctr_lon, self.ctr_alt = ctr_lat, ctr_lon, ctr_alt
        self.proj_name = proj_name
        self.proj_datum, self.proj_ellipse = proj_datum, proj_ellipse
        self.pixel_coords = pixel_coords
        self.flash_count_logfile = flash_count_logfile
        self.energy_grids = energy_grids
        self.event_grid_area_fraction_key = event_grid_area_fraction_key
        self.spatial_scale_factor = spatial_scale_factor
        self.base_date = base_date

        self.t_edges, self.duration = time_edges(start_time, end_time, frame_interval)
        self.t_ref = datetime(start_time.year, start_time.month, start_time.day)
        self.t_edges_seconds = [(t-self.t_ref).total_seconds() for t in self.t_edges]
        self.n_frames = len(self.t_edges)-1

        self.xedge = np.arange(x_bnd[0], x_bnd[1]+dx, dx)
        self.yedge = np.arange(y_bnd[0], y_bnd[1]+dy, dy)
        self.zedge = np.arange(z_bnd[0], z_bnd[1]+dz, dz)

        self.geoProj = GeographicSystem()
        if proj_name == 'latlong':
            self.mapProj = self.geoProj
        elif pixel_coords is not None:
            self.mapProj = pixel_coords
        elif proj_name == 'geos':
            self.mapProj = GeostationaryFixedGridSystem(subsat_lon=ctr_lon)
        else:
            raise NotImplementedError(proj_name)

        self.pipeline_setup()
        self.output_setup()
