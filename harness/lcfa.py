"""Writer of synthetic GLM L2 LCFA files.

Rows are given in *encoded* (on disk) integers so that a file can hold any
value the format can hold, independently of how the code under test decodes it.
"""
import datetime as dt
import netCDF4
import numpy as np

LATLON_SCALE = np.float32(0.00203128)
ENERGY_SCALE = np.float32(1.52597e-15)
AREA_SCALE_KM2 = np.float32(0.15163901)
AREA_OFFSET_KM2 = np.float32(63.095734)
J2000 = dt.datetime(2000, 1, 1, 12)

COORDS = {
    'event': 'event_parent_group_id event_id lightning_wavelength event_time_offset event_lat event_lon',
    'group': 'group_parent_flash_id event_parent_group_id group_id lightning_wavelength '
             'group_time_threshold group_time_offset group_lat group_lon',
    'flash': 'group_parent_flash_id flash_id lightning_wavelength flash_time_threshold '
             'flash_time_offset_of_first_event flash_time_offset_of_last_event flash_lat flash_lon',
}


def _signed(values, bits):
    v = np.asarray(values, dtype='u8')
    return v.astype('u%d' % (bits//8)).view('i%d' % (bits//8))


class Lcfa(object):
    """Columns of one file. All arrays are raw encoded integers except the
    group and flash positions, which the format stores as floats."""

    def __init__(self, start=dt.datetime(2018, 7, 2, 4, 33, 0), seconds=20):
        self.start, self.product = start, None
        self.end = start + dt.timedelta(seconds=seconds)
        self.nadir = -75.0
        self.lon_center = -75.0
        self.platform, self.slot, self.instrument = 'G16', 'GOES-East', 'GLM-1'
        self.flash = dict(id=[], first=[], last=[], lat=[], lon=[], area=[], energy=[])
        self.group = dict(id=[], parent=[], time=[], lat=[], lon=[], area=[], energy=[])
        self.event = dict(id=[], parent=[], time=[], lat=[], lon=[], energy=[])
        self.area_m2 = False
        self.frame_times = False      # DO.07 group/flash frame time variables
        self.time_unsigned_attr = True
        self.energy_scale = ENERGY_SCALE
        self.energy_offset = np.float32(0.0)

    def add_flash(self, id, lat=0., lon=-75., area=100, energy=100, first=0, last=0):
        for k, v in dict(id=id, lat=lat, lon=lon, area=area, energy=energy,
                         first=first, last=last).items():
            self.flash[k].append(v)

    def add_group(self, id, parent, lat=0., lon=-75., area=100, energy=100, time=0):
        for k, v in dict(id=id, parent=parent, lat=lat, lon=lon, area=area,
                         energy=energy, time=time).items():
            self.group[k].append(v)

    def add_event(self, id, parent, lat=32767, lon=32767, energy=100, time=0):
        for k, v in dict(id=id, parent=parent, lat=lat, lon=lon, energy=energy,
                         time=time).items():
            self.event[k].append(v)

    @property
    def lat_offset(self):
        return np.float32(-66.56)

    @property
    def lon_offset(self):
        return np.float32(self.lon_center - 66.56)

    @property
    def area_scale(self):
        return np.float32(AREA_SCALE_KM2 * (1e6 if self.area_m2 else 1))

    @property
    def area_offset(self):
        return np.float32(AREA_OFFSET_KM2 * (1e6 if self.area_m2 else 1))

    def area_encoding(self, level):
        return self.area_scale, self.area_offset, 65535, 'm2' if self.area_m2 else 'km2'

    def energy_unit(self, level):
        return 'J'

    def energy_encoding(self, level):
        return self.energy_scale, self.energy_offset

    def name(self):
        f = lambda t: t.strftime('%Y%j%H%M%S') + str(t.microsecond//100000)
        return 'OR_GLM-L2-LCFA_%s_s%s_e%s_c%s.nc' % (
            self.platform, f(self.start), f(self.end), f(self.end + dt.timedelta(seconds=7)))

    def encode_lat(self, lat):
        return int(round((lat - float(self.lat_offset))/float(LATLON_SCALE)))

    def encode_lon(self, lon):
        return int(round((lon - float(self.lon_offset))/float(LATLON_SCALE)))

    def write(self, path):
        with netCDF4.Dataset(path, 'w', format='NETCDF4') as nc:
            nc.set_auto_maskandscale(False)
            for d, n in (('number_of_flashes', len(self.flash['id'])),
                         ('number_of_groups', len(self.group['id'])),
                         ('number_of_events', len(self.event['id']))):
                # an unlimited dimension is how a zero length one is stored
                nc.createDimension(d, n or None)
            for d in ('number_of_time_bounds', 'number_of_field_of_view_bounds',
                      'number_of_wavelength_bounds'):
                nc.createDimension(d, 2)
            epoch = self.start.strftime('%Y-%m-%d %H:%M:%S.000')

            def var(name, dtype, dims, data, fill=None, **attrs):
                v = nc.createVariable(name, dtype, dims, fill_value=fill)
                v.set_auto_maskandscale(False)
                for k, a in attrs.items():
                    v.setncattr(k, a)
                if dims == () or len(data) > 0:
                    v[...] = data
                return v

            U = dict(_Unsigned='true')
            fd, gd, ed = ('number_of_flashes',), ('number_of_groups',), ('number_of_events',)
            tattr = dict(scale_factor=np.float32(2.0), add_offset=np.float32(0.0),
                         units='milliseconds since ' + epoch)
            if self.time_unsigned_attr:
                tattr.update(U)
            llat = dict(scale_factor=LATLON_SCALE, add_offset=self.lat_offset, units='degrees_north', **U)
            llon = dict(scale_factor=LATLON_SCALE, add_offset=self.lon_offset, units='degrees_east', **U)
            en, ar = {}, {}
            for lev in ('flash', 'group', 'event'):
                es, eo = self.energy_encoding(lev)
                en[lev] = dict(scale_factor=es, add_offset=eo, units=self.energy_unit(lev), **U)
                scale, offset, fill, unit = self.area_encoding(lev)
                ar[lev] = dict(fill=np.uint16(fill).astype('i2'), scale_factor=scale, add_offset=offset, units=unit, **U)
            e, g, f = self.event, self.group, self.flash
            var('event_id', 'i4', ed, _signed(e['id'], 32), **U)
            var('event_time_offset', 'i2', ed, _signed(e['time'], 16), **tattr)
            var('event_lat', 'i2', ed, _signed(e['lat'], 16), **llat)
            var('event_lon', 'i2', ed, _signed(e['lon'], 16), **llon)
            var('event_energy', 'i2', ed, _signed(e['energy'], 16), fill=np.int16(-1),
                coordinates=COORDS['event'], **en['event'])
            var('event_parent_group_id', 'i4', ed, _signed(e['parent'], 32), **U)
            var('group_id', 'i4', gd, _signed(g['id'], 32), **U)
            var('group_time_offset', 'i2', gd, _signed(g['time'], 16), **tattr)
            if self.frame_times:
                var('group_frame_time_offset', 'i2', gd, _signed(g['time'], 16), **tattr)
            var('group_lat', 'f4', gd, np.asarray(g['lat'], 'f4'), units='degrees_north')
            var('group_lon', 'f4', gd, np.asarray(g['lon'], 'f4'), units='degrees_east')
            var('group_area', 'i2', gd, _signed(g['area'], 16),
                coordinates=COORDS['group'], **ar['group'])
            var('group_energy', 'i2', gd, _signed(g['energy'], 16), fill=np.int16(-1),
                coordinates=COORDS['group'], **en['group'])
            var('group_parent_flash_id', 'i2', gd, _signed(g['parent'], 16), **U)
            var('group_quality_flag', 'i2', gd, _signed([0]*len(g['id']), 16),
                coordinates=COORDS['group'], **U)
            var('flash_id', 'i2', fd, _signed(f['id'], 16), **U)
            var('flash_time_offset_of_first_event', 'i2', fd, _signed(f['first'], 16), **tattr)
            var('flash_time_offset_of_last_event', 'i2', fd, _signed(f['last'], 16), **tattr)
            if self.frame_times:
                var('flash_frame_time_offset_of_first_event', 'i2', fd, _signed(f['first'], 16), **tattr)
                var('flash_frame_time_offset_of_last_event', 'i2', fd, _signed(f['last'], 16), **tattr)
            var('flash_lat', 'f4', fd, np.asarray(f['lat'], 'f4'), units='degrees_north')
            var('flash_lon', 'f4', fd, np.asarray(f['lon'], 'f4'), units='degrees_east')
            var('flash_area', 'i2', fd, _signed(f['area'], 16),
                coordinates=COORDS['flash'], **ar['flash'])
            var('flash_energy', 'i2', fd, _signed(f['energy'], 16), fill=np.int16(-1),
                coordinates=COORDS['flash'], **en['flash'])
            var('flash_quality_flag', 'i2', fd, _signed([0]*len(f['id']), 16),
                coordinates=COORDS['flash'], **U)
            tu = 'seconds since 2000-01-01 12:00:00'
            t0, t1, t = ((t-J2000).total_seconds() for t in (self.start, self.end, self.product or self.start))
            var('product_time', 'f8', (), t, units=tu, bounds='product_time_bounds')
            var('product_time_bounds', 'f8', ('number_of_time_bounds',), [t0, t1])
            var('lightning_wavelength', 'f4', (), 777.37, units='nm')
            var('lightning_wavelength_bounds', 'f4', ('number_of_wavelength_bounds',), [777.26, 777.48])
            var('group_time_threshold', 'f4', (), 0.0, units='s')
            var('flash_time_threshold', 'f4', (), 3.33, units='s')
            var('lat_field_of_view', 'f4', (), 0.0, units='degrees_north')
            var('lon_field_of_view', 'f4', (), self.nadir, units='degrees_east')
            fb = ('number_of_field_of_view_bounds',)
            var('lat_field_of_view_bounds', 'f4', fb, [66.56, -66.56])
            var('lon_field_of_view_bounds', 'f4', fb, [self.nadir-66.56, self.nadir+66.56])
            for lev, n in (('event', len(e['id'])), ('group', len(g['id'])), ('flash', len(f['id']))):
                var('%s_count' % lev, 'i4', (), n,
                    coordinates='lightning_wavelength product_time lat_field_of_view lon_field_of_view')
            nc.setncatts(dict(
                dataset_name=self.name(), platform_ID=self.platform, orbital_slot=self.slot,
                instrument_ID=self.instrument,
                time_coverage_start=self.start.strftime('%Y-%m-%dT%H:%M:%S.0Z'),
                time_coverage_end=self.end.strftime('%Y-%m-%dT%H:%M:%S.0Z')))
        return path
