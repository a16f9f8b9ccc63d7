import numpy as np
from lmatools.stream.subset import coroutine

def _histogram(x, y, xedge, yedge, weights=None):
    x, y = np.atleast_1d(x), np.atleast_1d(y)
    count, _ = np.histogramdd((x, y), bins=(xedge, yedge), weights=weights)
    return count

@coroutine
def _accumulate(grid, xedge, yedge, out, weighted):
    try:
        while True:
            stuff = (yield)
            x, y, weights = stuff[:3]
            if len(x) > 0:
                w = weights if weighted else None
                grid += _histogram(x, y, xedge, yedge, weights=w).astype(grid.dtype)
    except GeneratorExit:
        if out is not None:
            out['out'] = grid

def accumulate_points_on_grid(grid, xedge, yedge, out=None, label='',
                              grid_frac_weights=False):
    assert xedge.shape[0] == grid.shape[0]+1
    assert yedge.shape[0] == grid.shape[1]+1
    return _accumulate(grid, xedge, yedge, out, grid_frac_weights)

def accumulate_energy_on_grid(grid, xedge, yedge, out=None, label='',
                              grid_frac_weights=False):
    return _accumulate(grid, xedge, yedge, out, True)

def accumulate_points_on_grid_sdev(*args, **kwargs):
    raise NotImplementedError('not used by glmtools')

def accumulate_minimum_on_grid(*args, **kwargs):
    raise NotImplementedError('not used by glmtools')

@coroutine
def point_density(target, weight_key=None, weight_flashes=True):
    while True:
        events, flashes, x, y, z = (yield)
        if len(x) > 0:
            if weight_key is not None:
                weights = (flashes if weight_flashes else events)[weight_key]
            else:
                weights = None
            target.send((x, y, weights))

@coroutine
def extent_density(x0, y0, dx, dy, target, flash_id_key='flash_id',
                   weight_key=None, event_grid_area_fraction_key=None):
    """ One count per flash per grid cell, optionally weighted. """
    while True:
        events, flashes, x, y, z = (yield)
        if len(x) == 0:
            continue
        xi = np.floor((np.asarray(x)-x0)/dx).astype('i8')
        yi = np.floor((np.asarray(y)-y0)/dy).astype('i8')
        key = np.rec.fromarrays([events[flash_id_key], xi, yi])
        _, idx = np.unique(key, return_index=True)
        weights = np.ones(len(idx))
        if weight_key is not None:
            lookup = dict(zip(flashes[flash_id_key], flashes[weight_key]))
            weights = np.asarray([lookup[f] for f in events[flash_id_key][idx]])
        if event_grid_area_fraction_key is not None:
            weights = weights*events[event_grid_area_fraction_key][idx]
        target.send((x0+(xi[idx]+0.5)*dx, y0+(yi[idx]+0.5)*dy, weights))

@coroutine
def project(x_coord, y_coord, z_coord, mapProj, geoProj, target,
            use_flashes=False, transform=True):
    while True:
        events, flashes = (yield)
        points = flashes if use_flashes else events
        x, y, z = mapProj.fromECEF(*geoProj.toECEF(
            points[x_coord], points[y_coord], points[z_coord]))
        target.send((events, flashes, np.atleast_1d(x), np.atleast_1d(y),
                     np.atleast_1d(z)))

@coroutine
def no_projection(x_coord, y_coord, z_coord, target, use_flashes=False):
    while True:
        events, flashes = (yield)
        points = flashes if use_flashes else events
        target.send((events, flashes, points[x_coord], points[y_coord],
                     points[z_coord]))

@coroutine
def flash_count_log(logfile, format_string="%s flashes in frame starting at %s"):
    while True:
        n_flashes, frame_start_time = (yield)
        if logfile is not None:
            logfile.write((format_string + '\n') % (n_flashes, frame_start_time))

@coroutine
def extract_events_for_flashes(target, flashID_key='flash_id'):
    while True:
        events, flashes = (yield)
        keep = np.isin(events[flashID_key], flashes[flashID_key])
        target.send((events[keep], flashes))

@coroutine
def flashes_to_frames(time_edges, targets, time_key='start', do_events=False,
                      time_edges_datetime=None, flash_counter=None):
    """ Route flashes to half-open time frames [t0, t1) by their time_key.
        With do_events naming a time variable, route the events by that
        variable too; otherwise every frame sees all the events.
    """
    if time_edges_datetime is None:
        time_edges_datetime = time_edges
    assert len(time_edges) == len(time_edges_datetime)
    assert len(time_edges) == len(targets)+1
    while True:
        events, flashes = (yield)
        order = np.argsort(flashes[time_key], kind='stable')
        idx = np.searchsorted(flashes[time_key][order], time_edges)
        if do_events:
            ev_order = np.argsort(events[do_events], kind='stable')
            ev_idx = np.searchsorted(events[do_events][ev_order], time_edges)
        for k, target in enumerate(targets):
            these_flashes = flashes[order][idx[k]:idx[k+1]]
            if flash_counter is not None:
                flash_counter.send((len(these_flashes), time_edges_datetime[k]))
            if do_events:
                target.send((events[ev_order][ev_idx[k]:ev_idx[k+1]], these_flashes))
            else:
                target.send((events, these_flashes))
