from datetime import datetime, timedelta
import numpy as np

class TimeSeriesGenericFlashSubset(object):
    """ Chops events and flashes from self.lma into windows between t_start and t_end. """
    def __init__(self, t_start, t_end, dt, base_date=None):
        if base_date is None:
            base_date = datetime(t_start.year, t_start.month, t_start.day)
        self.base_date = base_date
        n = int(np.ceil((t_end-t_start).total_seconds()/dt.total_seconds()))
        self.t_edges = [t_start + i*dt for i in range(n+1)]
        self.t_edges_sec = [(t-base_date).total_seconds() for t in self.t_edges]

    def gen_chopped_events_flashes(self, *args, **kwargs):
        for events, flashes in self.lma:
            e = [events[(events['time'] >= a) & (events['time'] < b)]
                 for a, b in zip(self.t_edges_sec[:-1], self.t_edges_sec[1:])]
            f = [flashes[(flashes['start'] >= a) & (flashes['start'] < b)]
                 for a, b in zip(self.t_edges_sec[:-1], self.t_edges_sec[1:])]
            yield e, f
