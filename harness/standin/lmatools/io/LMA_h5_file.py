class LMAh5Collection(object):
    """ Iterates (events, flashes) for each file, in time order. """
    def __init__(self, filenames, base_date=None, min_points=10):
        self.base_date = base_date
        self.min_points = min_points
        self._filenames = filenames
        self._time_lookup = {}
        self.times = sorted(t for fname in filenames
                            for t in self._table_times_for_file(fname))

    def __iter__(self):
        for t in self.times:
            yield self.data_for_time(t)
