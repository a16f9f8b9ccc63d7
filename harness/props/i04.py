"""I04: opening imagery files as one series."""
import datetime as dt
import os
import random
import xarray as xr
import imagery
from core import nearest
from series import image, multifile, stamp


def one(ctx, seed, large=False):
    from glmtools.io.imagery import open_glm_time_series
    rng = random.Random(seed)
    # runs of frames apart from each other, on one grid
    n, corner = (rng.randrange(2, 5), rng.randrange(1, 5)), (rng.randrange(-90, 80)*2.**-10, rng.randrange(-90, 80)*2.**-10)
    runs, files, k = rng.randrange(1, 4), [], 0
    start = None
    scaled = rng.random() < .8
    while k < runs:
        c = imagery.Grids(rng, n=n, frames=rng.choice([12, 20] if large else [1, 1, 2, 3]), kind='wide', empty=rng.choice([.1, .5, 1.]),
                          start=start, interval=rng.choice([20, 60, 60, 300, 7200]), cell=(2.**-12, 2.**-11), corner=corner,
                          nadir=-75.)
        where = os.path.dirname(ctx.path())
        files += c.g.write_grids(outpath=os.path.join(where, '{dataset_name}'), output_kwargs=dict(scale_and_offset=scaled))
        start = c.g.t_edges[-1] + rng.choice([0, 0, 1, 5, 100])*(c.g.t_edges[1]-c.g.t_edges[0])
        if rng.random() < .3:
            # shorter or longer frames that start within the ones before
            start = c.g.t_edges[0] + dt.timedelta(seconds=7)
        k += 1
    order = rng.choice(['forward', 'backward', 'any', 'any', 'some'])
    if order == 'backward':
        files = files[::-1]
    elif order != 'forward':
        rng.shuffle(files)
    if order == 'some':
        files = files[:rng.randrange(1, len(files)+1)]
    # a file named twice is two frames of one time
    twice = rng.random() < .1
    if twice:
        files.insert(rng.randrange(len(files)+1), rng.choice(files))
    given = []
    for f in files:
        with xr.open_dataset(f) as d:
            d.load()
        given.append(dict(time=imagery.seconds(d.attrs['time_coverage_start']), end=imagery.seconds(d.attrs['time_coverage_end']),
                          img=image(d)))
        x, y = ([nearest(v, 1e-7) for v in d[k].values] for k in 'xy')

    def work():
        with multifile():
            s = open_glm_time_series(list(files))
            return dict(times=[stamp(t) for t in s.time.values], imgs=[image(s.isel(time=k)) for k in range(s.sizes['time'])],
                        picked=[] if twice else [image(s.sel(time=t)) for t in s.time.values],
                        x=[nearest(v, 1e-7) for v in s.x.values], y=[nearest(v, 1e-7) for v in s.y.values],
                        start=imagery.seconds(s.attrs['time_coverage_start']), end=imagery.seconds(s.attrs['time_coverage_end']))
    ctx.begin()
    res, err = ctx.call(work)
    ctx.event('series', files=given, x=x, y=y, res=res if not err else {}, err=err)


def large(ctx, seed):
    one(ctx, seed, large=True)


def run(ctx):
    ctx.model_check('MCImageSeries')
    rng = ctx.rng('cases')
    ctx.parallel(one, [rng.random() for i in range(ctx.scale(100, 1200))])
    ctx.parallel(large, [rng.random() for i in range(ctx.scale(6, 40))])
    ctx.validate('TraceImageSeries')
