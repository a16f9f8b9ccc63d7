"""Stand-in for the parts of lmatools that glmtools imports.

lmatools is a dependency of glmtools that is not installed in this sandbox and
cannot be downloaded.  This package provides the names glmtools uses, with the
behaviour of lmatools' documented pipeline stages (coroutine plumbing, time
framing, histogram accumulation, the GOES-R fixed grid).  It is part of the
trusted environment model of the checks, not code under test.
"""
