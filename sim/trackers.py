"""
Trackers for simulated jobs.  They have to be importable, as jobs are pickled.
All but the matrix tracker of the library itself are user code as far as the
library is concerned.
"""
import time

import numpy

from xboa.tracking import TrackingBase, MatrixTracking, TimeoutTracking


class TrackerFailed(Exception):
    """raised by a tracker on request"""


def matrix_tracker(ch):
    """a tracker of the library, with one to three planes"""
    n = ch.between(0, 3)
    mats, offs = [], []
    for i in range(n):
        m = numpy.identity(6)
        for j in range(4):
            m[ch.n(4), ch.n(4)] = ch.between(-8, 8) / 8.
        mats.append(numpy.matrix(m))
        offs.append(numpy.matrix([[ch.between(-3, 3) * 1.0 for _ in range(4)] +
                                  [ch.between(0, 50) * 1.0, 226. + i]]))
    start = numpy.matrix([[0., 0., 0., 0., 0., 226.]])
    if ch.chance(0.3):
        return TimeoutTracking(mats, offs, start, ch.pick([0., 0.2, 5., 20.]))
    return MatrixTracking(mats, offs, start)


class Scripted(TrackingBase):
    """
    Output depends only on the hit.  May take time, give different numbers of
    output hits, none at all, fail for some hits, or track all hits together.
    """
    def __init__(self, delay=0.0, together=False, lengths=(2,), fail_on=(),
                 tag=0.0, pre_delay=0.0):
        TrackingBase.__init__(self)
        self.delay = delay
        self.pre_delay = pre_delay
        self.together = together
        self.lengths = tuple(lengths)
        self.fail_on = tuple(fail_on)
        self.tag = tag

    def track_one(self, hit):
        ev = hit["eventNumber"]
        if ev in self.fail_on:
            raise TrackerFailed("event %d" % ev)
        if self.delay:
            time.sleep(self.delay * (1 + ev % 3))
        n = self.lengths[ev % len(self.lengths)]
        out = []
        for i in range(n):
            h = hit.deepcopy()
            h["station"] = i
            h["x"] = hit["x"] * (1 + i) + self.tag
            h["t"] = hit["t"] + 10. * i
            out.append(h)
        self.last = [out]
        return out

    def track_many(self, hits):
        if self.pre_delay:
            time.sleep(self.pre_delay)
        if not self.together:
            return TrackingBase.track_many(self, hits)
        out = [[] for _ in hits]
        for j, hit in reversed(list(enumerate(hits))):
            out[j] = self.track_one(hit)
        self.last = out
        return out


class Forgetful(Scripted):
    """does not keep anything in last"""
    def track_many(self, hits):
        out = Scripted.track_many(self, hits)
        self.last = []
        return out


class Counting(Scripted):
    """its answer depends on the number of calls made to this very object"""
    def __init__(self, **kw):
        Scripted.__init__(self, **kw)
        self.calls = 0

    def track_one(self, hit):
        self.calls += 1
        out = Scripted.track_one(self, hit)
        for h in out:
            h["x"] += 1000. * self.calls
        return out


def scripted_tracker(ch, fail=False, slow=True, scale=1.0, cls=Scripted):
    kw = {}
    if slow:
        kw["delay"] = ch.pick([0., 0.01, 0.2, 5.]) * scale
        kw["pre_delay"] = ch.pick([0., 0., 0.3, 20.]) * scale
    kw["together"] = ch.chance(0.3)
    kw["lengths"] = ch.pick([(2,), (1,), (0,), (0, 1, 3), (3, 1), (1, 0)])
    kw["tag"] = float(ch.n(5))
    if fail and ch.chance(0.5):
        kw["fail_on"] = tuple(ch.n(12) for _ in range(ch.between(1, 2)))
    return cls(**kw)


def any_tracker(ch, **kw):
    if ch.chance(0.35):
        return matrix_tracker(ch)
    return scripted_tracker(ch, cls=ch.pick([Scripted, Scripted, Forgetful]), **kw)


class Exiting(Scripted):
    """ends its own program in some way"""
    def __init__(self, way="exit", code=3, **kw):
        Scripted.__init__(self, **kw)
        self.way = way
        self.code = code

    def track_many(self, hits):
        import os
        import sys
        out = Scripted.track_many(self, hits)
        if self.way == "exit":
            sys.exit(self.code)
        elif self.way == "_exit":
            os._exit(self.code)
        elif self.way == "signal":
            os.kill(os.getpid(), self.code)
        return out
