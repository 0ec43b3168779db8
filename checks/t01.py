"""T01: parallel tracking equals serial tracking, for every schedule."""
import copy
import time

from sim import gen, trackers
from sim.kernel import Violation, harness
from sim.runner import Check
from . import tracking
from .tracking import MultiTrack, ThisNodeProcess


class T01(Check):
    def scenario(self, sim):
        ch = sim.ch
        tracking.setup(sim)
        tracker = trackers.any_tracker(ch)
        ref = copy.deepcopy(tracker)
        n_proc = ch.wpick([(1, 2), (2, 4), (3, 4), (4, 2), (5, 1), (8, 1), (12, 0.3)])
        sim.summary.append("%d processes, %s %s" % (n_proc, type(tracker).__name__, {
            k: v for k, v in tracker.__dict__.items() if k in (
                "delay", "pre_delay", "lengths", "together")}))
        job = ThisNodeProcess(tracker)
        multi = MultiTrack(n_proc, job)
        if ch.chance(0.1):
            tracking.check_same(sim, [], multi.get_return_value(), "before any call")
        for call in range(ch.between(1, 3)):
            how = ch.wpick([("track_many", 5), ("async", 4), ("track_one", 1)])
            n = ch.wpick([(0, 1), (1, 2), (2, 2), (3, 3), (5, 3), (7, 2), (12, 1), (30, 0.4), (90, 0.1)])
            if how == "track_one":
                n = 1
            hits = gen.hits(ch, n, pids=ch.pick([(-13,), (-13, 13, 211)]), rich=False)
            before = [gen.plain(h) for h in hits]
            sim.summary.append("%s of %d hits" % (how, n))
            expected = tracking.serial_cost(sim, ref, hits, how == "track_one")
            as_given = list(hits)
            if how == "track_one":
                got = [multi.track_one(hits[0])]
            elif how == "track_many":
                got = multi.track_many(hits)
            else:
                got = self.collect(sim, multi, hits, expected, n_proc)
            tracking.check_same(sim, expected, got, how)
            tracking.check_same(sim, expected, multi.last, how + ", last")
            with harness(sim):
                if len(hits) != len(as_given) or \
                        any(a is not b for a, b in zip(hits, as_given)):
                    raise Violation("input", "the caller's list of hits has changed")
                d = gen.differ(before, [gen.plain(h) for h in hits])
                if d is not None:
                    raise Violation("input", "the caller's hits have changed: " + d)
        sim.nontrivial = sim.switches > 2

    def collect(self, sim, multi, hits, expected, n_proc):
        """track_many_async, with early looks at the results"""
        ch = sim.ch
        jobs = multi.track_many_async(hits)
        if len(jobs) != n_proc:
            raise Violation("jobs", "%d jobs for %d processes" % (len(jobs), n_proc))
        with harness(sim):
            whole = [[gen.plain(h) for h in x] for x in expected]
        for look in range(ch.n(4)):
            time.sleep(ch.pick([0.0, 0.05, 0.5, 3.0]))
            alive = [job.is_alive() for job in jobs]
            ended = [job.get_return_value() for job, a in zip(jobs, alive) if not a]
            part = multi.get_return_value()
            with harness(sim):
                part = [[gen.plain(h) for h in x] for x in part]
                if not tracking.is_ordered_part(whole, part):
                    raise Violation("early", "early results are not a part of the "
                                    "serial results in their order")
                ended = [[gen.plain(h) for h in x] for y in ended for x in y]
                if not tracking.is_ordered_part(part, ended):
                    raise Violation("early", "%d results of jobs that have ended are not "
                                    "among the %d early results" % (len(ended), len(part)))
                if not any(alive) and len(part) != len(whole):
                    raise Violation("early", "all jobs had ended but only %d of %d "
                                    "results are given" % (len(part), len(whole)))
                if len(part) and len(part) < len(whole):
                    sim.probe("partial_results")
        if ch.chance(0.5):
            for job in ch.shuffled(jobs):
                job.join()
        else:
            while any(job.is_alive() for job in jobs):
                time.sleep(0.1)
        return multi.get_return_value()


CHECK = T01()
