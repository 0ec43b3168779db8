"""T02: a failed worker never turns into a silently wrong result."""
import copy
import time

from sim import gen, trackers
from sim.kernel import Violation, harness
from sim.runner import Check
from . import tracking
from .tracking import MultiTrack, ThisNodeProcess

FAILED = object()
KINDS = ("enospc", "eio", "eacces", "emfile", "spawn", "kill")


class T02(Check):
    def scenario(self, sim):
        ch = sim.ch
        kinds = ch.subset(KINDS, 0.6)
        tracking.setup(sim, kinds, 3)
        tracking.mark_killable(sim)
        if ch.chance(0.08):
            # ends its worker without delivering anything, in an orderly way
            tracker = trackers.scripted_tracker(ch, cls=trackers.Exiting)
            tracker.way = ch.pick(["exit", "_exit"])
            tracker.code = 0
            ref = None
        else:
            tracker = trackers.any_tracker(ch, fail=True)
            ref = copy.deepcopy(tracker)
        n_proc = ch.wpick([(1, 2), (2, 4), (3, 4), (4, 2)])
        sim.summary.append("%d processes, %s" % (n_proc, type(tracker).__name__))
        job = self.attempt(sim, lambda: ThisNodeProcess(tracker))
        multi = None
        for call in range(ch.between(1, 3)):
            if job is FAILED:
                job = self.attempt(sim, lambda: ThisNodeProcess(tracker))
                multi = None
                if job is FAILED:
                    continue
            if multi is None:
                multi = MultiTrack(n_proc, job)
            how = ch.wpick([("track_many", 4), ("async", 4), ("single", 3)])
            n = ch.wpick([(0, 1), (1, 2), (2, 2), (3, 3), (5, 3), (9, 1), (30, 0.3)])
            if ref is None:
                n = max(n, 1)
            hits = gen.hits(ch, n, rich=False)
            expected = self.expected(sim, ref, hits)
            sim.summary.append("%s of %d hits%s" % (how, n, " (tracker fails)" if
                                                    expected is None else ""))
            if ch.chance(0.4):
                tracking.random_killer(sim)
            getattr(self, how)(sim, multi, hits, expected)
        # faults stop: the same objects work again
        sim.faults.stop() if sim.faults else None
        sim.timed = []
        job = ThisNodeProcess(tracker) if job is FAILED else job
        multi = multi or MultiTrack(n_proc, job)
        hits = gen.hits(ch, 3, rich=False)
        expected = self.expected(sim, ref, hits)
        if expected is not None:
            tracking.check_same(sim, expected, multi.track_many(hits),
                                "after the faults have stopped")
        sim.nontrivial = bool(sim.faults and sim.faults.fired) or any(
            k.startswith(("external", "result")) for k in sim.fault_counts)

    def expected(self, sim, ref, hits):
        if ref is None:
            return None
        try:
            return tracking.serial_cost(sim, ref, hits)
        except trackers.TrackerFailed:
            return None

    def disturbed(self, sim):
        return bool(sim.faults and sim.faults.fired) or any(
            k.startswith(("external", "result")) for k in sim.fault_counts)

    def attempt(self, sim, fn, failing=False):
        """None if it failed for a reason"""
        try:
            return fn()
        except Exception as exc:
            if not failing and not self.disturbed(sim):
                raise
            sim.summary.append("failed: %s" % type(exc).__name__)
            exc.__traceback__ = None
            return FAILED

    def judge(self, sim, expected, got, what):
        if got is FAILED:
            return
        if expected is None:
            raise Violation("result", "%s: the tracker failed for one of the hits but "
                            "%s is given" % (what, "None" if got is None else
                                             "%d results" % len(got)))
        tracking.check_same(sim, expected, got, what)

    def track_many(self, sim, multi, hits, expected):
        got = self.attempt(sim, lambda: multi.track_many(hits), expected is None)
        self.judge(sim, expected, got, "track_many")
        if got is FAILED:
            self.afterwards(sim, multi, hits, expected)

    def afterwards(self, sim, multi, hits, expected):
        """a call has failed: what is there of it?"""
        if expected is not None:
            tracking.check_same(sim, expected[:len(multi.last)], multi.last,
                                "last, after a call that failed")
        if not sim.ch.chance(0.5):
            return
        while any(job.is_alive() for job in multi.job_list):
            time.sleep(0.1)
        got = self.attempt(sim, multi.get_return_value, True)
        self.judge(sim, expected, got, "collecting after a call that failed")

    def async_(self, sim, multi, hits, expected):
        ch = sim.ch
        jobs = self.attempt(sim, lambda: multi.track_many_async(hits), expected is None)
        if jobs is FAILED:
            return self.afterwards(sim, multi, hits, expected)
        if ch.chance(0.3) and jobs:
            time.sleep(ch.pick([0.0, 0.1, 1.0]))
            job = jobs[ch.n(len(jobs))]
            sim.count("job_killed_by_caller")
            sim.fault_counts["external_by_caller"] = 1
            self.attempt(sim, job.kill if ch.chance(0.5) else job.terminate)
        while any(job.is_alive() for job in jobs):
            time.sleep(0.1)
        if ch.chance(0.3):
            tracking.damage_results(sim)
        for _ in range(ch.between(1, 2)):
            got = self.attempt(sim, multi.get_return_value, expected is None)
            self.judge(sim, expected, got, "collecting after all jobs have ended")

    def single(self, sim, multi, hits, expected):
        ch = sim.ch
        job = multi.tracking_job
        r = self.attempt(sim, lambda: (job.set_hit_list(hits), job.start()))
        if r is FAILED:
            return
        if ch.chance(0.2):
            time.sleep(ch.pick([0.0, 0.1, 1.0]))
            sim.fault_counts["external_by_caller"] = 1
            self.attempt(sim, job.kill)
        job.join()
        if ch.chance(0.3):
            tracking.damage_results(sim, job.out_dir)
        got = self.attempt(sim, job.get_return_value, expected is None)
        self.judge(sim, expected, got, "single job")


setattr(T02, "async", T02.async_)
CHECK = T02()
