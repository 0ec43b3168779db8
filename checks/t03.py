"""T03: a job's result belongs to its most recent start."""
import copy
import time

from sim import gen, trackers
from sim.kernel import Violation, harness
from sim.runner import Check
from . import tracking
from .tracking import ThisNodeProcess

KINDS = ("enospc", "eio", "eacces", "emfile", "spawn", "kill")


class T03(Check):
    def scenario(self, sim):
        ch = sim.ch
        tracking.setup(sim, ch.subset(KINDS, 0.5) if ch.chance(0.7) else (), 3)
        tracking.mark_killable(sim)
        watch = tracking.Watch(sim)
        if ch.chance(0.2):
            def stubborn(proc):
                proc.ignore_term = True
            watch.setup = stubborn
        tracker = trackers.scripted_tracker(ch, fail=ch.chance(0.3))
        ref = copy.deepcopy(tracker)
        try:
            job = ThisNodeProcess(tracker)
        except Exception:
            if tracking.no_faults(sim):
                raise
            return
        other = None
        lists = [None]             # lists that may be set
        started = None             # lists of which the latest start may be
        event = 0
        for step in range(ch.many(3, 12, 50)):
            op = ch.wpick([("set", 4), ("start", 5), ("join", 3), ("get", 5),
                           ("sleep", 2), ("kill", 2), ("terminate", 1), ("strike", 1),
                           ("copy", 1)])
            if op == "set":
                if watch.alive():
                    continue       # the worker may not have read its list yet
                hits = []
                for _ in range(ch.n(4)):
                    hits.append(gen.make_hit(ch, event, rich=False))
                    event += 1
                new = [h.deepcopy() for h in hits]
                if self.attempt(sim, "set", lambda: job.set_hit_list(hits)):
                    lists = [new]
                else:
                    lists = lists + [new]
            elif op == "start":
                alive = watch.alive()
                n = len(watch.procs)
                if n and not alive and ch.chance(0.4):
                    # a rerun that is killed early, perhaps before it did anything
                    tracking.random_killer(sim, ch.pick([0.001, 0.02, 0.2]))
                self.attempt(sim, op, job.start, alive or len(watch.procs) > n)
                if len(watch.procs) > n or not alive:
                    started = list(lists) if len(watch.procs) > n else []
            elif op == "join":
                self.attempt(sim, op, lambda: job.join(ch.pick([None, 0.5])))
            elif op == "sleep":
                time.sleep(ch.pick([0.0, 0.02, 0.3, 4.0]))
            elif op in ("kill", "terminate"):
                sim.fault_counts["external_by_caller"] = 1
                self.attempt(sim, op, lambda: getattr(job, op)(1.0), True)
            elif op == "strike":
                tracking.random_killer(sim, 3.0)
            elif op == "copy":
                self.attempt(sim, op, lambda: copy.deepcopy(job))
            else:
                self.get(sim, job, ref, watch, started)
        if watch.procs:
            job.join()
        self.get(sim, job, ref, watch, started)
        sim.nontrivial = len(watch.procs) > 1

    def attempt(self, sim, op, fn, may_fail=False):
        try:
            fn()
            sim.summary.append(op)
            return True
        except Exception as exc:
            if not may_fail and tracking.no_faults(sim):
                raise
            sim.summary.append("%s: %s" % (op, type(exc).__name__))
            exc.__traceback__ = None
            return False

    def get(self, sim, job, ref, watch, started):
        proc = watch.last
        dead_before = proc is not None and proc.dead
        try:
            value = job.get_return_value()
        except Exception as exc:
            sim.summary.append("get: %s" % type(exc).__name__)
            if dead_before and started and started != [None] and \
                    proc.exitcode == 0 and tracking.no_faults(sim):
                raise
            exc.__traceback__ = None
            return
        sim.summary.append("get: %d results" % len(value))
        if proc is None:
            raise Violation("result", "a job that was never started returned a value")
        if not proc.dead:
            raise Violation("result", "a job that is still running returned a value")
        if not started:
            raise Violation("result", "a job that failed to start returned a value")
        with harness(sim):
            got = gen.plain_lists(value)
        for hits in started:
            if hits is None:
                continue
            try:
                expected = tracking.serial_cost(sim, ref, hits)
            except trackers.TrackerFailed:
                continue
            with harness(sim):
                if gen.differ(gen.plain_lists(expected), got) is None:
                    return
        raise Violation("result", "the value is not the output for the list that was "
                        "set at the most recent start: %s" % [
                            [gen.as_text(h) for h in x] for x in value])


CHECK = T03()
