"""T04: job lifecycle calls and reports are truthful."""
import copy
import time

from sim import gen, trackers
from sim.kernel import Violation
from sim.runner import Check
from . import tracking
from .tracking import ThisNodeProcess


class T04(Check):
    def scenario(self, sim):
        ch = sim.ch
        kinds = ch.subset(("spawn", "kill", "eio", "enospc"), 0.5)
        tracking.setup(sim, kinds, 2, lambda proc, op, path:
                       proc.role == tracking.WORKER or op == "spawn")
        tracking.mark_killable(sim)
        watch = self.watch = tracking.Watch(sim)
        if ch.chance(0.25):
            def stubborn(proc):
                proc.ignore_term = True
            watch.setup = stubborn
        sim.signal_delay = ch.pick([0, 0, 0.05, 2.0])
        if ch.chance(0.4):
            way = ch.pick(["exit", "_exit", "signal"])
            code = ch.pick([9, 15, 11]) if way == "signal" else ch.pick([0, 1, 3, 255])
            tracker = trackers.Exiting(way, code, delay=ch.pick([0.0, 0.2]))
        else:
            tracker = trackers.scripted_tracker(ch, fail=True)
        jobs = []
        for i in range(ch.between(1, 2)):
            job = ThisNodeProcess(copy.deepcopy(tracker))
            job.set_hit_list(gen.hits(ch, ch.n(4), rich=False))
            jobs.append([job, None, False])       # job, its worker, start tried
        for step in range(ch.many(3, 14, 60)):
            e = jobs[ch.n(len(jobs))]
            op = ch.wpick([("alive", 5), ("start", 5), ("join", 2), ("sleep", 3),
                           ("kill", 2), ("terminate", 2), ("strike", 1), ("code", 3),
                           ("get", 1)])
            if op == "sleep":
                time.sleep(ch.pick([0.0, 0.02, 0.3, 4.0, 30.]))
            elif op == "strike":
                tracking.random_killer(sim, 3.0)
            elif op == "start":
                self.start(sim, e)
            elif op in ("kill", "terminate"):
                self.end(sim, e, op)
            elif op == "join":
                e[0].join(ch.pick([None, 0.2]))
            elif op == "get":
                try:
                    e[0].get_return_value()
                except Exception:
                    pass
            else:
                self.alive(sim, e)
            if op == "code" or op == "alive":
                self.code(sim, e)
        sim.nontrivial = len(watch.procs) > 1

    def start(self, sim, e):
        job, proc, _ = e
        alive = proc is not None and not proc.dead
        n = len(self.watch.procs)
        fired = len(sim.faults.fired) if sim.faults else 0
        try:
            job.start()
            ok = True
        except Exception as exc:
            ok = False
            if not alive and (len(sim.faults.fired) if sim.faults else 0) == fired \
                    and not (proc is not None and proc.end_time is not None
                             and proc.end_time >= sim.now - 1e-9):
                raise
            exc.__traceback__ = None
        new = self.watch.procs[n:]
        still = proc is not None and not proc.dead
        sim.summary.append("start: %s" % ok)
        if still and (ok or new):
            raise Violation("start", "a job that was alive was started again")
        if ok and len(new) != 1:
            raise Violation("start", "start launched %d workers" % len(new))
        if not ok and new and not new[0].dead:
            raise Violation("start", "start raised an error but launched a worker")
        if new:
            e[1] = new[-1]
            if job.pid != new[-1].pid:
                raise Violation("start", "the job's pid is %s, not %d" % (
                    job.pid, new[-1].pid))
        elif not ok and not still:
            e[1] = None
            e[2] = True

    def end(self, sim, e, op):
        job, proc, tried = e
        ch = sim.ch
        alive = proc is not None and not proc.dead
        timeout = ch.pick([None, None, 0.0, 1.0])
        if op == "terminate" and proc is not None and proc.ignore_term and timeout is None:
            # would rightly wait for the worker's own end
            if ch.chance(0.5):
                timeout = 1.0
        n = len(self.watch.procs)
        try:
            getattr(job, op)(timeout)
            ok = True
        except Exception as exc:
            ok = False
            if proc is not None:
                raise
            exc.__traceback__ = None
        sim.summary.append("%s(%s): %s" % (op, timeout, ok))
        if proc is None:
            if ok and not tried:
                raise Violation("end", "%s of a job that was never started raised no "
                                "error" % op)
            return
        if len(self.watch.procs) != n:
            raise Violation("end", "%s launched a worker" % op)
        if timeout is None and not proc.dead:
            raise Violation("end", "%s returned but the worker is alive" % op)
        if proc.dead and timeout is None and job.exitcode != proc.exitcode:
            raise Violation("exit code", "after %s the exit code is %r instead of %r"
                            % (op, job.exitcode, proc.exitcode))
        if alive and op == "kill" and timeout is None and proc.exitcode is None:
            raise Violation("end", "no exit code")

    def alive(self, sim, e):
        job, proc, tried = e
        before = proc is not None and not proc.dead
        says = job.is_alive()
        after = proc is not None and not proc.dead
        if says and not before:
            raise Violation("alive", "reports alive but the worker %s" % (
                "had ended" if proc is not None else "was never started"))
        if not says and after:
            raise Violation("alive", "reports dead but the worker is alive")
        return says

    def code(self, sim, e):
        job, proc, tried = e
        if proc is None or not proc.dead:
            return
        if job.is_alive():
            raise Violation("alive", "reports alive but the worker had ended")
        if job.exitcode != proc.exitcode or isinstance(job.exitcode, bool):
            raise Violation("exit code", "the exit code is %r instead of %r" % (
                job.exitcode, proc.exitcode))
        sim.probe("exitcode_%s" % proc.exitcode)


CHECK = T04()
