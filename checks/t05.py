"""T05: waiting ends when the job ends or the time limit passes."""
import copy
import time

from sim import gen, trackers
from sim.kernel import Violation
from sim.runner import Check
from . import tracking
from .tracking import MultiTrack, ThisNodeProcess


class T05(Check):
    def scenario(self, sim):
        ch = sim.ch
        tracking.setup(sim)
        sim.tick = ch.pick([0.001, 0.0001, 0.005])
        sim.quanta = ch.pick([[1, 2, 4, 8], [1, 1, 2, 3], [8, 32]])
        sim.poll_step = 0.5
        sim.max_steps = 400000
        self.slack = 4.0
        watch = tracking.Watch(sim)
        stubborn = ch.chance(0.3)
        hung = ch.chance(0.3)

        def setup(proc):
            proc.ignore_term = stubborn
        watch.setup = setup
        self.jumps(sim)
        length = ch.pick([0.0, 0.1, 1.0, 7.0, 60., 900.])
        if hung:
            length = 1e5
        tracker = trackers.Scripted(pre_delay=length, lengths=(2,))
        ref = copy.deepcopy(tracker)
        sim.summary.append("work for %g s, %s" % (length, "ignores SIGTERM" if stubborn
                                                  else ""))
        if not hung and ch.chance(0.3):
            return self.distributed(sim, tracker, watch)
        hits = gen.hits(ch, ch.n(4), rich=False)
        expected = tracking.serial_cost(sim, ref, hits)
        job = ThisNodeProcess(tracker)
        job.set_hit_list(hits)
        if ch.chance(0.3):
            t0 = sim.now
            job.join(ch.pick([None, 0.0, 3.0]))
            if sim.now - t0 > self.slack:
                raise Violation("join", "waited for a job that was never started")
        job.start()
        proc = watch.last
        for step in range(ch.many(1, 5, 25)):
            op = ch.wpick([("join", 6), ("sleep", 2), ("terminate", 1), ("kill", 1)])
            if op == "sleep":
                time.sleep(ch.pick([0.1, 1.0, 10.]))
                continue
            timeout = ch.pick([None, 0.0, 0.5, 3, 20.0, 100., 1000.])
            sure = op == "kill" or (op == "terminate" and not stubborn)
            if timeout is None and hung and not sure:
                timeout = 20.0
            t0 = sim.now
            was = proc.dead
            getattr(job, op)(timeout)
            t1 = sim.now
            end = proc.end_time if proc.dead else None
            sim.summary.append("%s(%s) took %.2f s" % (op, timeout, t1 - t0))
            limit = None if timeout is None else t0 + max(0, timeout)
            # not before either
            if end is None and (limit is None or t1 < limit - 1e-6):
                raise Violation("early", "%s(%s) returned after %.3f s while the "
                                "worker is alive" % (op, timeout, t1 - t0))
            # soon after one of them
            due = min(x for x in (limit, max(end, t0) if end is not None else None)
                      if x is not None)
            if t1 > due + self.slack:
                raise Violation("late", "%s(%s) returned %.3f s after it should have"
                                % (op, timeout, t1 - due))
            if op == "join" and proc.dead and not was and proc.exitcode != 0:
                raise Violation("job", "the job ended with %s while it was waited for"
                                % proc.exitcode)
            if op == "kill" and not proc.dead and timeout is None:
                raise Violation("job", "the job survived kill")
            if op == "terminate" and stubborn and proc.dead and \
                    proc.exitcode not in (0,) and not was:
                raise Violation("job", "terminate is not a soft exit")
            if proc.dead:
                break
        if proc.dead and proc.exitcode == 0:
            tracking.check_same(sim, expected, job.get_return_value(), "after waiting")
        sim.nontrivial = True

    def jumps(self, sim):
        """the wall clock is set at some times"""
        ch = sim.ch
        for _ in range(ch.n(4)):
            when = sim.now + ch.pick([0.01, 0.3, 2., 9., 50., 500.]) * (1 + ch.n(4))
            by = ch.pick([-3600., 3600., -1e6, 1e6, -1.0, 30., -30.])

            def jump(by=by):
                sim.wall_offset += by
                sim.count("clock_jump")
            sim.at(when, jump)

    def distributed(self, sim, tracker, watch):
        ch = sim.ch
        multi = MultiTrack(ch.between(1, 3), ThisNodeProcess(tracker))
        hits = gen.hits(ch, ch.n(5), rich=False)
        killed = ch.chance(0.5)
        if killed:
            tracking.random_killer(sim, tracker.pre_delay + 1.)
        try:
            multi.track_many(hits)
            ok = True
        except Exception as exc:
            if not killed:
                raise
            ok = False
            exc.__traceback__ = None
        t1 = sim.now
        last = max(p.end_time for p in watch.procs if p.dead)
        alive = [p for p in watch.procs if not p.dead]
        sim.summary.append("track_many: %s" % ok)
        if alive:
            raise Violation("early", "track_many returned while workers are alive")
        if t1 > last + self.slack:
            raise Violation("late", "track_many returned %.3f s after its workers had "
                            "ended" % (t1 - last))
        sim.nontrivial = True


CHECK = T05()
