"""T08: a batch-queue job mirrors the queue's view of the job."""
import copy
import time

from sim import batch, gen, trackers
from sim.faults import Faults
from sim.kernel import Violation, harness
from sim.runner import Check
from . import tracking
from xboa.tracking.tracking_process import BSubProcess


class T08(Check):
    def scenario(self, sim):
        ch = sim.ch
        tracking.setup(sim)
        sim.tick = ch.pick([0.001, 0.0001, 0.005])
        sim.quanta = ch.pick([[1, 2, 4, 8], [1, 1, 2, 3], [8, 32]])
        sim.max_steps = 300000
        sim.base_parent = None
        self.slack = 10.0
        tracker = trackers.scripted_tracker(ch, fail=ch.chance(0.3))
        if ch.chance(0.2):
            tracker = trackers.Exiting("exit", ch.pick([0, 2, 255]))
        if ch.chance(0.06):
            return self.no_batch_system(sim, tracker)
        self.cluster = c = batch.Cluster(sim, tracking.WORKER)
        if ch.chance(0.3):
            c.flaky = 0.1
        if ch.chance(0.2):
            Faults(sim, ["spawn"], 2)
        ref = self.ref = copy.deepcopy(tracker)
        jobs = []
        for i in range(ch.between(1, 2)):
            queue = ch.pick(["short", "medium", "xxl"])
            limit = ch.pick(["0:10", "30", "12:00"])
            job = self.attempt(sim, "make", lambda: BSubProcess(tracker, queue, limit))
            if job is None:
                return
            jobs.append({"job": job, "queue": queue, "limit": limit, "sub": None,
                         "hits": None, "sure": True})
            if ch.chance(0.85):
                jobs[-1]["hits"] = gen.hits(ch, ch.n(4), rich=False)
                job.set_hit_list(jobs[-1]["hits"])
        for step in range(ch.many(3, 12, 50)):
            e = jobs[ch.n(len(jobs))]
            op = ch.wpick([("start", 5), ("alive", 6), ("join", 3), ("kill", 2),
                           ("terminate", 1), ("set", 3), ("sleep", 4), ("get", 3)])
            if op == "sleep":
                time.sleep(ch.pick([0.05, 1.0, 10., 70.]))
            elif op == "set":
                if e["sub"] is not None and e["sub"].alive:
                    continue
                e["hits"] = gen.hits(ch, ch.n(4), rich=False)
                e["job"].set_hit_list(e["hits"])
            else:
                getattr(self, op)(sim, e)
        for e in jobs:
            self.alive(sim, e)
            if e["sub"] is not None and not c.flaky and ch.chance(0.5):
                self.join(sim, e)
                self.get(sim, e, ref)
        sim.nontrivial = bool(c.submissions)

    def attempt(self, sim, op, fn, excuse=False):
        fired = len(sim.faults.fired) if sim.faults else 0
        flakes = sum(v for k, v in sim.fault_counts.items() if k.endswith("_failed"))
        try:
            r = fn()
            return True if r is None else r
        except Exception as exc:
            now = sum(v for k, v in sim.fault_counts.items() if k.endswith("_failed"))
            if not excuse and now == flakes and (
                    len(sim.faults.fired) if sim.faults else 0) == fired:
                raise
            sim.summary.append("%s: %s" % (op, type(exc).__name__))
            exc.__traceback__ = None
            return None

    def no_batch_system(self, sim, tracker):
        try:
            BSubProcess(tracker, "short", "0:10")
        except ImportError as exc:
            exc.__traceback__ = None
            sim.summary.append("no batch system")
            sim.nontrivial = True
            return
        raise Violation("setup", "no batch system, but no error")

    def start(self, sim, e):
        job, c = e["job"], self.cluster
        n = len(c.submissions)
        before = e["sub"] is not None and e["sub"].alive
        r = self.attempt(sim, "start", job.start, before)
        after = e["sub"] is not None and e["sub"].alive
        new = c.submissions[n:]
        if after and (r or new):
            raise Violation("start", "a job that was alive was started again")
        if r and len(new) != 1:
            raise Violation("start", "start submitted %d jobs" % len(new))
        if len(new) > 1:
            raise Violation("start", "start submitted %d jobs" % len(new))
        if not r:
            if new or not before:
                # a submission whose answer was lost, or none
                e["sub"], e["sure"] = None, False
            elif not after:
                e["sub"], e["sure"] = None, False
            return
        sub = new[0]
        e["sub"], e["sure"], e["ran"] = sub, True, e["hits"]
        sim.summary.append("started as %d" % sub.number)
        if sub.options.get("-q") != e["queue"]:
            raise Violation("start", "submitted to queue %s instead of %s" % (
                sub.options.get("-q"), e["queue"]))
        if sub.options.get("-W") != e["limit"]:
            raise Violation("start", "submitted with time limit %s instead of %s" % (
                sub.options.get("-W"), e["limit"]))
        if job.out_dir not in sub.args or not sim.fs.h_exists(job.out_dir):
            raise Violation("start", "submitted %s without the working directory %s" % (
                sub.args, job.out_dir))
        if job.pid != sub.number:
            raise Violation("number", "the job number is %r instead of %d" % (
                job.pid, sub.number))

    def alive(self, sim, e):
        job, sub = e["job"], e["sub"]
        before = sub is not None and sub.alive
        r = self.attempt(sim, "is_alive", lambda: ("says", job.is_alive()),
                         not e["sure"])
        if r is None or not e["sure"]:
            return
        says = r[1]
        after = sub is not None and sub.alive
        if says and not before:
            raise Violation("alive", "reports alive but the queue lists the job as %s"
                            % (sub.status if sub else "never submitted"))
        if not says and after:
            raise Violation("alive", "reports dead but the queue lists the job as %s"
                            % sub.status)
        if sub is not None and not before:
            want = sub.exitcode or 0
            if job.exitcode != want or isinstance(job.exitcode, bool) or \
                    not isinstance(job.exitcode, int):
                raise Violation("exit code", "the exit code is %r instead of %r" % (
                    job.exitcode, want))
            sim.probe("exit_%s" % sub.exitcode)
        if sub is not None and job.pid != sub.number:
            raise Violation("number", "the job number has become %r" % job.pid)

    def waited(self, sim, e, op, timeout):
        job, sub = e["job"], e["sub"]
        t0 = sim.now
        r = self.attempt(sim, op, lambda: getattr(job, op)(timeout),
                         sub is None)
        t1 = sim.now
        if r is None or sub is None:
            return r
        limit = None if timeout is None else t0 + timeout
        end = sub.end_time if not sub.alive else None
        sim.summary.append("%s(%s) took %.2f" % (op, timeout, t1 - t0))
        if end is None and (limit is None or t1 < limit - 1e-6):
            raise Violation("early", "%s(%s) returned after %.3f s while the queue lists "
                            "the job as %s" % (op, timeout, t1 - t0, sub.status))
        due = min(x for x in (limit, max(end, t0) if end is not None else None)
                  if x is not None)
        if t1 > due + self.slack:
            raise Violation("late", "%s(%s) returned %.3f s late" % (op, timeout, t1 - due))
        return r

    def join(self, sim, e):
        sub = e["sub"]
        timeout = sim.ch.pick([None, 0.0, 2.0, 100.])
        if self.cluster.flaky:
            timeout = 2.0
        self.waited(sim, e, "join", timeout)

    def kill(self, sim, e, op="kill"):
        c, sub = self.cluster, e["sub"]
        n = len(c.kills)
        timeout = sim.ch.pick([None, 5.0, 0.0])
        if c.flaky:
            timeout = 5.0
        r = self.waited(sim, e, op, timeout)
        asked = [k for k, _ in c.kills[n:]]
        if not e["sure"]:
            return
        if sub is None:
            if r is not None:
                raise Violation("kill", "%s of a job that was never started raised no "
                                "error" % op)
            if asked:
                raise Violation("kill", "%s of a job that was never started asked for %s"
                                % (op, asked))
        elif r is not None and sub.number not in asked and sub.alive:
            raise Violation("kill", "%s did not ask the queue" % op)
        if [k for k in asked if sub is None or k != sub.number]:
            raise Violation("kill", "%s asked the queue to kill %s" % (op, asked))

    def terminate(self, sim, e):
        self.kill(sim, e, "terminate")

    def get(self, sim, e, ref=None):
        ref = self.ref
        job, sub = e["job"], e["sub"]
        dead = sub is not None and not sub.alive
        expected = None
        if ref is not None and e.get("ran") is not None:
            try:
                expected = tracking.serial_cost(sim, ref, e["ran"])
            except (trackers.TrackerFailed, SystemExit):
                pass
        try:
            value = job.get_return_value()
        except Exception as exc:
            exc.__traceback__ = None
            if expected is not None and sub is not None and sub.exitcode == 0 and dead and \
                    e["sure"] and not self.cluster.flaky \
                    and not sim.faults:
                raise Violation("result", "no result of a job that is done: %s" % exc)
            return
        if e["sure"] and (sub is None or sub.alive):
            raise Violation("result", "a result of a job that has not ended")
        if e["sure"] and sub is not None:
            if expected is None:
                raise Violation("result", "a result of a job that failed")
            tracking.check_same(sim, expected, value, "batch job")


CHECK = T08()
