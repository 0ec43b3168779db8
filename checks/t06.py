"""T06: jobs are isolated from each other and from the caller."""
import copy
import pickle
import time

from sim import gen, isolate, trackers
from sim.kernel import Violation, harness
from sim.runner import Check
from . import tracking


def state_of(tracker):
    return pickle.dumps(dict((k, v) for k, v in sorted(tracker.__dict__.items())))


class Program(object):
    """one client program; several run at the same time"""
    def __init__(self, sim, index, world):
        self.sim = sim
        self.index = index
        self.world = world
        self.done = False
        self.started = []          # [job, expected, proc or None, killed]

    def main(self):
        sim, ch = self.sim, self.sim.ch
        from xboa.tracking import MultiTrack
        from xboa.tracking.tracking_process import ThisNodeProcess
        self.tracker = trackers.scripted_tracker(ch)
        self.ref = copy.deepcopy(self.tracker)
        self.me = sim.current.proc
        jobs = []
        for _ in range(ch.between(1, 2)):
            job = ThisNodeProcess(self.tracker)
            self.world.own(self, job)
            jobs.append(job)
        for step in range(ch.between(1, 4)):
            op = ch.wpick([("single", 4), ("spread", 4), ("kill", 1), ("collect", 3),
                           ("sleep", 1), ("renew", 1)])
            if op == "sleep":
                time.sleep(ch.pick([0.0, 0.05, 0.5]))
            elif op == "renew":
                self.renew(jobs[ch.n(len(jobs))])
            elif op == "single":
                self.single(jobs[ch.n(len(jobs))])
            elif op == "spread":
                self.spread(MultiTrack, ThisNodeProcess)
            elif op == "kill" and self.started:
                e = self.started[ch.n(len(self.started))]
                if not e[2].dead:
                    e[3] = True
                e[0].kill()
            elif op == "collect" and self.started:
                self.collect(self.started[ch.n(len(self.started))], False)
        for e in self.started:
            self.collect(e, True)
        self.done = True

    def renew(self, job):
        """a job that is not running is given another directory"""
        if any(e[0] is job and not e[2].dead for e in self.started):
            return
        self.started = [e for e in self.started if e[0] is not job]
        old = job.out_dir
        new = job.new_out_dir()
        if new == old or job.out_dir != new:
            raise Violation("directory", "a job that used %s asks for a new directory "
                            "and gets %s, using %s" % (old, new, job.out_dir))
        self.world.own(self, job)

    def hits(self):
        ch = self.sim.ch
        return gen.hits(ch, ch.n(5), rich=False)

    def single(self, job):
        sim, ch = self.sim, self.sim.ch
        if any(e[0] is job and not e[2].dead for e in self.started):
            return
        self.started = [e for e in self.started if e[0] is not job]
        hits = self.hits()
        expected = tracking.serial_cost(sim, self.ref, hits)
        before = state_of(self.tracker)
        job.set_hit_list(hits)
        self.disturb(hits)
        plain = [gen.plain(h) for h in hits]
        n = len(self.world.spawned(self))
        job.start()
        self.started.append([job, expected, self.world.spawned(self)[n], False])
        self.unchanged(before, hits, plain, "running a job")
        sim.summary.append("%d: job on %d hits" % (self.index, len(expected)))

    def disturb(self, hits):
        """the caller goes on using its list"""
        ch = self.sim.ch
        if ch.chance(0.5):
            for h in hits:
                h["x"] = -77.
                h["station"] = 99
            if hits and ch.chance(0.5):
                del hits[0]
            hits.append(gen.make_hit(ch, 50, rich=False))

    def unchanged(self, before, hits, plain, what):
        if state_of(self.tracker) != before:
            raise Violation("tracker", "%s has changed the caller's tracker" % what)
        d = gen.differ(plain, [gen.plain(h) for h in hits])
        if d is not None:
            raise Violation("input", "%s has changed the caller's particles: %s"
                            % (what, d))

    def spread(self, MultiTrack, ThisNodeProcess):
        sim, ch = self.sim, self.sim.ch
        template = ThisNodeProcess(self.tracker)
        self.world.own(self, template)
        hits = self.hits()
        expected = tracking.serial_cost(sim, self.ref, hits)
        before = state_of(self.tracker)
        plain = [gen.plain(h) for h in hits]
        look = (template.out_dir, template.pid, template.exitcode,
                template.is_alive(), template.tracking is self.tracker)
        multi = MultiTrack(ch.between(1, 3), template)
        n = len(self.world.spawned(self))
        multi_jobs = list(multi.track_many_async(hits))
        procs = self.world.spawned(self)[n:]
        self.unchanged(before, hits, plain, "a distributed call")
        now = (template.out_dir, template.pid, template.exitcode,
               template.is_alive(), template.tracking is self.tracker)
        if now != look:
            raise Violation("template", "a distributed call has changed the template "
                            "job from %s to %s" % (look, now))
        for job in multi_jobs:
            self.world.own(self, job)
        self.disturb(hits)
        sim.summary.append("%d: %d hits over %d jobs" % (self.index, len(expected),
                                                         len(multi_jobs)))
        if ch.chance(0.5):
            while any(job.is_alive() for job in multi_jobs):
                time.sleep(0.1)
            got = multi.get_return_value()
            if not any(p.exitcode for p in procs):
                tracking.check_same(sim, expected, got, "distributed call")
        self.unchanged_tracker(before)

    def unchanged_tracker(self, before):
        if state_of(self.tracker) != before:
            raise Violation("tracker", "the caller's tracker has changed")

    def collect(self, e, wait):
        job, expected, proc, killed = e
        if wait:
            job.join()
        if not proc.dead or (killed and proc.exitcode != 0):
            return
        if proc.exitcode != 0:
            raise Violation("job", "a job that nobody killed ended with %s" %
                            proc.exitcode)
        tracking.check_same(self.sim, expected, job.get_return_value(),
                            "job of program %d" % self.index)


class World(object):
    def __init__(self, sim):
        self.sim = sim
        self.owner = {}          # directory -> (program, job)
        self.procs = []
        sim.spawn_hooks.append(self.hook)

    def hook(self, proc, args):
        if proc.role == tracking.WORKER:
            self.procs.append((proc, args))

    def spawned(self, program):
        return [p for p, _ in self.procs if p.parent is program.me]

    def own(self, program, job):
        d = job.out_dir
        with harness(self.sim):
            if self.sim.fs.h_files(d) is None or not self.sim.fs.h_exists(d):
                raise Violation("directory", "the working directory %s does not exist" % d)
            for other, (p, j) in self.owner.items():
                if j is not job and (other == d or other.startswith(d + "/")
                                     or d.startswith(other + "/")):
                    raise Violation("directory", "two jobs use the working directory %s"
                                    " (programs %d and %d)" % (d, p.index, program.index))
            self.owner[d] = (program, job)

    def audit(self):
        """all files are inside the directories of jobs, each used by one program"""
        users = {}
        tops = set()
        for proc, op, path in self.sim.fs.writes:
            inside = [d for d in self.owner if path == d or path.startswith(d + "/")]
            if not inside:
                if op == "mkdir" and any(d.startswith(path + "/") for d in self.owner):
                    continue
                raise Violation("files", "%s %s by %s is outside of the working "
                                "directories of all jobs" % (op, path, proc))
            d = inside[0]
            client = proc.parent if proc.role == tracking.WORKER else proc
            users.setdefault(d, set()).add(client.pid)
            if proc.role == tracking.WORKER and d not in proc.argv:
                raise Violation("files", "a worker of %s writes to %s" % (proc.argv, path))
        for d, pids in users.items():
            if pids != {self.owner[d][0].me.pid}:
                raise Violation("files", "%s is used by several programs" % d)


class T06(Check):
    def scenario(self, sim):
        ch = sim.ch
        tracking.setup(sim)
        sim.temp_names = ch.pick([70, 90, 300])
        sim.pid_limit = ch.pick([None, 1006, 1012])
        world = World(sim)
        programs = []
        for i in range(ch.wpick([(1, 1), (2, 3), (3, 2)])):
            p = Program(sim, i, world)
            programs.append(p)
            with harness(sim):
                overlay = isolate.Overlay("xboa.tracking")
            proc = sim.new_proc("program%d" % i, None, sim.current.proc,
                                start_task=False)
            self.private(sim, proc, overlay)

            def body(p=p):
                p.main()
            sim.new_task(proc, body, "program%d" % i)
            p.proc = proc
        tasks = [p.proc.tasks[0] for p in programs]
        sim.wait(lambda: all(t.done for t in tasks), None, "programs")
        for t in tasks:
            if t.exc is not None:
                raise t.exc
        world.audit()
        sim.nontrivial = len(programs) > 1 and sim.switches > 5

    def private(self, sim, proc, overlay):
        """proc has its own copy of xboa.tracking"""
        with harness(sim):
            overlay.install()
            try:
                import xboa.tracking
                import xboa.tracking.tracking_process
            finally:
                overlay.save()
                overlay.remove()
        proc.modules = overlay


CHECK = T06()
