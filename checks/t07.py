"""T07: a saved job is loaded whole or not at all."""
import copy

from sim import gen, trackers
from sim.kernel import Violation, harness
from sim.runner import Check
from . import tracking
from .tracking import ThisNodeProcess, TrackingProcess

KINDS = ("enospc", "eio", "eacces", "emfile", "kill")


class T07(Check):
    def scenario(self, sim):
        ch = sim.ch
        self.known = {}            # directory -> [acceptable lists], surely loadable
        self.ever = {}
        tracking.setup(sim, ch.subset(KINDS, 0.6), 2,
                       lambda proc, op, path: proc.name == "saver")
        tracker = trackers.any_tracker(ch, slow=False)
        self.ref = copy.deepcopy(tracker)
        for session in range(ch.between(1, 2)):
            saver = sim.new_proc("saver", None, sim.current.proc, start_task=False)
            saver.tags["killable"] = True
            task = sim.new_task(saver, lambda: self.save(sim, tracker), "saver")
            if ch.chance(0.3):
                when = sim.now + ch.n(40) * sim.tick
                sim.at(when, lambda: self.strike(sim, saver))
            while not task.done:
                # a loader that does not wait for the saver
                if self.known and ch.chance(0.1):
                    self.look(sim, racing=True)
                sim.sleep(ch.pick([0.001, 0.05]))
            if task.exc is not None:
                raise task.exc
        if sim.faults:
            sim.faults.stop()
        for d in sorted(self.known):
            self.look(sim, d)
        sim.nontrivial = bool(self.known)

    def strike(self, sim, proc):
        if not proc.dead:
            sim.count("saver_killed")
            sim.kill(proc, -9)

    # ---- in the saver
    def save(self, sim, tracker):
        ch = sim.ch
        jobs = []
        event = 0
        for step in range(ch.between(1, 4)):
            if not jobs or ch.chance(0.2):
                fired = len(sim.faults.fired) if sim.faults else 0
                try:
                    jobs.append(ThisNodeProcess(tracker))
                except Exception as exc:
                    if sim.fs.full is None and (not sim.faults or
                                                len(sim.faults.fired) == fired):
                        raise
                    exc.__traceback__ = None
                    continue
            job = jobs[ch.n(len(jobs))]
            hits = []
            for _ in range(ch.many(0, 5, 60, 0.06)):
                hits.append(gen.make_hit(ch, event, rich=ch.chance(0.3)))
                event += 1
            new = [h.deepcopy() for h in hits]
            old, sure = self.known.get(job.out_dir, ([], False))
            self.known[job.out_dir] = (old + [new], False)
            self.ever.setdefault(job.out_dir, []).append(new)
            fired = len(sim.faults.fired) if sim.faults else 0
            try:
                job.set_hit_list(hits)
            except Exception as exc:
                if sim.fs.full is None and (not sim.faults or
                                                len(sim.faults.fired) == fired):
                    raise
                exc.__traceback__ = None
                sim.summary.append("saving %d hits: %s" % (len(new), type(exc).__name__))
                continue
            self.known[job.out_dir] = ([new], True)
            sim.summary.append("saved %d hits" % len(new))

    # ---- in the loader
    def look(self, sim, directory=None, racing=False):
        ch = sim.ch
        if directory is None:
            dirs = sorted(self.known)
            directory = dirs[ch.n(len(dirs))]
        damaged = False
        if not racing and ch.chance(0.15):
            path = directory + "/" + TrackingProcess.pickle_jar
            data = sim.fs.h_read(path)
            if data:
                sim.count("save_cut")
                sim.fs.h_write(path, data[:ch.n(len(data))])
                damaged = True
        lists, sure = self.known[directory]
        lists = list(lists)
        begun = len(self.ever[directory])
        busy = racing and not sure
        loader = ch.pick([ThisNodeProcess, TrackingProcess])
        try:
            job = loader.new_from_pickle(directory)
        except Exception as exc:
            if racing:
                return
            if sure and not damaged:
                raise
            sim.summary.append("loading: %s" % type(exc).__name__)
            exc.__traceback__ = None
            self.run_damaged(sim, directory)
            return
        if busy or len(self.ever[directory]) != begun:
            return                 # a save overlapped with the load
        sim.summary.append("loaded %d hits" % len(job.hit_list))
        if damaged:
            raise Violation("loading", "a cut save was loaded without an error")
        expected = self.match(sim, lists, job)
        if racing:
            return
        how = ch.n(3)
        if how == 0:
            tracking.check_same(sim, expected, job.run(), "running a loaded job")
        else:
            if how == 2:
                job = copy.deepcopy(job)
            job.start()
            job.join()
            tracking.check_same(sim, expected, job.get_return_value(),
                                "starting a loaded job")

    def match(self, sim, lists, job):
        with harness(sim):
            for hits in lists:
                if gen.differ([gen.plain(h) for h in hits],
                              [gen.plain(h) for h in job.hit_list]) is None:
                    break
            else:
                raise Violation("loading", "the loaded list of %d hits is not the one "
                                "that was saved" % len(job.hit_list))
        expected = tracking.serial_cost(sim, self.ref, hits)
        got = tracking.serial_cost(sim, job.tracking, hits)
        tracking.check_same(sim, expected, got, "the loaded tracker")
        return expected

    def run_damaged(self, sim, directory):
        """a worker on a damaged save"""
        import subprocess
        result = directory + "/" + TrackingProcess.pickle_sandwich
        if not sim.fs.h_exists(directory) or sim.fs.h_exists(result):
            return
        p = subprocess.Popen([tracking.WORKER, "--out-dir", directory])
        code = p.wait()
        if code == 0:
            raise Violation("worker", "a worker on a damaged save ended with code 0")
        if sim.fs.h_exists(result):
            raise Violation("worker", "a worker on a damaged save left a result")
        sim.probe("worker_on_damaged_save")


CHECK = T07()
