"""Parts shared by the checks of the tracking jobs."""
import copy

from sim import gen, isolate, trackers
from sim.kernel import Violation, harness
from sim.runner import Check
from xboa.tracking import MultiTrack
from xboa.tracking.tracking_process import ThisNodeProcess, TrackingProcess

WORKER = TrackingProcess.run_executable
EXPECTED = (trackers.TrackerFailed,)


def setup(sim, kinds=(), max_faults=0, scope=None):
    """a machine on which tracking jobs can run"""
    from sim.faults import Faults
    ch = sim.ch
    sim.commands[WORKER] = isolate.worker_command
    sim.fs.short = ch.chance(0.4)
    if sim.fs.short:
        sim.fs.block = ch.pick([64, 512, 4096])
    sim.quanta = ch.pick([[1, 2, 4, 8, 16], [1, 1, 2, 3], [8, 32, 64], [1, 40, 200]])
    sim.tick = ch.pick([0.001, 0.0001, 0.01, 0.05])
    sim.isolate_weights = True
    sim.summary = []
    if kinds and scope is None:
        who = ch.n(3)
        scope = [None, lambda proc, op, path: proc.role == WORKER,
                 lambda proc, op, path: proc.role != WORKER][who]
    if kinds:
        Faults(sim, kinds, max_faults, scope)


def serial(tracker, hits):
    """what the tracker gives in the calling process"""
    t = copy.deepcopy(tracker)
    return t.track_many([h.deepcopy() for h in hits])


def serial_cost(sim, tracker, hits, one=False):
    """the oracle, outside of simulated time; returns plain lists"""
    import time
    real = time.sleep
    with harness(sim):
        time.sleep = lambda s: None
        try:
            if one:
                t = copy.deepcopy(tracker)
                return [t.track_one(hits[0].deepcopy())]
            return serial(tracker, hits)
        finally:
            time.sleep = real


def check_same(sim, expected, got, what):
    """expected, got: lists of lists of hits"""
    with harness(sim):
        if not isinstance(got, (list, tuple)):
            raise Violation("result", "%s: not a list: %r" % (what, got))
        if len(got) != len(expected):
            raise Violation("result", "%s: results for %d particles instead of %d"
                            % (what, len(got), len(expected)))
        for i, (e, g) in enumerate(zip(expected, got)):
            d = gen.differ([gen.plain(h) for h in e], [gen.plain(h) for h in g])
            if d is not None:
                raise Violation("result", "%s: particle %d: %s" % (what, i, d))


def is_ordered_part(whole, part):
    """is the list part a subsequence of the list whole?"""
    i = 0
    for x in part:
        while i < len(whole) and whole[i] != x:
            i += 1
        if i == len(whole):
            return False
        i += 1
    return True


def workers(sim):
    return [p for p in sim.procs.values() if p.role == WORKER]


def mark_killable(sim):
    """faults may kill workers"""
    def hook(proc, args):
        if proc.role == WORKER:
            proc.tags["killable"] = True
    sim.spawn_hooks.append(hook)


def random_killer(sim, horizon=30.0):
    """somebody outside kills a worker at some time"""
    ch = sim.ch
    when = sim.now + ch.real(0.0, 1.0) ** 2 * horizon
    signum = ch.pick([9, 15, 11])

    def strike():
        live = [p for p in workers(sim) if not p.dead]
        if live:
            p = live[sim.noise(len(live))]
            sim.count("external_kill_%d" % signum)
            sim.signal(p, signum)
    sim.at(when, strike)


def damage_results(sim, directory="/tmp/tracking"):
    """lose or cut one of the result files; returns whether something was lost"""
    ch = sim.ch
    name = TrackingProcess.pickle_sandwich
    files = [f for f in sorted(sim.fs.h_files(directory)) if f.endswith("/" + name)]
    if not files:
        return False
    path = files[ch.n(len(files))]
    data = sim.fs.h_read(path)
    with harness(sim):
        if ch.chance(0.5):
            sim.count("result_lost")
            parent, leaf = sim.fs.parent(path)
            del parent.entries[leaf]
        else:
            sim.count("result_cut")
            sim.fs.h_write(path, data[:ch.n(len(data))])
    return True


def no_faults(sim):
    """true if nothing was disturbed on purpose so far"""
    return not (sim.faults and sim.faults.fired) and not any(
        k.startswith(("external", "result")) for k in sim.fault_counts)


class Watch(object):
    """the kernel's view of the workers of one job"""
    def __init__(self, sim):
        self.sim = sim
        self.procs = []
        sim.spawn_hooks.append(self.hook)
        self.setup = None

    def hook(self, proc, args):
        if proc.role == WORKER:
            self.procs.append(proc)
            if self.setup:
                self.setup(proc)

    def alive(self):
        return bool(self.procs) and not self.procs[-1].dead

    @property
    def last(self):
        return self.procs[-1] if self.procs else None
