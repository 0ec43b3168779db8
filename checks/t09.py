"""T09: simulation tracking never reuses seeds or spill numbers."""
import copy
import json
import pickle
import sys
import types

from sim.kernel import Violation, harness, current_sim


class SimulationFailed(Exception):
    pass


class Backend(object):
    """the simulation behind maus_cpp: stands for a Geant4 process"""
    def __init__(self):
        self.instance = None
        self.calls = []            # [seeds of a call]
        self.fail = 0
        self.garble = 0


def backend():
    sim = current_sim()
    proc = sim.current.proc
    if "maus" not in proc.tags:
        proc.tags["maus"] = Backend()
    return sim, proc.tags["maus"]


def has_instance():
    sim, b = backend()
    sim.point("maus.has_instance")
    return b.instance is not None


def birth(cards):
    sim, b = backend()
    sim.point("maus.birth")
    if b.instance is not None:
        raise RuntimeError("MAUS globals are already initialised")
    b.instance = json.loads(cards)


def death():
    sim, b = backend()
    sim.point("maus.death")
    if b.instance is None:
        raise RuntimeError("MAUS globals are not initialised")
    b.instance = None


def virtual_hits(primary):
    """what the simulation makes of a primary; differs for each seed"""
    seed = primary["random_seed"]
    out = []
    for i in range(1 + (seed * 7 + 3) % 3):
        out.append({
            "position": dict((k, primary["position"][k] + seed + 0.25 * i) for k in "xyz"),
            "momentum": dict((k, primary["momentum"][k] + 0.5 * i) for k in "xyz"),
            "particle_id": primary["particle_id"], "time": primary["time"] + i,
            "track_id": 1 + i, "station_id": i})
    return out


def track_particles(text):
    sim, b = backend()
    sim.point("maus.track")
    events = json.loads(text)
    b.calls.append([e["primary"]["random_seed"] for e in events])
    sim.maus_seeds.append((sim.current.proc, b.calls[-1]))
    if b.fail:
        b.fail -= 1
        sim.count("simulation_failed")
        raise SimulationFailed("no geometry")
    for e in events:
        if (e["primary"]["random_seed"]) % 5 != 4:
            e["virtual_hits"] = virtual_hits(e["primary"])
    if b.garble and events:
        b.garble -= 1
        sim.count("simulation_answer_damaged")
        del events[len(events) // 2]["primary"]["position"]
    sim.point("maus.tracked")
    return json.dumps(events)


maus_cpp = types.ModuleType("maus_cpp")
maus_cpp.globals = types.ModuleType("maus_cpp.globals")
maus_cpp.simulation = types.ModuleType("maus_cpp.simulation")
for f in (has_instance, birth, death):
    setattr(maus_cpp.globals, f.__name__, f)
maus_cpp.simulation.track_particles = track_particles
for m in (maus_cpp, maus_cpp.globals, maus_cpp.simulation):
    sys.modules[m.__name__] = m

import xboa.common as common  # noqa: E402
from xboa.common import config  # noqa: E402
config.PACKAGES["maus"] = True
from sim import gen  # noqa: E402
from sim.faults import Faults  # noqa: E402
from sim.runner import Check  # noqa: E402
from xboa.tracking import MAUSTracking  # noqa: E402


class Model(object):
    def __init__(self, seed):
        self.seeds = {seed}        # which may come next
        self.spill = 0
        self.last = None

    def copy(self):
        m = Model(0)
        m.seeds, m.spill, m.last = set(self.seeds), self.spill, self.last
        return m


class T09(Check):
    def scenario(self, sim):
        ch = sim.ch
        sim.summary = []
        sim.maus_seeds = []
        sim.isolate_weights = True
        sim.fs.short = ch.chance(0.4)
        if sim.fs.short:
            sim.fs.block = ch.pick([64, 512])
        Faults(sim, ch.subset(("enospc", "eio", "kill"), 0.5), 2,
               lambda proc, op, path: proc.name == "program")
        self.saved = {}            # path -> (models that may be in it, surely whole)
        self.ncalls = 0
        for session in range(ch.between(1, 3)):
            proc = sim.new_proc("program", None, sim.current.proc, start_task=False)
            proc.tags["killable"] = True
            task = sim.new_task(proc, lambda: self.program(sim), "program")
            sim.wait(lambda: task.done, None, "program")
            if task.exc is not None:
                raise task.exc
        sim.nontrivial = self.ncalls > 1

    def program(self, sim):
        ch = sim.ch
        trackers = []
        # a restarted program goes on from its latest save
        for path in sorted(self.saved):
            t = self.restore(sim, path)
            if t is not None:
                trackers.append(t)
        if not trackers or ch.chance(0.3):
            seed = ch.pick([0, 1, 17, 2 ** 31])
            cards = ch.pick([None, {"geometry": 1}, [1, 2], '{"a": 3}'])
            t = MAUSTracking(cards, seed) if ch.chance(0.8) else MAUSTracking(cards)
            if t.random_seed != seed:
                seed = 0
            if cards is not None:
                want = json.loads(cards) if isinstance(cards, str) else cards
                have = sim.current.proc.tags["maus"].instance
                if have != want:
                    raise Violation("setup", "set up with %r instead of %r" % (have, want))
            trackers.append([t, Model(seed)])
        for step in range(ch.many(1, 7, 30)):
            e = trackers[ch.n(len(trackers))]
            op = ch.wpick([("many", 5), ("one", 3), ("save", 3), ("copy", 1),
                           ("restore", 1)])
            if op in ("many", "one"):
                self.track(sim, e, op)
            elif op == "copy":
                with_pickle = ch.chance(0.5)
                t = e[0]
                new = pickle.loads(pickle.dumps(t)) if with_pickle else copy.deepcopy(t)
                self.check_last(sim, new, e[1])
                # the old one is not used any more: its seeds would be used twice
                e[0] = new
            elif op == "save":
                self.save(sim, e)
            elif op == "restore" and self.saved:
                t = self.restore(sim, sorted(self.saved)[ch.n(len(self.saved))])
                if t is not None:
                    trackers[0] = t

    def save(self, sim, e):
        path = "/work/tracker%d" % sim.ch.n(2)
        model = e[1].copy()
        old = self.saved.get(path, ([], False))
        self.saved[path] = (old[0] + [model], False)
        try:
            with open(path, "wb") as fout:
                pickle.dump(e[0], fout)
        except OSError as exc:
            exc.__traceback__ = None
            return
        self.saved[path] = ([model], True)
        sim.summary.append("saved")

    def restore(self, sim, path):
        models, sure = self.saved[path]
        try:
            with open(path, "rb") as fin:
                t = pickle.load(fin)
        except (OSError, EOFError, pickle.UnpicklingError) as exc:
            if sure and not isinstance(exc, OSError):
                raise
            exc.__traceback__ = None
            return None
        for m in reversed(models):
            try:
                self.check_last(sim, t, m)
            except Violation:
                if m is models[0]:
                    raise
                continue
            if t.spill == m.spill:
                break
        m = m.copy()
        sim.summary.append("restored at spill %d" % m.spill)
        if not sure:
            return None
        return [t, m]

    def check_last(self, sim, tracker, model):
        with harness(sim):
            if model.last is None:
                return
            d = gen.differ(model.last, gen.plain_lists(tracker.last))
            if d is not None:
                raise Violation("last", "the last output after copying or restoring "
                                "differs: " + d)

    def track(self, sim, e, op):
        ch = sim.ch
        tracker, model = e
        n = 1 if op == "one" else ch.n(5)
        hits = gen.hits(ch, n, pids=(-13, 13, 211, 2212, 11), rich=False)
        if tracker.datacards is None or "maus" in sim.current.proc.tags:
            backend()
        b = backend()[1]
        b.fail = ch.chance(0.15)
        b.garble = ch.chance(0.1)
        failing = b.fail or (b.garble and n)
        bad_at = ch.n(n) if n and ch.chance(0.05) else None
        given = list(hits)
        if bad_at is not None:
            given[bad_at] = {"x": 1.}
            failing = True
        ncalls = len(b.calls)
        self.ncalls += 1
        try:
            if op == "one":
                got = [tracker.track_one(given[0])]
            else:
                got = tracker.track_many(given)
        except Exception as exc:
            if not failing:
                raise
            exc.__traceback__ = None
            got = None
        b.fail = b.garble = 0
        calls = b.calls[ncalls:]
        seeds = [s for c in calls for s in c]
        sim.summary.append("%s %d hits: seeds %s, %s" % (
            op, n, seeds, "ok" if got is not None else "failed"))
        if got is None and not calls:
            # nothing was fired; whether the seeds count as used is open
            model.seeds = set(s + k for s in model.seeds for k in range(n + 1))
            return
        if len(seeds) != n:
            raise Violation("seeds", "%d particles fired instead of %d" % (len(seeds), n))
        if n:
            if seeds[0] not in model.seeds:
                raise Violation("seeds", "first seed is %d instead of %s" % (
                    seeds[0], sorted(model.seeds)))
            if seeds != list(range(seeds[0], seeds[0] + n)):
                raise Violation("seeds", "the seeds are not consecutive: %s" % seeds)
            model.seeds = {seeds[-1] + 1}
        if got is None:
            return
        if failing and b is not None and bad_at is not None:
            raise Violation("output", "a bad particle raised no error")
        with harness(sim):
            self.check_output(sim, hits, seeds, got, model.spill)
            if gen.differ(gen.plain_lists(got), gen.plain_lists(tracker.last)):
                raise Violation("last", "last is not the latest output")
            model.last = gen.plain_lists(got)
        model.spill += 1

    def check_output(self, sim, hits, seeds, got, spill):
        if len(got) != len(hits):
            raise Violation("output", "outputs for %d of %d particles" % (
                len(got), len(hits)))
        for i, (hit, seed, out) in enumerate(zip(hits, seeds, got)):
            primary = {"position": dict((k, hit[k]) for k in "xyz"),
                       "momentum": dict((k, hit["p" + k]) for k in "xyz"),
                       "particle_id": hit["pid"], "time": hit["t"], "random_seed": seed}
            want = [(primary["position"], primary["momentum"], hit["t"], -1)]
            if seed % 5 != 4:
                want += [(v["position"], v["momentum"], v["time"], v["station_id"])
                         for v in virtual_hits(primary)]
            have = [(dict((k, h[k]) for k in "xyz"), dict((k, h["p" + k]) for k in "xyz"),
                     h["t"], h["station"]) for h in out]
            if have != want:
                raise Violation("output", "output %d is %s instead of %s" % (i, have, want))
            m = common.pdg_pid_to_mass[abs(hit["pid"])]
            for k, h in enumerate(out):
                energy = (sum(h["p" + x] ** 2 for x in "xyz") + m ** 2) ** 0.5
                if k == 0:
                    energy = hit["energy"]
                number = h["station"] + 1 if k else 1
                facts = (h["mass"], h["charge"], h["particle_number"])
                wanted = (m, common.pdg_pid_to_charge[hit["pid"]], number)
                if facts != wanted or abs(h["energy"] - energy) > 1e-9 * energy:
                    raise Violation("output", "hit %d of output %d has (mass, charge, number) "
                                    "%s, energy %r instead of %s, %r" % (
                                        k, i, facts, h["energy"], wanted, energy))
                if h["pid"] != hit["pid"] or h["spill"] != spill or \
                        h["event_number"] != i:
                    raise Violation("spill", "output %d has pid %d, spill %d, event %d "
                                    "instead of %d, %d, %d" % (
                                        i, h["pid"], h["spill"], h["event_number"],
                                        hit["pid"], spill, i))


CHECK = T09()
