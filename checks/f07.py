"""F07: reading spill documents gives every requested particle once."""
import fnmatch
import json
import os

from sim.faults import Faults
from sim.kernel import Violation, harness
from sim.runner import Check
from xboa.bunch import Bunch
from xboa.hit import BadEventError, Hit
from xboa.hit.factory import MausJsonHitFactory
from . import files
from .f05 import Test

KINDS = ("eio", "eacces", "emfile")
TYPES = ["virtual_hit", "primary", "special_virtual_hit"]
LEAVES = ["spills1.json", "spills10.json", "spills2.json", "other.json"]
PATTERNS = ["spills*.json", "*.json", "spills?.json", "spills1.json", "other.json", "x*"]
XYZ = ["x", "y", "z"]
KEYS = {
    "virtual_hit": XYZ + ["px", "py", "pz", "bx", "by", "bz", "ex", "ey", "ez", "station",
                          "pid", "particle_number", "t", "mass", "charge", "proper_time",
                          "path_length", "energy", "spill", "event_number",
                          "local_weight"],
    "primary": XYZ + ["px", "py", "pz", "pid", "t", "energy", "mass", "charge", "spill",
                      "event_number", "local_weight"],
    "special_virtual_hit": XYZ + ["px", "py", "pz", "pid", "particle_number", "t", "mass",
                                  "charge", "path_length", "e_dep", "energy", "spill",
                                  "event_number", "local_weight"],
}


def vector(p, prefix):
    return dict((c, p[prefix + c]) for c in XYZ)


def virtual(p):
    return {"position": vector(p, ""), "momentum": vector(p, "p"),
            "b_field": vector(p, "b"), "e_field": vector(p, "e"),
            "station_id": p["station"], "particle_id": p["pid"],
            "track_id": p["particle_number"], "time": p["t"], "mass": p["mass"],
            "charge": p["charge"], "proper_time": p["proper_time"],
            "path_length": p["path_length"]}


def special(p):
    return {"position": vector(p, ""), "momentum": vector(p, "p"),
            "particle_id": p["pid"], "track_id": p["particle_number"], "time": p["t"],
            "mass": p["mass"], "charge": p["charge"], "path_length": p["path_length"],
            "energy_deposited": p["e_dep"]}


def primary(p):
    return {"position": vector(p, ""), "momentum": vector(p, "p"), "particle_id": p["pid"],
            "time": p["t"], "energy": p["energy"], "random_seed": 7}


def mix(ch, d):
    """the same document with its fields in another order, and some that nobody needs"""
    items = list(d.items())
    if ch.chance(0.3):
        items = ch.shuffled(items)
    if ch.chance(0.2):
        items.insert(ch.n(len(items) + 1), ("extra", ch.pick([None, [], {}, "\u03bc", 1e3])))
    return dict(items)


class Document(object):
    """one line of a file"""
    def __init__(self, line, found):
        self.line = line
        self.found = found              # {type: particles}


def document(ch, number):
    what = ch.wpick([("Spill", 8), ("RunHeader", 1), ("JobFooter", 1), (None, 0.5)])
    found = dict((t, []) for t in TYPES)
    d = {}
    if what is not None:
        d["maus_event_type"] = what
    d["spill_number"] = number
    if ch.chance(0.9):
        events = []
        for index in range(ch.wpick([(0, 1), (1, 3), (2, 3), (4, 1)])):
            event = {}
            if ch.chance(0.6):
                p = particle(ch, number, index)
                event["primary"] = mix(ch, primary(p))
                found["primary"].append(p)
            for key, make, kind in (("virtual_hits", virtual, "virtual_hit"),
                                    ("special_virtual_hits", special,
                                     "special_virtual_hit")):
                if ch.chance(0.7):
                    hits = [particle(ch, number, index) for _ in range(ch.wpick(
                        [(0, 2), (1, 3), (2, 2), (5, 1)]))]
                    event[key] = [mix(ch, make(p)) for p in hits]
                    found[kind] += hits
            events.append(mix(ch, event))
        d["mc_events"] = events
    if what != "Spill":
        found = dict((t, []) for t in TYPES)
    if ch.chance(0.3):
        d["recon_events"] = [{}]
    line = json.dumps(mix(ch, d), ensure_ascii=ch.chance(0.5),
                      separators=ch.pick([(",", ":"), (", ", ": ")]))
    return Document(ch.pick(["", "", "  "]) + line + ch.pick(["", " "]) + "\n", found)


def particle(ch, number, index):
    p = files.particle(ch, files.ANY_PID, event=index)
    p["spill"] = number
    p["local_weight"] = 1.
    return p


class F07(Check):
    def scenario(self, sim):
        ch = sim.ch
        sim.summary = []
        sim.isolate_weights = True
        sim.fs.short = ch.chance(0.4)
        sim.fs.block = ch.pick([64, 256, 8192])
        sim.fs.shuffle = ch.chance(0.8)
        sim.quanta = ch.pick([[1, 2, 4, 8, 16], [1, 1, 2, 3]])
        self.dir = "/data/json"
        self.files = {}                # leaf: (documents, index of a bad line or None)
        self.reads = 0
        sim.fs.h_mkdir(self.dir)
        for leaf in ch.shuffled(LEAVES):
            if ch.chance(0.6):
                self.make(sim, leaf)
        if not self.files:
            self.make(sim, LEAVES[0])
        faults = Faults(sim, ch.subset(KINDS, 0.3), 2,
                        lambda proc, op, path: op in ("open_r", "read")
                        and path.endswith(".json"))
        faults.scale = ch.pick([2, 5, 15])
        faults._arm()
        together = ch.chance(0.5)
        tasks = []
        for k in range(ch.wpick([(1, 4), (2, 3), (3, 1)])):
            proc = sim.current.proc if together else sim.new_proc(
                "program%d" % k, None, sim.current.proc, start_task=False)
            tasks.append(sim.new_task(proc, lambda k=k: self.program(sim, k),
                                      "client%d" % k))
        sim.wait(lambda: all(t.done for t in tasks), None, "clients")
        for t in tasks:
            if t.exc is not None:
                raise t.exc
        faults.stop()
        sim.nontrivial = self.reads > 1

    def make(self, sim, leaf):
        ch = sim.ch
        docs = []
        number = ch.n(5)
        for _ in range(ch.wpick([(0, 1), (1, 2), (2, 3), (4, 3), (9, 1), (40, 0.3)])):
            docs.append(document(ch, number))
            number += ch.pick([1, 1, 1, 0, 5, -2])
        lines = [d.line for d in docs]
        bad = None
        if lines and ch.chance(0.3):
            bad = ch.n(len(lines))
            line = lines[bad].strip()
            cut = line[:1 + ch.n(len(line) - 1)]
            how = ch.n(4)
            if how == 0 or how == 1:
                # the rest was never written
                lines[bad:] = [cut]
                docs = docs[:bad + 1]
            elif how == 2:
                lines[bad] = cut + "\n"
            else:
                lines[bad] = ch.pick(["not a document\n", line + "}\n", "{'a': 1}\n",
                                      "{\"maus_event_type\": \"Spill\",}\n"])
        elif lines and ch.chance(0.3):
            lines[-1] = lines[-1].rstrip("\n")
        with harness(sim):
            sim.fs.h_write(self.dir + "/" + leaf, "".join(lines).encode("utf-8"))
        self.files[leaf] = (docs, bad)

    def expected(self, leaf, kind):
        """(particles before the first bad line, is there a bad line)"""
        docs, bad = self.files[leaf]
        use = docs if bad is None else docs[:bad]
        return [p for d in use for p in d.found[kind]], bad is not None

    # ---- the clients
    def program(self, sim, k):
        ch = sim.ch
        for i in range(ch.between(1, 3)):
            self.reads += 1
            how = ch.wpick([("bunch", 4), ("groups", 2), ("several", 4), ("lazy", 4),
                            ("written", 3), ("unknown", 0.4)])
            if how == "written":
                self.written(sim, "%s/mine%d_%d.json" % ("/data", k, i))
            else:
                getattr(self, how)(sim)

    def attempt(self, sim, what, fn, reasons=(), must=None):
        """the result, None after an error; must: why there has to be one"""
        sim.summary.append(what)
        before = len(sim.faults.fired)
        try:
            got = fn()
        except Exception as exc:
            exc.__traceback__ = None
            mine = [f for f in sim.faults.fired[before:] if f[4] is sim.current]
            if mine or any(r(exc) for r in reasons):
                return None
            raise Violation("error", "%s raised %r without a reason" % (what, exc))
        if must is not None:
            raise Violation("no error", "%s: %s, but no error was raised, and there are %d "
                            "particles" % (what, must, len(got)))
        return got

    def select(self, sim, kind, limits):
        ch = sim.ch
        pattern = PATTERNS[ch.n(len(PATTERNS))]
        names = sorted(n for n in self.files if fnmatch.fnmatchcase(n, pattern))
        want, bad = [], False
        for n in names:
            more, bad = self.expected(n, kind)
            want += more
            if bad:
                break
        test = Test(sim, ch, len(want)) if ch.chance(0.6) else None
        limit = -1
        if limits and ch.chance(0.6):
            limit = ch.pick([0, 1, ch.n(len(want) + 3), len(want), len(want) + 1])
        raises = False
        later = False                   # would the test raise if it was asked for all
        if test is not None:
            later = test.expected(want)[1] or test.kind == "raise"
            want, raises = test.expected(want, limit)
        elif limit >= 0:
            want = want[:limit]
        bad = bad and not raises
        must = None
        if not names:
            must = "no file matches"
        elif raises:
            must = "the acceptance test raised %r" % test.error
        elif bad and not 0 <= limit <= len(want):
            must = "a line is not a document"
        reasons = [lambda exc: not names and isinstance(exc, OSError),
                   lambda exc: later and isinstance(exc, type(test.error)),
                   lambda exc: any(self.files[n][1] is not None for n in names)]
        what = "%s from %s, test %s, limit %d" % (kind, pattern, test and test.kind, limit)
        return self.dir + "/" + pattern, want, test, limit, must, reasons, what

    def bunch(self, sim):
        kind = sim.ch.pick(TYPES)
        path, want, test, limit, must, reasons, what = self.select(sim, kind, True)
        kw = {}
        if limit >= 0 or sim.ch.chance(0.5):
            kw["number_of_hits"] = limit
        got = self.attempt(sim, what, lambda: Bunch.new_from_read_builtin(
            "maus_json_" + kind, path, test, **kw), reasons, must)
        if got is not None:
            files.check_same(sim, want, got.hits(), KEYS[kind], what)

    def groups(self, sim):
        ch = sim.ch
        kind = ch.pick(TYPES)
        path, want, test, limit, must, reasons, what = self.select(sim, kind, False)
        key = ch.pick(["spill", "event_number", "pid"])
        if ch.chance(0.5):
            got = self.attempt(sim, what, lambda: Bunch.new_dict_from_read_builtin(
                "maus_json_" + kind, path, key, test), reasons, must)
        else:
            got = self.attempt(sim, what, lambda: Bunch.new_list_from_read_builtin(
                "maus_json_" + kind, path, key, test), reasons, must)
            if got is not None:
                values = [int(b[0][key]) for b in got]
                if values != sorted(set(values)):
                    raise Violation("groups", "%s: sorted by %s: %s" % (what, key, values))
                got = dict(zip(values, got))
        if got is None:
            return
        want = files.grouped(want, key)
        if sorted(want) != sorted(got):
            raise Violation("groups", "%s: groups of %s %s instead of %s" % (
                what, key, sorted(got), sorted(want)))
        for value in sorted(want):
            files.check_same(sim, want[value], got[value].hits(), KEYS[kind],
                             "%s: %s %d" % (what, key, value))

    def name(self, ch, kind):
        if kind != "special_virtual_hit" and ch.chance(0.2):
            return "maus_" + kind
        return "maus_json_" + kind

    def several(self, sim):
        ch = sim.ch
        kinds = [k for k in ch.shuffled(TYPES) if ch.chance(0.7)]
        if not kinds:
            kinds = ["virtual_hit"]
        leaf = ch.pick(sorted(self.files))
        want = []
        for k in kinds:
            more, bad = self.expected(leaf, k)
            want += [(k, p) for p in more]
            if bad:
                break
        limit = ch.pick([-1, -1, 0, 1, ch.n(len(want) + 3), len(want), len(want) + 1])
        must = None
        if bad and not 0 <= limit <= len(want):
            must = "a line is not a document"
        if limit >= 0:
            want = want[:limit]
        what = "%s from %s, limit %d" % (kinds, leaf, limit)
        args = {}
        if limit >= 0 or ch.chance(0.5):
            args["number_of_hits"] = limit
        if kinds != TYPES or ch.chance(0.5):
            args["list_of_maus_types"] = [self.name(ch, k) for k in kinds]
        got = self.attempt(sim, what, lambda: Bunch.read_maus_json_file(
            self.dir + "/" + leaf, **args), [lambda exc: self.files[leaf][1] is not None],
            must)
        if got is None:
            return
        if "list_of_maus_types" not in args:
            # all of them, whatever the order of the types
            place = [i for i, (k, p) in enumerate(want)]
            self.in_any_order(sim, want, got, what) if limit < 0 else None
            if limit >= 0 and len(got) != len(place):
                raise Violation("particles", "%s: %d particles instead of %d" % (
                    what, len(got), len(place)))
            return
        files.check_same(sim, [p for _, p in want], got, XYZ, what)
        for (k, p), hit in zip(want, got):
            files.check_same(sim, [p], [hit], KEYS[k], what)

    def in_any_order(self, sim, want, got, what):
        def order(p):
            return tuple(round(float(p[k]), 6) for k in
                         ("spill", "event_number", "x", "y", "z", "t", "px", "py", "pid"))
        with harness(sim):
            files.check_same(sim, sorted([p for _, p in want], key=order),
                             sorted(got, key=order), XYZ + ["spill", "event_number", "pid"],
                             what)

    # ---- one particle at a time, several files at once
    def lazy(self, sim):
        ch = sim.ch
        readers = []
        before = len(sim.faults.fired)
        what = "lazy"

        def ours():
            return [f for f in sim.faults.fired[before:] if f[4] is sim.current]
        try:
            for _ in range(ch.between(1, 3)):
                leaf = ch.pick(sorted(self.files))
                kind = ch.pick(TYPES)
                how = ch.n(3)
                name = self.name(ch, kind)
                f = open(self.dir + "/" + leaf)
                if how == 2:
                    readers.append([leaf, kind, f, None, name, [], how])
                    continue
                fac = MausJsonHitFactory(f, name)
                readers.append([leaf, kind, f, fac, fac.hit_generator(), [], how])
        except OSError as exc:
            if not ours():
                raise Violation("error", "opening: %r" % exc)
        sim.summary.append("lazy: %s" % [(r[0], r[1], r[6]) for r in readers])
        active = list(readers)
        ended = {}
        while active:
            r = active[ch.n(len(active))]
            leaf, kind, f, fac, gen, hits, how = r
            try:
                if how == 0:
                    hits.append(next(gen))
                    continue
                if how == 1:
                    if ch.chance(0.1):
                        fac.new_spill()
                    hits.append(fac.make_hit())
                    continue
                hits += Hit.new_list_from_maus_json(gen, f)
                ended[id(r)] = None
            except (BadEventError, StopIteration):
                ended[id(r)] = None
            except Exception as exc:
                exc.__traceback__ = None
                ended[id(r)] = exc
                if not ours() and self.files[leaf][1] is None:
                    raise Violation("error", "%s %s from %s raised %r without a reason" % (
                        what, kind, leaf, exc))
            f.close()
            active.remove(r)
        for r in readers:
            leaf, kind, f, fac, gen, hits, how = r
            want, bad = self.expected(leaf, kind)
            what = "lazy reading of %s from %s by way %d" % (kind, leaf, how)
            if ended[id(r)] is not None:
                if how == 2:
                    continue
                want = want[:len(hits)]
            elif bad:
                raise Violation("no error", "%s: a line is not a document, but no error was "
                                "raised, and there are %d particles" % (what, len(hits)))
            files.check_same(sim, want, hits, KEYS[kind], what)

    def unknown(self, sim):
        """a type that there is not gives no particles"""
        ch = sim.ch
        path = self.dir + "/" + ch.pick(sorted(self.files))
        kind = ch.pick(TYPES)
        name = ch.pick(["maus_json_nonsense", "maus_json_" + kind + "s", kind, "maus_json_"])
        how = ch.pick(["bunch", "list", "factory"])
        sim.summary.append("read type %r by %s" % (name, how))
        got = None
        try:
            if how == "bunch":
                got = Bunch.new_from_read_builtin(name, path)
            else:
                f = open(path)
                try:
                    got = MausJsonHitFactory(f, name) if how == "factory" else \
                        Hit.new_list_from_maus_json(name, f)
                    if how == "factory":
                        got = list(got.hit_generator())
                finally:
                    f.close()
        except Exception as exc:
            exc.__traceback__ = None
            return
        raise Violation("unknown type", "reading particles of type %r by %s gave %d"
                        % (name, how, len(got)))

    # ---- files that the library has written
    def written(self, sim, path):
        ch = sim.ch
        kind = ch.pick(["virtual_hit", "virtual_hit", "primary"])
        fmt = "maus_json_" + kind
        parts = []
        for i in range(files.amount(ch)):
            p = files.particle(ch, files.ANY_PID, event=ch.n(4))
            p["particle_number"] = i if kind == "primary" else ch.n(4)
            parts.append(p)
        hits = [files.to_hit(p) for p in parts]
        what = "%s written to %s" % (kind, path)
        sim.summary.append(what)
        if ch.chance(0.5):
            Hit.write_list_builtin_formatted(hits, fmt, path)
        else:
            Bunch.new_from_hits(hits).hit_write_builtin(fmt, path)
        # spills by event, events by particle, as they appear
        spills = {}
        for p in parts:
            spills.setdefault(p["event_number"], {}).setdefault(
                p["particle_number"], []).append(p)
        want = []
        for s, events in enumerate(spills.values()):
            for e, members in enumerate(events.values()):
                for p in members:
                    p = dict(p, spill=s, event_number=e, local_weight=1.)
                    want.append(p)
        got = self.attempt(sim, what, lambda: Bunch.new_from_read_builtin(fmt, path).hits())
        if got is None:
            return
        keys = [k for k in KEYS[kind] if k not in ("spill", "event_number")]

        def order(p):
            return tuple(round(float(p[k]), 6) for k in
                         ("x", "y", "z", "t", "px", "py", "pid", "pz", "bx", "ey"))
        with harness(sim):
            mixed = len(set((p["spill"], p["event_number"]) for p in got))
            if mixed != len(set((p["spill"], p["event_number"]) for p in want)):
                raise Violation("places", "%s: %d events" % (what, mixed))
            files.check_same(sim, sorted(want, key=order), sorted(got, key=order), keys,
                             what)
        if len(parts) > 1:
            places = {}
            by = sorted(want, key=order)
            for w, g in zip(by, sorted(got, key=order)):
                places.setdefault((w["spill"], w["event_number"]), set()).add(
                    (int(g["spill"]), int(g["event_number"])))
            if any(len(v) > 1 for v in places.values()) and \
                    len(set(map(order, by))) == len(by):
                raise Violation("places", "%s: an event is in several places: %s" % (
                    what, places))


CHECK = F07()
