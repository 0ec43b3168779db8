"""F08: reading spill trees gives every requested particle once."""
import fnmatch

from sim import fakeroot, gen
from sim.faults import Faults
from sim.kernel import Violation, harness
from sim.runner import Check
import ROOT
from xboa.bunch import Bunch
from xboa.hit import BadEventError, Hit
from xboa.hit.factory import MausRootHitFactory, MausRootReconHitFactory
from . import files
from .f05 import Test
from .f07 import KEYS as JSON_KEYS

KINDS = ("eio", "eacces", "emfile")
MC = ["virtual_hit", "primary", "step"]
RECON = ["scifi_trackpoint", "scifi_and_tof"]
TYPES = MC + RECON
LEAVES = ["spills1.root", "spills10.root", "spills2.root", "other.root"]
PATTERNS = ["spills*.root", "*.root", "spills?.root", "spills1.root", "other.root", "x*"]
SCIFI = ["x", "y", "z", "px", "py", "pz", "station", "particle_number", "spill",
         "event_number"]
KEYS = {
    "virtual_hit": JSON_KEYS["virtual_hit"],
    "primary": JSON_KEYS["primary"],
    "step": JSON_KEYS["virtual_hit"] + ["sx", "sy", "sz"],
    "scifi_trackpoint": SCIFI,
    "scifi_and_tof": SCIFI + ["t"],
}


def vec(p, prefix=""):
    return [float(p[prefix + c]) for c in "xyz"]


def virtual(p):
    return {"GetPosition": vec(p), "GetMomentum": vec(p, "p"), "GetBField": vec(p, "b"),
            "GetEField": vec(p, "e"), "GetParticleId": p["pid"],
            "GetStationId": p["station"], "GetTrackId": p["particle_number"],
            "GetTime": p["t"], "GetMass": p["mass"], "GetCharge": p["charge"],
            "GetProperTime": p["proper_time"], "GetPathLength": p["path_length"]}


def primary(p):
    return {"GetPosition": vec(p), "GetMomentum": p.get("raw") or vec(p, "p"),
            "GetParticleId": p["pid"], "GetEnergy": p["energy"], "GetTime": p["t"]}


def step(p):
    return {"GetPosition": vec(p), "GetMomentum": vec(p, "p"), "GetBField": vec(p, "b"),
            "GetEField": vec(p, "e"), "GetSpin": vec(p, "s"), "GetTime": p["t"],
            "GetProperTime": p["proper_time"], "GetPathLength": p["path_length"]}


def some(ch):
    return ch.wpick([(0, 2), (1, 3), (2, 2), (4, 1)])


def particle(ch, number, event, **more):
    p = files.particle(ch, files.ANY_PID, event=event)
    p["spill"] = number
    p["local_weight"] = 1.
    p.update(more)
    files.finish(p)
    return p


def spill(ch, number):
    """(fields of one entry, {kind: its particles})"""
    found = dict((t, []) for t in TYPES)
    found["points"] = []
    mc = []
    for event in range(some(ch)):
        p = particle(ch, number, event)
        if ch.chance(0.06):
            # of an unknown kind: on the mass shell without a mass
            scale = p["energy"] / (p["px"] ** 2 + p["py"] ** 2 + p["pz"] ** 2) ** 0.5
            p.update(pid=ch.pick([99999, -99999, 123456789]), mass=0., charge=0.)
            p["raw"] = vec(p, "p")
            for k in ("px", "py", "pz"):
                p[k] *= scale
        elif ch.chance(0.06):
            # at rest, with an energy rounded below its mass
            p.update(px=0., py=0., pz=0., energy=p["mass"] * (1. - ch.n(3) * 1e-16))
        found["primary"].append(p)
        hits = [particle(ch, number, event) for _ in range(some(ch))]
        found["virtual_hit"] += hits
        tracks = []
        for _ in range(some(ch)):
            head = particle(ch, number, event)
            steps = [particle(ch, number, event, station=i, **dict(
                (k, head[k]) for k in ("pid", "particle_number", "mass", "charge")))
                for i in range(some(ch))]
            found["step"] += steps
            tracks.append({"GetParticleId": head["pid"],
                           "GetTrackId": head["particle_number"],
                           "GetSteps": [step(q) for q in steps]})
        mc.append({"GetPrimary": primary(p), "GetVirtualHits": [virtual(q) for q in hits],
                   "GetTracks": tracks})
    recon = [recon_event(ch, number, event, found) for event in range(some(ch))]
    return {"GetSpillNumber": number, "GetMCEvents": mc, "GetReconEvents": recon}, found


def recon_event(ch, number, event, found):
    tracks, hits = [], []
    for t in range(some(ch)):
        points = []
        chance = ch.n(10) / 10.
        for _ in range(some(ch)):
            where = [ch.n(2), ch.between(1, 5), ch.n(3)]
            if ch.chance(0.1):
                where[ch.n(3)] = ch.pick([0, 10])
            p = particle(ch, number, event, particle_number=t, pid=0, station=90000
                         + where[0] * 100 + where[1] * 10 + where[2])
            p["chance"] = chance
            hits.append(p)
            points.append({"tracker": where[0], "station": where[1], "plane": where[2],
                           "pos": vec(p), "mom": vec(p, "p")})
        tracks.append({"P_value": chance, "scifitrackpoints": points})
    found["scifi_trackpoint"] += hits

    def counters(getter):
        return [[{getter: files.number(ch)} for _ in range(ch.pick([0, 1, 1, 2]))]
                for _ in range(2)]
    space, slab, digit = (counters("GetTime"), counters("GetRawTime"),
                          counters("GetLeadingTime"))
    times = [None, None, None]
    if space[0] and space[1]:
        times[0] = space[1][0]["GetTime"] - space[0][0]["GetTime"]
    for i, group, getter in ((1, slab, "GetRawTime"), (2, digit, "GetLeadingTime")):
        if group[0] and group[1]:
            t0, t1 = [sum(c[getter] for c in group[k]) / len(group[k]) for k in (0, 1)]
            times[i] = t1 - t0
    for q in hits:
        q["times"] = times
    found["points"] += hits
    found["scifi_and_tof"] += timed(hits, True, True)
    return {"GetSciFiEvent": {"scifitracks": tracks}, "GetTOFEvent": {
        "GetTOFEventSpacePoint": {"GetTOF0SpacePointArray": space[0],
                                  "GetTOF1SpacePointArray": space[1]},
        "GetTOFEventSlabHit": {"GetTOF0SlabHitArray": slab[0],
                               "GetTOF1SlabHitArray": slab[1]},
        "GetTOFEventDigit": {"GetTOF0DigitArray": digit[0],
                             "GetTOF1DigitArray": digit[1]}}}


def timed(points, slabs, digits):
    """those with a time of flight"""
    out = []
    for p in points:
        for t, use in zip(p["times"], (True, slabs, digits)):
            if use and t is not None:
                out.append(dict(p, t=t))
                break
    return out


class File(object):
    def __init__(self, spills, bad, odd, chance, tree):
        self.spills = spills            # of {kind: particles}
        self.ends = bad                 # index of the entry that cannot be read
        self.odd = odd                  # index of the entry with a detector unheard of
        self.chance = chance            # of its track
        self.tree = tree                # is there one

    def bad(self, kind, cut=0.):
        """the entry at which reading particles of a kind fails"""
        odd = self.odd if kind in RECON and not (self.chance or 0.) < cut else None
        at = [i for i in (self.ends, odd) if i is not None]
        return min(at) if at else None

    def spoilt(self, kind):
        return self.bad(kind) is not None or not self.tree

    def good(self, kind):
        if not self.tree:
            return []
        bad = self.bad(kind)
        return self.spills if bad is None else self.spills[:bad]


class F08(Check):
    def scenario(self, sim):
        ch = sim.ch
        sim.summary = []
        sim.isolate_weights = True
        sim.fs.short = ch.chance(0.4)
        sim.fs.block = ch.pick([64, 1024, 8192])
        sim.fs.shuffle = ch.chance(0.8)
        sim.quanta = ch.pick([[1, 2, 4, 8, 16], [1, 1, 2, 3]])
        self.dir = "/data/root"
        self.files = {}
        self.reads = 0
        sim.fs.h_mkdir(self.dir)
        for leaf in ch.shuffled(LEAVES):
            if ch.chance(0.6):
                self.make(sim, leaf)
        if not self.files:
            self.make(sim, LEAVES[0])
        faults = Faults(sim, ch.subset(KINDS, 0.3), 2,
                        lambda proc, op, path: op in ("open_r", "read")
                        and path.endswith(".root"))
        faults.scale = ch.pick([2, 5, 15])
        faults._arm()
        together = ch.chance(0.5)
        tasks = []
        for k in range(ch.wpick([(1, 4), (2, 3), (3, 1)])):
            proc = sim.current.proc if together else sim.new_proc(
                "program%d" % k, None, sim.current.proc, start_task=False)
            tasks.append(sim.new_task(proc, lambda: self.program(sim), "client%d" % k))
        sim.wait(lambda: all(t.done for t in tasks), None, "clients")
        for t in tasks:
            if t.exc is not None:
                raise t.exc
        faults.stop()
        sim.nontrivial = self.reads > 1

    def make(self, sim, leaf):
        ch = sim.ch
        entries, spills = [], []
        number = ch.n(5)
        for _ in range(ch.wpick([(0, 1), (1, 2), (2, 3), (4, 2), (20, 0.3)])):
            fields, found = spill(ch, number)
            entries.append(fields)
            spills.append(found)
            number += ch.pick([1, 1, 1, 0, 5, -2])
        odd = chance = None
        if ch.chance(0.15):
            points = [(i, t["P_value"], q) for i, f in enumerate(entries) for e in f["GetReconEvents"]
                      for t in e["GetSciFiEvent"]["scifitracks"]
                      for q in t["scifitrackpoints"]]
            if points:
                odd, chance, q = ch.pick(points)
                q[ch.pick(["tracker", "station", "plane"])] = ch.pick([-1, 11, 100])
        tree = not ch.chance(0.07)
        data = fakeroot.render(entries, ["Header", "Spill"] if tree else ["Header"])
        bad = None
        if tree and entries and ch.chance(0.2):
            # the file ends early: entries from here on cannot be read
            bad = ch.n(len(entries))
            start = data.index(b"\n") + 1
            for _ in range(bad):
                start = data.index(b"\n", start) + 1
            data = data[:start + ch.n(data.index(b"\n", start) - start + 1)]
        with harness(sim):
            sim.fs.h_write(self.dir + "/" + leaf, data)
        self.files[leaf] = File(spills, bad, odd, chance, tree)

    def program(self, sim):
        ch = sim.ch
        for i in range(ch.between(1, 3)):
            self.reads += 1
            getattr(self, ch.wpick([("bunch", 4), ("groups", 2), ("several", 4),
                                    ("lazy", 5)]))(sim)

    def mine(self, sim, before):
        return [f for f in sim.faults.fired[before:] if f[4] is sim.current]

    def attempt(self, sim, what, fn, reasons, must):
        """the result, None after an error; must: why there has to be one"""
        sim.summary.append(what)
        before = len(sim.faults.fired)
        try:
            got = fn()
        except Exception as exc:
            exc.__traceback__ = None
            if self.mine(sim, before) or any(r(exc) for r in reasons):
                return None
            raise Violation("error", "%s raised %r without a reason" % (what, exc))
        hit_by = [f for f in self.mine(sim, before)]
        if must is None and hit_by:
            must = "an operation failed: %s" % (hit_by[0][:3],)
        if must is not None:
            raise Violation("no error", "%s: %s, but no error was raised, and there are %d "
                            "particles" % (what, must, len(got)))
        return got

    def select(self, sim, kind, limits):
        ch = sim.ch
        pattern = PATTERNS[ch.n(len(PATTERNS))]
        names = sorted(n for n in self.files if fnmatch.fnmatchcase(n, pattern))
        want, spoilt, treeless = [], False, False
        for n in names:
            for s in self.files[n].good(kind):
                want += s[kind]
            if self.files[n].spoilt(kind):
                spoilt = True
                break
        test = Test(sim, ch, len(want)) if ch.chance(0.6) else None
        if test is not None and isinstance(test.error, BadEventError):
            test.error = ValueError("refused by the test")
        limit = -1
        if limits and ch.chance(0.6):
            limit = ch.pick([0, 1, ch.n(len(want) + 3), len(want), len(want) + 1])
        raises, later = False, False
        if test is not None:
            later = test.expected(want)[1] or test.kind == "raise"
            want, raises = test.expected(want, limit)
        elif limit >= 0:
            want = want[:limit]
        must = None
        if not names:
            must = "no file matches"
        elif raises:
            must = "the acceptance test raised %r" % test.error
        elif spoilt and not 0 <= limit <= len(want):
            must = "a file is spoilt"
        reasons = [lambda exc: not names and isinstance(exc, OSError),
                   lambda exc: later and isinstance(exc, type(test.error)),
                   lambda exc: any(self.files[n].spoilt(kind) for n in names)]
        what = "%s from %s, test %s, limit %d" % (kind, pattern, test and test.kind, limit)
        return self.dir + "/" + pattern, want, test, limit, must, reasons, what

    def bunch(self, sim):
        kind = sim.ch.pick(TYPES)
        path, want, test, limit, must, reasons, what = self.select(sim, kind, True)
        kw = {}
        if limit >= 0 or sim.ch.chance(0.5):
            kw["number_of_hits"] = limit
        got = self.attempt(sim, what, lambda: Bunch.new_from_read_builtin(
            "maus_root_" + kind, path, test, **kw), reasons, must)
        if got is not None:
            files.check_same(sim, want, got.hits(), KEYS[kind], what)

    def groups(self, sim):
        ch = sim.ch
        kind = ch.pick(TYPES)
        path, want, test, limit, must, reasons, what = self.select(sim, kind, False)
        key = ch.pick(["spill", "event_number", "station"])
        if kind == "primary" and key == "station":
            key = "pid"
        if ch.chance(0.5):
            got = self.attempt(sim, what, lambda: Bunch.new_dict_from_read_builtin(
                "maus_root_" + kind, path, key, test), reasons, must)
        else:
            got = self.attempt(sim, what, lambda: Bunch.new_list_from_read_builtin(
                "maus_root_" + kind, path, key, test), reasons, must)
            if got is not None:
                values = [int(b[0][key]) for b in got]
                if values != sorted(set(values)):
                    raise Violation("groups", "%s: sorted by %s: %s" % (what, key, values))
                got = dict(zip(values, got))
        if got is None:
            return
        want = files.grouped(want, key)
        if sorted(want) != sorted(got):
            raise Violation("groups", "%s: groups of %s %s instead of %s" % (
                what, key, sorted(got), sorted(want)))
        for value in sorted(want):
            files.check_same(sim, want[value], got[value].hits(), KEYS[kind],
                             "%s: %s %d" % (what, key, value))

    def several(self, sim):
        """several kinds from one file"""
        ch = sim.ch
        kinds = [k for k in ch.shuffled(TYPES) if ch.chance(0.6)]
        args = {}
        if not kinds or ch.chance(0.2):
            kinds = list(TYPES)
        else:
            args["list_of_maus_types"] = ["maus_root_" + k for k in kinds]
        leaf = ch.pick(sorted(self.files))
        file = self.files[leaf]
        want = []
        for k in kinds:
            want += [(k, p) for s in file.good(k) for p in s[k]]
            if file.spoilt(k):
                break
        spoilt = any(file.spoilt(k) for k in kinds)
        limit = ch.pick([-1, -1, 0, 1, ch.n(len(want) + 3), len(want), len(want) + 1])
        must = None
        if spoilt and not 0 <= limit <= len(want):
            must = "the file is spoilt"
        if limit >= 0:
            want = want[:limit]
            if spoilt and "list_of_maus_types" not in args:
                must, want = None, None     # depends on the order of the kinds
        what = "%s from %s, limit %d" % (kinds, leaf, limit)
        if limit >= 0 or ch.chance(0.5):
            args["number_of_hits"] = limit
        got = self.attempt(sim, what, lambda: Bunch.read_maus_root_file(
            self.dir + "/" + leaf, **args), [lambda exc: spoilt], must)
        if got is None or want is None:
            return
        if "list_of_maus_types" not in args:
            # the order of the kinds is not promised
            if len(got) != len(want):
                raise Violation("particles", "%s: %d particles instead of %d" % (
                    what, len(got), len(want)))
            if limit < 0:
                def order(p):
                    return tuple(round(float(p[k]), 6) for k in SCIFI[:6] + SCIFI[8:])
                with harness(sim):
                    files.check_same(sim, sorted([p for _, p in want], key=order),
                                     sorted(got, key=order), SCIFI[:6] + SCIFI[8:], what)
            return
        files.check_same(sim, [p for _, p in want], got, SCIFI[:6], what)
        for (k, p), hit in zip(want, got):
            files.check_same(sim, [p], [hit], KEYS[k], what)

    # ---- one particle at a time, several readers at once
    def lazy(self, sim):
        ch = sim.ch
        before = len(sim.faults.fired)
        trees, readers = {}, []
        try:
            for _ in range(ch.between(1, 3)):
                leaf = ch.pick([n for n in sorted(self.files) if self.files[n].tree]
                               or [None])
                if leaf is None:
                    return
                if leaf not in trees or ch.chance(0.3):
                    trees[leaf] = ROOT.TFile(self.dir + "/" + leaf).Get("Spill")
                readers.append(Reader(self, sim, leaf, trees[leaf]))
        except OSError as exc:
            if not self.mine(sim, before):
                raise Violation("error", "opening: %r" % exc)
        sim.summary.append("lazy: %s" % [(r.leaf, r.kind, r.how) for r in readers])
        active = list(readers)
        while active:
            r = active[ch.n(len(active))]
            if r.advance(sim):
                active.remove(r)


class Reader(object):
    """one reader of a tree, and what it should give"""
    def __init__(self, check, sim, leaf, tree):
        ch = sim.ch
        self.check = check
        self.leaf = leaf
        self.file = check.files[leaf]
        self.kind = ch.pick(TYPES)
        self.how = ch.n(3)
        if self.how == 2:
            self.kind = ch.pick(MC)
        self.entry = ch.wpick([(0, 3), (ch.n(len(self.file.spills) + 2), 1)])
        self.next = self.entry          # entry to be read next
        self.due = []                   # read, but not yet delivered
        self.test = None
        self.retries = ch.n(3)
        self.steady = True              # is it known which entry comes next
        if self.how != 2 and ch.chance(0.5):
            self.test = Pick(sim, ch)
        self.tree = tree
        self.name = "maus_root_" + self.kind
        cls = MausRootHitFactory if self.kind in MC else MausRootReconHitFactory
        if self.how != 2:
            if self.entry == 0 and ch.chance(0.5):
                if self.test is None and ch.chance(0.5):
                    self.fac = cls(tree, self.name)
                else:
                    self.fac = cls(tree, self.name, test_function=self.test)
            else:
                self.fac = cls(tree, self.name, self.entry, self.test)
            self.gen = self.fac.hit_generator()
            if ch.chance(0.1):
                self.unheard(cls, ch)
        self.options = None
        if self.kind in RECON and self.how != 2 and ch.chance(0.4):
            # how reconstructed particles are chosen is set on the reader
            self.options = ch.pick([-1., 0., 0.1, 0.3, 0.5]), ch.chance(0.5), ch.chance(0.5)
            self.fac.sf_p_value_cut, self.fac.fallback_on_slabs, \
                self.fac.fallback_on_digits = self.options
        # from where on entries cannot be read
        self.bad = self.file.bad(self.kind, self.options[0] if self.options else 0.)
        if self.file.ends is not None and self.file.ends <= self.entry:
            self.bad = self.entry
        elif self.bad is not None and self.bad < self.entry:
            self.bad = self.file.ends   # starts behind the odd one
        self.what = "reading %s from entry %d of %s by way %d" % (
            self.kind, self.entry, leaf, self.how)

    def unheard(self, cls, ch):
        """kinds of particles that the reader does not know"""
        name = ch.pick(["maus_root_" + k for k in (RECON if self.kind in MC else MC)] +
                       ["maus_root_", "step", "maus_json_primary"])
        try:
            cls(self.tree, name, self.entry)
        except KeyError:
            return
        raise Violation("no error", "there is a reader of %s" % name)

    def chosen(self, found):
        if self.options is None:
            return found[self.kind]
        cut, slabs, digits = self.options
        out = [p for p in found["points"] if cut <= 0. or p["chance"] >= cut]
        return out if self.kind == "scifi_trackpoint" else timed(out, slabs, digits)

    def load(self, at=None):
        """what is found in an entry; None at the end"""
        at = self.next if at is None else at
        if at >= len(self.file.spills):
            return None
        out = self.chosen(self.file.spills[at])
        if self.test is not None:
            out = [p for p in out if self.test.decide(p)]
        return out

    def advance(self, sim):
        """one step; True at the end"""
        ch = sim.ch
        before = len(sim.faults.fired)
        if self.test is not None:
            self.test.failed = False
        what = self.what
        try:
            if self.how == 0:
                hit = next(self.gen)
            elif self.how == 1:
                if self.steady and ch.chance(0.1):
                    return self.more(sim, before)
                hit = self.fac.make_hit()
            else:
                return self.all(sim, before)
        except (BadEventError, StopIteration):
            while not self.due:
                more = self.load()
                if more is None:
                    return True
                if self.next == self.bad or self.check.mine(sim, before) or (
                        self.test is not None and self.test.failed):
                    raise Violation("no error", "%s ended at entry %d, which could not be "
                                    "read, without an error" % (what, self.next))
                self.next += 1
                self.due += more
            raise Violation("particles", "%s ended although %d particles are left" % (
                what, len(self.due)))
        except Exception as exc:
            return self.failed(sim, exc, before)
        while not self.due:
            more = self.load()
            if more is None or self.next == self.bad:
                raise Violation("particles", "%s: a particle after the last" % what)
            self.next += 1
            self.due += more
        files.check_same(sim, [self.due.pop(0)], [hit], KEYS[self.kind], what)
        return False

    def failed(self, sim, exc, before, loading=False):
        exc.__traceback__ = None
        asked = self.test is not None and self.test.failed and exc is self.test.error
        if not asked and not self.check.mine(sim, before):
            at = self.next              # entries without particles may have been passed
            while at != self.bad and self.load(at) == []:
                at += 1
            if (self.due and not loading) or at != self.bad:
                raise Violation("error", "%s raised %r without a reason" % (self.what, exc))
        if self.how == 1 and self.retries > 0:
            # the entry is read again, nothing of it has been given
            self.retries -= 1
            self.steady = False
            sim.probe("went on after an error")
            return False
        return True

    def more(self, sim, before):
        """the user loads another entry; what was there stays"""
        try:
            self.fac.new_spill()
        except (IndexError, BadEventError) as exc:
            if self.test is not None and exc is self.test.error:
                return self.failed(sim, exc, before, True)
            if self.load() is None:
                return False
            raise Violation("error", "%s: new_spill raised %r" % (self.what, exc))
        except Exception as exc:
            return self.failed(sim, exc, before, True)
        more = self.load()
        if more is None or self.next == self.bad:
            raise Violation("no error", "%s: new_spill at the end" % self.what)
        self.next += 1
        self.due += more
        return False

    def all(self, sim, before):
        want = []
        for i, s in enumerate(self.file.good(self.kind)):
            if i >= self.entry:
                want += s[self.kind]
        try:
            hits = Hit.new_list_from_maus_root(self.name, self.tree, self.entry)
        except Exception as exc:
            exc.__traceback__ = None
            if not self.check.mine(sim, before) and (
                    self.bad is None or
                    self.entry >= len(self.file.spills)):
                raise Violation("error", "%s raised %r without a reason" % (self.what, exc))
            return True
        if self.bad is not None and self.entry < len(self.file.spills):
            raise Violation("no error", "%s: an entry cannot be read, but no error was "
                            "raised" % self.what)
        if self.check.mine(sim, before):
            raise Violation("no error", "%s: an operation failed, but no error was "
                            "raised" % self.what)
        files.check_same(sim, want, hits, KEYS[self.kind], self.what)
        return True


class Pick(object):
    """an acceptance test that depends on the particle, and may fail now and then"""
    def __init__(self, sim, ch):
        self.sim = sim
        self.kind = ch.pick(["x", "pid", "event", "all", "nothing"])
        self.rate = ch.pick([0., 0., 0.1, 0.3])
        self.error = ch.pick([ValueError, IndexError, KeyError, RuntimeError])("refused")
        self.failed = False

    def decide(self, p):
        if self.kind == "x":
            return p["x"] > 0.
        if self.kind == "pid":
            return p["pid"] in (-13, 0, 211, 11, 22)
        if self.kind == "event":
            return p["event_number"] % 2 == 0
        return self.kind == "all"

    def __call__(self, hit):
        self.sim.point("test")
        if self.rate and self.sim.ch.chance(self.rate):
            self.failed = True
            raise self.error
        return self.decide(hit)


CHECK = F08()
