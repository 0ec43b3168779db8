"""F05: reading selects exactly the requested particles."""
import fnmatch
import os

from sim.kernel import Violation, harness
from sim.runner import Check
from xboa.bunch import Bunch
from xboa.hit import BadEventError, Hit
from xboa.hit.factory import BuiltinHitFactory, UserHitFactory
from . import files

LEAVES = ["run1.dat", "run10.dat", "run2.dat", "Run3.dat", "run_a.dat", "other.txt",
          "run1.dat.bak", ".run5.dat"]
PATTERNS = ["run*.dat", "run?.dat", "*.dat", "run[12].dat", "*", "run1.dat", "run1*",
            "[!r]*.dat", "none*", "run7.dat"]


class Refused(Exception):
    pass


ERRORS = [Refused, ValueError, KeyError, IndexError, EOFError, BadEventError, OSError,
          ZeroDivisionError, AttributeError, TypeError]


class Test(object):
    """an acceptance test, and what it means for plain particles"""
    def __init__(self, sim, ch, count):
        self.sim = sim
        self.kind = ch.wpick([("station", 2), ("pid", 2), ("x", 2), ("every", 1),
                              ("raise", 2), ("all", 0.5), ("nothing", 0.5)])
        self.k = ch.between(1, 4)
        self.base = ch.pick(["station", "x", "all"])
        self.at = ch.n(count + 2)
        self.error = ERRORS[ch.n(len(ERRORS))]("refused by the test")
        self.calls = 0
        self.stateful = 0
        self.style = ch.n(3)

    def decide(self, kind, q):
        if kind == "station":
            return q["event_number"] % 2 == 0
        if kind == "pid":
            return q["pid"] in (-13, 211, 11, 22)
        if kind == "x":
            return q["x"] > 0.
        return kind == "all"

    def __call__(self, hit):
        if self.sim.current is not None:
            self.sim.point("test")
        self.calls += 1
        if self.kind == "raise":
            if self.calls > self.at:
                raise self.error
            ok = self.decide(self.base, hit)
        elif self.kind == "every":
            ok = self.calls % self.k == 0
        else:
            ok = self.decide(self.kind, hit)
        if self.style == 1:
            return 1 if ok else 0
        if self.style == 2:
            return "yes" if ok else ""
        return ok

    def expected(self, parts, limit=-1):
        """(accepted particles, is an error raised)"""
        out = []
        for i, p in enumerate(parts):
            if limit >= 0 and len(out) >= limit:
                return out, False
            if self.kind == "raise":
                if i >= self.at:
                    return out, True
                ok = self.decide(self.base, p)
            elif self.kind == "every":
                ok = (i + 1) % self.k == 0
            else:
                ok = self.decide(self.kind, p)
            if ok:
                out.append(p)
        return out, False


class F05(Check):
    def scenario(self, sim):
        ch = sim.ch
        sim.summary = []
        sim.isolate_weights = True
        sim.fs.short = ch.chance(0.3)
        sim.fs.block = ch.pick([64, 256, 8192])
        sim.fs.shuffle = ch.chance(0.8)
        sim.quanta = ch.pick([[1, 2, 4, 8, 16], [1, 1, 2, 3], [8, 32]])
        Hit.set_g4bl_unit("mm")
        self.fmt = files.TEXT[ch.n(len(files.TEXT))]
        self.columns, self.units, self.ukeys = files.user_format(ch)
        self.columns = [c for c in self.columns if c]
        self.dir = "/data/set"
        self.files = {}
        self.ufiles = {}
        for leaf in ch.shuffled(LEAVES):
            if ch.chance(0.5):
                self.files[leaf] = self.make(sim, self.dir + "/" + leaf)
        for i in range(ch.n(2) + 1):
            self.ufiles["/data/u%d" % i] = self.make_user(sim, "/data/u%d" % i)
        self.reads = 0
        together = ch.chance(0.5)
        tasks = []
        for k in range(ch.wpick([(1, 4), (2, 3), (3, 1)])):
            proc = sim.current.proc if together else sim.new_proc(
                "program%d" % k, None, sim.current.proc, start_task=False)
            tasks.append(sim.new_task(proc, lambda: self.program(sim), "client%d" % k))
        sim.wait(lambda: all(t.done for t in tasks), None, "clients")
        for t in tasks:
            if t.exc is not None:
                raise t.exc
        sim.nontrivial = self.reads > 1

    def make(self, sim, path):
        ch = sim.ch
        parts = files.particles(ch, files.amount(ch), files.codes(self.fmt))
        with harness(sim):
            text, _ = files.render(ch, self.fmt, parts, style=ch.pick([0, 0, 1, 2]),
                                   strays=ch.pick([0., 0., 0.2]))
            sim.fs.h_write(path, text)
        return parts

    def make_user(self, sim, path):
        ch = sim.ch
        alias = dict((v, k) for k, v in files.ALIAS.items())
        parts = files.odd_ones(
            ch, files.particles(ch, files.amount(ch), files.ANY_PID), self.ukeys)
        skip = ch.n(3)
        lines = []
        for p in parts:
            words = []
            for name in self.columns:
                key = alias.get(name, name)
                words.append("%d" % p[key] if key in files.INTS else
                             "%r" % (p[key] / files.unit_scale(key, self.units[name])))
            lines.append("\t".join(words))
            for key in files.SETTABLE:
                if key not in self.ukeys and key not in ("mass", "charge"):
                    p[key] = 0 if isinstance(p[key], int) else 0.
            if "local_weight" not in self.ukeys:
                p["local_weight"] = 1.
            if "ct" in self.ukeys:
                p["t"] = p["ct"] / files.C_LIGHT
        with harness(sim):
            lines = [ch.pick(["header", "1 " * len(self.columns)] + lines[:1])
                     for _ in range(skip)] + lines
            sim.fs.h_write(path, "".join(x + "\n" for x in lines))
        return parts, skip

    def matching(self, pattern):
        if not any(c in pattern for c in "*?["):
            return [pattern] if pattern in self.files else []
        return sorted(n for n in self.files if fnmatch.fnmatchcase(n, pattern)
                      and (not n.startswith(".") or pattern.startswith(".")))

    # ---- the clients
    def program(self, sim):
        ch = sim.ch
        for _ in range(ch.many(1, 4, 15)):
            self.reads += 1
            how = ch.wpick([("bunch", 4), ("dict", 2), ("list", 2), ("lazy", 3),
                            ("user", 3), ("unknown", 0.4)])
            getattr(self, how)(sim)

    def select(self, sim, limits=True):
        ch = sim.ch
        pattern = PATTERNS[ch.n(len(PATTERNS))]
        names = self.matching(pattern)
        want = [p for n in names for p in self.files[n]]
        test = Test(sim, ch, len(want)) if ch.chance(0.7) else None
        limit = -1
        if limits and ch.chance(0.6):
            limit = ch.pick([0, 1, ch.n(len(want) + 3), len(want), len(want) + 1,
                             ch.n(len(want) + 3)])
        raises = False
        if test is not None:
            want, raises = test.expected(want, limit)
        elif limit >= 0:
            want = want[:limit]
        return self.dir + "/" + pattern, names, want, test, limit, raises

    def attempt(self, sim, what, names, test, raises, fn):
        """the result, or None if an error was due and was raised"""
        sim.summary.append(what)
        try:
            got = fn()
        except Exception as exc:
            exc.__traceback__ = None
            if names == [] and isinstance(exc, OSError):
                return None
            if raises and exc is test.error:
                return None
            if raises and isinstance(exc, type(test.error)):
                return None                 # passed on in another coat
            raise Violation("error", "%s raised %r%s" % (
                what, exc, " instead of %r" % test.error if raises else ""))
        if names == []:
            raise Violation("no match", "%s: no file matches, but no error was raised"
                            % what)
        if raises:
            raise Violation("error lost", "%s: the acceptance test raised %r, but the "
                            "caller got no error" % (what, test.error))
        return got

    def describe(self, what, pattern, test, limit):
        return "%s of %s from %s, test %s, limit %d" % (
            what, self.fmt, os.path.basename(pattern), test and test.kind, limit)

    def bunch(self, sim):
        pattern, names, want, test, limit, raises = self.select(sim)
        what = self.describe("bunch", pattern, test, limit)
        kw = {}
        if limit >= 0 or sim.ch.chance(0.5):
            kw["number_of_hits"] = limit
        got = self.attempt(sim, what, names, test, raises, lambda:
                           Bunch.new_from_read_builtin(self.fmt, pattern, test, **kw))
        if got is None:
            return
        files.check_same(sim, want, got.hits(), files.read_keys(self.fmt), what)
        if sim.ch.chance(0.5):
            key = sim.ch.pick(["event_number", "pid", "particle_number", "station"])
            if key not in files.FORMATS[self.fmt].keys:
                key = "pid"
            self.groups(sim, want, got.split(key), key, "split: " + what)

    def groups(self, sim, want, got, key, what):
        groups = files.grouped(want, key)
        if sorted(got) != sorted(groups):
            raise Violation("groups", "%s: groups of %s %s instead of %s" % (
                what, key, sorted(got), sorted(groups)))
        for value in sorted(groups):
            files.check_same(sim, groups[value], got[value].hits(),
                             files.read_keys(self.fmt), "%s: %s %d" % (what, key, value))

    def key(self, sim):
        key = sim.ch.pick(["event_number", "pid", "particle_number", "station"])
        return key if key in files.FORMATS[self.fmt].keys else "event_number"

    def dict(self, sim):
        pattern, names, want, test, limit, raises = self.select(sim, False)
        what = self.describe("dict", pattern, test, limit)
        key = self.key(sim)
        got = self.attempt(sim, what, names, test, raises, lambda:
                           Bunch.new_dict_from_read_builtin(self.fmt, pattern, key, test))
        if got is not None:
            self.groups(sim, want, got, key, what)

    def list(self, sim):
        pattern, names, want, test, limit, raises = self.select(sim, False)
        what = self.describe("list", pattern, test, limit)
        key = self.key(sim)
        got = self.attempt(sim, what, names, test, raises, lambda:
                           Bunch.new_list_from_read_builtin(self.fmt, pattern, key, test))
        if got is None:
            return
        values = [int(b[0][key]) for b in got]
        if values != sorted(set(values)):
            raise Violation("groups", "%s: sorted by %s: %s" % (what, key, values))
        self.groups(sim, want, dict(zip(values, got)), key, what)

    # ---- the lazy interfaces, several files at once
    def lazy(self, sim):
        ch = sim.ch
        if not self.files:
            return
        readers = []
        for _ in range(ch.between(1, 3)):
            name = ch.pick(sorted(self.files))
            f = Bunch.setup_file(self.fmt, self.dir + "/" + name)
            fac = BuiltinHitFactory(self.fmt, f)
            readers.append([name, f, fac, fac.hit_generator(), [], ch.n(3)])
        sim.summary.append("lazy: %s" % [r[0] for r in readers])
        active = list(readers)
        while active:
            r = active[ch.n(len(active))]
            name, f, fac, gen, hits, how = r
            try:
                if how == 0:
                    hits.append(next(gen))
                elif how == 1:
                    hits.append(fac.make_hit())
                else:
                    hits.append(Hit.new_from_read_builtin(self.fmt, f))
            except BadEventError:
                if how == 0:
                    raise
            except (EOFError, StopIteration):
                f.close()
                active.remove(r)
        for name, f, fac, gen, hits, how in readers:
            files.check_same(sim, self.files[name], hits, files.read_keys(self.fmt),
                             "lazy reading by way %d" % how)
            if ch.chance(0.3):
                got = Bunch.new_from_read_builtin(self.fmt, self.dir + "/" + name)
                files.check_same(sim, self.files[name], got.hits(),
                                 files.read_keys(self.fmt), "eager reading")

    def unknown(self, sim):
        """a format that there is not reads no file"""
        ch = sim.ch
        path = self.dir + "/" + ch.pick(sorted(self.files) or ["run7.dat"])
        name = ch.pick(["nonsense", "", self.fmt + "x", self.fmt.upper() + "_"])
        how = ch.pick(["bunch", "dict", "list", "factory", "columns"])
        if how == "columns":
            self.unknown_column(sim)
            return
        sim.summary.append("read with format %r by %s" % (name, how))
        try:
            if how == "bunch":
                got = Bunch.new_from_read_builtin(name, path)
            elif how == "dict":
                got = Bunch.new_dict_from_read_builtin(name, path, "pid")
            elif how == "list":
                got = Bunch.new_list_from_read_builtin(name, path, "pid")
            elif path[len(self.dir) + 1:] in self.files:
                with open(path) as f:
                    got = list(BuiltinHitFactory(name, f).hit_generator())
            else:
                return
        except Exception as exc:
            exc.__traceback__ = None
            return
        raise Violation("unknown format", "reading with the format %r by %s gave %d"
                        % (name, how, len(got)))

    def unknown_column(self, sim):
        """a quantity or unit that there is not reads no particle"""
        ch = sim.ch
        path = ch.pick(sorted(self.ufiles))
        columns, units = list(self.columns), dict(self.units)
        scaled = [c for c in columns if files.ALIAS.get(c, c) in columns and
                  c not in files.INTS and c not in files.ALIAS.values()]
        what = ch.pick(["name", "unit", "no unit"] if scaled else ["name"])
        if what == "name":
            columns[ch.n(len(columns))] = name = "nonsense"
            units[name] = ch.pick(["", "mm"])
        else:
            name = ch.pick(scaled)
            if what == "unit":
                units[name] = "parsec"
            else:
                del units[name]
        sim.summary.append("read with unknown %s of %s" % (what, name))
        parts, skip = self.ufiles[path]
        f = open(path)
        try:
            if ch.chance(0.5):
                got = list(Bunch.new_from_read_user(columns, units, f, skip).hits())
            else:
                for _ in range(skip):
                    f.readline()
                got = list(UserHitFactory(columns, units, f, "").hit_generator())
        except Exception as exc:
            exc.__traceback__ = None
            return
        finally:
            f.close()
        if parts:
            raise Violation("unknown column", "columns %s with unknown %s of %r gave %d "
                            "particles" % (columns, what, name, len(got)))

    def user(self, sim):
        ch = sim.ch
        path = ch.pick(sorted(self.ufiles))
        parts, skip = self.ufiles[path]
        keys = list(self.ukeys) + (["t"] if "ct" in self.ukeys else [])
        f = open(path)
        if ch.chance(0.3):
            for _ in range(skip):
                f.readline()
            gen = UserHitFactory(self.columns, self.units, f, "").hit_generator()
            files.check_same(sim, parts, list(gen), keys, "lazy, columns %s" % self.columns)
            f.close()
            return
        test = Test(sim, ch, len(parts)) if ch.chance(0.7) else None
        limit = ch.pick([-1, 0, 1, ch.n(len(parts) + 3), len(parts)])
        want, raises = parts, False
        if test is not None:
            want, raises = test.expected(parts, limit)
        elif limit >= 0:
            want = parts[:limit]
        what = "columns %s, test %s, limit %d" % (self.columns, test and test.kind, limit)
        got = self.attempt(sim, what, None, test, raises, lambda: Bunch.new_from_read_user(
            self.columns, self.units, f, skip, test, limit))
        f.close()
        if got is not None:
            files.check_same(sim, want, got.hits(), keys, what)


CHECK = F05()
