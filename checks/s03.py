"""S03: cuts and removals act on exactly the particles that match."""
import operator

from sim.kernel import Violation, harness
from sim.runner import Check
from xboa.bunch import Bunch
from xboa.core import Hitcore, WeightContext
from xboa.hit import Hit
from .state import ID_KEYS, some_ids, close, same

DOUBLES = ["x", "y", "t", "px", "pz", "energy", "bx", "e_dep", "mass"]
OTHERS = ["r", "pt", "p", "x'", "r_squared", "ct", "station", "pid", "status", "spill",
          "event_number", "particle_number"]
WEIGHTS = ["local_weight", "global_weight", "weight"]
AMPLITUDES = ["amplitude x", "amplitude x y"]
COMPARE = [operator.lt, operator.gt, operator.le, operator.ge, operator.eq, operator.ne]
COORDS = ["x", "y", "z", "t", "px", "py", "pz", "energy", "bx", "by", "bz", "ex", "ey",
          "ez", "sx", "sy", "sz", "path_length", "proper_time", "e_dep", "charge", "mass",
          "spill", "event_number", "particle_number", "station", "status", "pid"]
VALUES = [1., 1., 0.5, 2., 0.25, 3.75, 0.]


class Odd(Exception):
    """of a comparison"""


class Cell(object):
    """a weight, and what it may be while cuts go on"""
    def __init__(self, value, name):
        self.alts = [value]
        self.writes = 0
        self.name = name

    def set(self, value):
        self.alts = [value]
        self.writes += 1

    def maybe(self, value):
        if not any(same(value, v) for v in self.alts):
            self.alts.append(value)

    def see(self, value, how):
        left = [v for v in self.alts if same(v, value)]
        if not left:
            raise Violation("wrong weight", "%s: %s is %r instead of %s" % (
                how, self.name, value, " or ".join(sorted(map(repr, self.alts)))))
        self.alts = left


class Record(object):
    def __init__(self, hit, ident, local, name):
        self.hit = hit
        self.ident = ident
        self.name = name
        self.local = Cell(local, "the local weight of " + name)
        self.coords = [hit[k] for k in COORDS]


class Group(object):
    def __init__(self, bunch, members, name):
        self.bunch = bunch
        self.members = members
        self.name = name
        self.busy = 0
        self.cuts = []             # the cuts that go on, that stand changes of the group

    def fixed(self):
        return self.busy > len(self.cuts)

    def moves(self, record):
        for cut in self.cuts:
            cut.append(record)


class Shaken(object):
    """particles that come and go while a group is being cut: it may or may not reach them"""
    def __init__(self, cells, limits, compare, everywhere, world):
        self.cells = cells
        self.limits = limits
        self.compare = compare
        self.everywhere = everywhere
        self.world = world
        self.moved = False

    def append(self, r):
        self.moved = True
        if any(self.compare(r.hit[k], limit) for k, (limit, _) in self.limits.items()):
            self.cells.append(self.world.cell(r.ident) if self.everywhere else r.local)


class World(object):
    """what clients share"""
    def __init__(self):
        self.records = []
        self.groups = []
        self.globals = {}
        self.flights = []          # sets of cells that running cuts may set to zero
        self.named = 0

    def cell(self, ident):
        if ident not in self.globals:
            self.globals[ident] = Cell(1., "the global weight of %r" % (ident,))
        return self.globals[ident]

    def name(self, what):
        self.named += 1
        return "%s%d" % (what, self.named)


class Client(object):
    def __init__(self, check, sim, world, name, ids):
        self.check = check
        self.sim = sim
        self.ch = sim.ch
        self.w = world
        self.name = name
        self.ids = ids
        self.depth = 0

    # ------------------------------------------------------------- oracle
    def look(self, how):
        with harness(self.sim):
            for flight in self.w.flights:
                for cell in flight:
                    cell.maybe(0.)
            for r in self.w.records:
                r.local.see(r.hit["local_weight"], how)
                self.w.cell(r.ident).see(r.hit["global_weight"], how)
                coords = [r.hit[k] for k in COORDS]
                for k, a, b in zip(COORDS, coords, r.coords):
                    if not same(a, b):
                        raise Violation("wrong coordinate", "%s: %s of %s is %r instead of "
                                        "%r" % (how, k, r.name, a, b))
            for flight in self.w.flights:
                for cell in flight:
                    cell.maybe(0.)
            for g in self.w.groups:
                if not g.busy:
                    self.members(g, how)

    def members(self, g, how):
        if [id(h) for h in g.bunch.hits()] != [id(r.hit) for r in g.members]:
            raise Violation("wrong particles", "%s: %s has %s instead of %s" % (
                how, g.name, [h["x"] for h in g.bunch.hits()],
                [r.hit["x"] for r in g.members]))
        weights = [r.hit["local_weight"] * r.hit["global_weight"] for r in g.members]
        scale = sum(map(abs, weights))
        total = g.bunch.bunch_weight()
        if not close(total, sum(weights), scale, 1e-12):
            raise Violation("wrong total", "%s: the weight of %s is %r instead of %r" % (
                how, g.name, total, sum(weights)))
        if scale > 1e-6:
            mine = sum(w * r.hit["x"] for w, r in zip(weights, g.members)) / sum(weights)
            mean = g.bunch.mean(["x"])["x"]
            if not close(mean, mine, 1e3):
                raise Violation("wrong mean", "%s: the mean of x of %s is %r instead of %r "
                                "with weights %r" % (how, g.name, mean, mine, weights))
        else:
            try:
                g.bunch.mean(["x"])
            except ZeroDivisionError:
                return
            raise Violation("wrong mean", "%s: %s has a mean without any weight" % (
                how, g.name))

    # ------------------------------------------------------------- particles and groups
    def make(self):
        ch = self.ch
        ident = ch.pick(self.ids)
        d = dict((k, ch.between(-8, 8) / 4.) for k in ("x", "y", "t", "px", "py"))
        d.update(zip(ID_KEYS, ident))
        d.update({"pz": 200. + ch.between(-8, 8), "mass": 105.65, "pid": ch.pick([-13, 13]),
                  "station": ch.n(3), "status": ch.n(3), "bx": ch.n(3) / 4.,
                  "e_dep": float(ch.n(4))})
        local = ch.pick(VALUES)
        d["local_weight"] = local
        hit = Hit.new_from_dict(d, "energy")
        r = Record(hit, ident, local, self.w.name("r"))
        self.w.records.append(r)
        return r

    def record(self):
        own = self.own()
        if own and self.ch.chance(0.7):
            return self.ch.pick(own)
        return self.make()

    def own(self):
        return [r for r in self.w.records if r.ident in self.ids]

    def groups(self):
        return [g for g in self.w.groups
                if all(r.ident in self.ids for r in g.members)]

    def group(self):
        own = self.groups()
        if own and (self.ch.chance(0.85) or len(self.w.groups) > 5):
            return self.ch.pick(own)
        return self.new()

    def new(self):
        members = [self.record() for _ in range(self.ch.wpick(
            [(0, 0.5), (1, 1), (2, 2), (4, 3), (7, 2)]))]
        bunch = Bunch()
        for r in members:
            bunch.append(r.hit)
        g = Group(bunch, members, self.w.name("g"))
        self.w.groups.append(g)
        return g

    def append(self):
        g = self.group()
        if g.fixed():
            return
        r = self.record()
        g.moves(r)
        g.bunch.append(r.hit)
        g.members.append(r)

    def delete(self):
        g = self.group()
        if g.fixed() or not g.members:
            return
        i = self.ch.n(len(g.members))
        g.moves(g.members[i])
        del g.bunch[i]
        del g.members[i]

    def destroy(self):
        own = self.own()
        if not own:
            return
        r = self.ch.pick(own)
        groups = [g for g in self.w.groups if any(m is r for m in g.members)]
        if any(g.fixed() for g in groups):
            return
        for g in groups:
            g.moves(r)
            for i in range(len(g.members) - 1, -1, -1):
                if g.members[i] is r:
                    del g.bunch[i]
                    del g.members[i]
        self.w.records = [x for x in self.w.records if x is not r]
        r.hit = None

    def drop(self):
        own = [g for g in self.groups() if not g.busy]
        if own:
            self.w.groups.remove(self.ch.pick(own))

    # ------------------------------------------------------------- weights
    def set_weight(self):
        r = self.record()
        value = self.ch.pick(VALUES)
        if self.ch.chance(0.5):
            r.hit["local_weight"] = value
            r.local.set(value)
        else:
            r.hit["global_weight"] = value
            self.w.cell(r.ident).set(value)

    def clear(self):
        ch = self.ch
        if len(self.ids) < len(self.check.ids):
            how = 0
        else:
            how = ch.n(3)
        if how != 1:
            g = self.group()
            if g.busy - len(g.cuts) > 1:
                return             # a removal may have taken some particles already
        if how == 0:
            g.bunch.clear_local_weights()
        elif how == 1:
            Bunch.clear_global_weights()
        else:
            g.bunch.clear_weights()
        if how != 1:
            for r in g.members:
                r.local.set(1.)
        if how != 0:
            for cell in self.w.globals.values():
                cell.set(1.)

    # ------------------------------------------------------------- cuts
    def comparison(self, compare, quiet):
        """a callback for compare: raises, runs other clients, answers oddly"""
        ch = self.ch
        kind = "plain" if quiet else ch.wpick([
            ("plain", 4), ("raise", 2), ("yield", 3), ("reenter", 1.5), ("number", 0.4)])
        raised = []
        if kind == "plain":
            return compare, kind, raised
        left = [ch.n(6)]
        error = ch.pick([Odd("comparison"), KeyboardInterrupt(), ValueError("comparison"),
                         StopIteration(), ZeroDivisionError(), KeyError("x"), IndexError(),
                         SystemExit(3)])

        def call(a, b):
            left[0] -= 1
            if kind == "raise":
                if left[0] < 0:
                    raised.append(error)
                    self.sim.count("comparison raises")
                    raise error
            elif kind == "yield":
                self.sim.point("comparison")
                self.look("in a comparison")
            elif kind == "reenter":
                if left[0] == 0 and self.depth < 2:
                    self.depth += 1
                    self.step(self.INNER)
                    self.depth -= 1
            elif kind == "number":
                return 1 if compare(a, b) else 0
            return compare(a, b)
        return call, kind, raised

    def limit(self, variable, values):
        ch = self.ch
        if values and ch.chance(0.6):
            value = ch.pick(values)
            if isinstance(value, float) and ch.chance(0.4):
                value += ch.pick([-0.125, 0.125])
            return value
        return ch.between(-8, 8) / 4.

    def variables(self, g, quiet):
        ch = self.ch
        out = {}
        for _ in range(ch.wpick([(1, 5), (2, 2), (3, 1)])):
            kinds = [(DOUBLES, 5), (OTHERS, 3)]
            if quiet:
                kinds += [(WEIGHTS, 1.5), (AMPLITUDES, 0.5)]
            variable = ch.pick(ch.wpick(kinds))
            with harness(self.sim):
                if "amplitude" in variable:
                    try:
                        values = g.bunch.list_get_hit_variable([variable])[0]
                    except Exception:
                        continue    # too few particles
                else:
                    values = [r.hit[variable] for r in g.members]
            alone = variable in WEIGHTS or "amplitude" in variable
            if alone and out:
                continue            # may depend on what the other variable has cut
            out[variable] = (self.limit(variable, values), values)
            if alone:
                break
        return out

    def sigma(self, g, variable):
        """the limit in units of the standard deviation of the variable"""
        values = [r.hit[variable] for r in g.members]
        weights = [r.hit["local_weight"] * r.hit["global_weight"] for r in g.members]
        total = sum(weights)
        if total < 1e-6:
            return None
        mean = sum(w * v for w, v in zip(weights, values)) / total
        square = sum(w * (v - mean) ** 2 for w, v in zip(weights, values)) / total
        if square < 1e-6:
            return None
        return square ** 0.5, values

    def chosen(self, g, quiet):
        """arguments of a cut, and the limits they stand for"""
        ch = self.ch
        if ch.chance(0.2):
            variable = ch.pick(["x", "px", "t", "r", "pt", "pz"])
            with harness(self.sim):
                found = self.sigma(g, variable)
            if found is None:
                return None
            sigma, values = found
            number = ch.between(-20, 20) / 8.
            if any(abs(v - number * sigma) < 1e-6 for v in values):
                return None
            return {variable: number}, {variable: (number * sigma, values)}, True
        limits = self.variables(g, quiet)
        return dict((k, v[0]) for k, v in limits.items()), limits, False

    def match(self, g, limits, compare):
        out = []
        for i, r in enumerate(g.members):
            if any(compare(values[i], limit) for limit, values in limits.values()):
                out.append(r)
        return out

    def cut(self):
        ch = self.ch
        g = self.group()
        if g.busy > 1:
            return
        quiet = ch.chance(0.5)
        args = self.chosen(g, quiet)
        if args is None:
            return
        given, limits, nsigma = args
        compare = ch.pick(COMPARE)
        matched = self.match(g, limits, compare)
        everywhere = ch.chance(0.5)
        callback, kind, errors = self.comparison(compare, quiet)
        cells = [self.w.cell(r.ident) if everywhere else r.local for r in matched]
        writes = [c.writes for c in cells]
        self.w.flights.append(cells)
        g.busy += 1
        shaken = None
        if not nsigma and all(k in DOUBLES for k in given):
            shaken = Shaken(cells, limits, compare, everywhere, self.w)
            g.cuts.append(shaken)
        raised = None
        try:
            if nsigma:
                g.bunch.cut(given, callback, value_is_nsigma_bool=True,
                            global_cut=everywhere)
            elif ch.chance(0.5):
                g.bunch.cut(given, callback, global_cut=everywhere)
            else:
                g.bunch.cut(given, callback, False, everywhere)
        except (Violation, AssertionError):
            raise
        except BaseException as exc:
            if type(exc).__name__ == "SimKilled":
                raise
            raised = exc
        for cell in cells:
            cell.maybe(0.)
        self.w.flights[:] = [f for f in self.w.flights if f is not cells]
        g.busy -= 1
        if shaken:
            g.cuts.remove(shaken)
        self.judge(kind, errors, raised, "cut(%r)" % (given,))
        if raised is None and not (shaken and shaken.moved):
            for cell, n in zip(cells, writes):
                if cell.writes == n:
                    cell.alts = [0.]
            for cell in cells:
                cell.writes += 1

    def judge(self, kind, errors, raised, what):
        if raised is None:
            if errors:
                raise Violation("no error", "the comparison of %s raised an error but the "
                                "caller got none" % what)
        elif kind not in ("raise", "number") or kind == "raise" and not errors:
            raise raised

    def remove(self):
        ch = self.ch
        g = self.group()
        if g.busy:
            return
        quiet = ch.chance(0.5)
        args = self.chosen(g, quiet)
        if args is None:
            return
        given, limits, nsigma = args
        compare = ch.pick(COMPARE)
        gone = set(map(id, self.match(g, limits, compare)))
        callback, kind, errors = self.comparison(compare, quiet)
        g.busy += 2
        raised = None
        try:
            g.bunch.conditional_remove(given, callback, nsigma)
        except (Violation, AssertionError):
            raise
        except BaseException as exc:
            if type(exc).__name__ == "SimKilled":
                raise
            raised = exc
        g.busy -= 2
        self.judge(kind, errors, raised, "conditional_remove(%r)" % (given,))
        if raised is None:
            g.members = [r for r in g.members if id(r) not in gone]
            return
        # no other than matching particles may be missing
        with harness(self.sim):
            left = list(g.bunch.hits())
        now = []
        for r in g.members:
            if left and left[0] is r.hit:
                now.append(r)
                left.pop(0)
            elif id(r) not in gone:
                raise Violation("wrong particles", "conditional_remove that failed removed "
                                "%s, which does not match" % r.name)
        if left:
            raise Violation("wrong particles", "conditional_remove that failed left other "
                            "particles")
        g.members = now

    def transmission(self):
        ch = self.ch
        g, other = self.group(), self.group()
        if g.busy or other.busy:
            return
        keys = ch.wpick([(None, 3), (["event_number"], 1), ("spill", 1), ("station", 1),
                         (["spill", "particle_number"], 1), (["pid", "station"], 1),
                         (["x"], 1), (["status", "x", "event_number"], 0.5)])
        listed = ID_KEYS if keys is None else [keys] if isinstance(keys, str) else keys
        everywhere = ch.chance(0.5)
        near = None
        if keys is not None and len(listed) == 1 and ch.chance(0.5):
            # numbers are eighths, so never at the edge of the tolerance
            near = ch.pick([0.05, 0.2, 0.7, 1.2])
        with harness(self.sim):
            kept = set(tuple(r.hit[k] for k in listed) for r in other.members)
            lost = [r for r in g.members if tuple(r.hit[k] for k in listed) not in kept]
            if near is not None:
                lost = [r for r in lost if all(
                    abs(r.hit[listed[0]] - v[0]) >= near for v in kept)]
        cells = [self.w.cell(r.ident) if everywhere else r.local for r in lost]
        self.w.flights.append(cells)
        g.busy += 2
        other.busy += 2
        args = {"global_cut": everywhere}
        if keys is not None:
            args["test_variable"] = keys
        if near is not None:
            args["float_tolerance"] = near
        g.bunch.transmission_cut(other.bunch, **args)
        g.busy -= 2
        other.busy -= 2
        self.w.flights[:] = [f for f in self.w.flights if f is not cells]
        for c in cells:
            c.set(0.)

    def fail(self):
        """cuts that cannot work"""
        ch = self.ch
        g = self.group()
        if g.busy or not g.members:
            return
        way = ch.n(4)
        try:
            if way == 0:
                g.bunch.cut({"no such": 1.}, operator.gt)
            elif way == 1:
                g.bunch.cut({"x": 1.}, ch.pick([None, 3, "gt"]))
            elif way == 2:
                g.bunch.cut({"x": "far"}, operator.gt)
            else:
                g.bunch.conditional_remove({"no such": 1.}, operator.gt)
        except Exception:
            return
        raise Violation("no error", "a cut that cannot work (%d) raised no error" % way)

    OPS = [("new", 1), ("append", 2), ("delete", 1), ("drop", 0.5), ("destroy", 0.7), ("set_weight", 4),
           ("clear", 1), ("cut", 7), ("remove", 3), ("transmission", 3), ("fail", 0.5)]
    INNER = [("set_weight", 2), ("clear", 1), ("cut", 2), ("transmission", 1),
             ("append", 1), ("delete", 1), ("destroy", 2)]

    def step(self, ops):
        name = self.ch.wpick(ops)
        self.sim.log("OP %s %s" % (self.name, name))
        getattr(self, name)()
        self.check.done.add(name)
        self.look("after " + name)
        self.sim.point("do " + name)

    def work(self, steps):
        for _ in range(steps):
            self.step(self.OPS)


class S03(Check):
    def scenario(self, sim):
        ch = sim.ch
        sim.summary = []
        sim.isolate_weights = True
        sim.quanta = ch.pick([[1, 2, 4, 8, 16], [1, 1, 2, 3]])
        self.done = set()
        self.ids = ids = some_ids(ch, 1, 7)
        if ch.chance(0.3):
            Hitcore.set_weight_context(WeightContext())
        world = World()
        n = ch.wpick([(1, 2), (2, 3), (3, 1)])
        parts = [ids] * n
        if ch.chance(0.2) and len(ids) > 1:
            # clients with their own particles, preempted at any line
            n = 2
            parts = [ids[i::n] for i in range(n)]
            sim.max_steps = 400000
        worlds = [world] * n if parts[0] is ids else [World() for _ in parts]
        clients = [Client(self, sim, worlds[k], "c%d" % k, parts[k]) for k in range(n)]
        sim.trace_lines = parts[0] is not ids
        tasks = [sim.new_task(sim.current.proc, lambda c=c, k=ch.between(
            3, 5) if sim.trace_lines else ch.many(3, 12, 50): c.work(k), c.name) for c in clients]
        sim.wait(lambda: all(t.done for t in tasks), None, "clients")
        sim.trace_lines = False
        for t in tasks:
            if t.exc is not None:
                raise t.exc
        for c in clients:
            c.look("at the end")
        sim.nontrivial = len(self.done & set(["cut", "remove", "transmission"])) > 1


CHECK = S03()
