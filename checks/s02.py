"""S02: a particle group always agrees with a plain list of its particles."""
import copy
import gc
import itertools
import math
import operator

import numpy

from sim.kernel import Violation, harness
from sim.runner import Check
from xboa.bunch import Bunch
from xboa.hit import Hit
from .state import close

DOUBLES = ["x", "y", "z", "t", "px", "py", "pz", "energy", "bx", "ez", "path_length"]
DERIVED = ["r", "pt", "p", "ct", "x'", "r_squared", "station", "status", "spill"]
WEIGHTS = [1., 1., 1., 0., 0.5, 2., 3.75]
BAD_INDEX = ["0", None, 1.5, [], (0, 1), object()]
BAD_HIT = [None, 3, "hit", [], {"x": 1.}, object]


class Odd(Exception):
    """of a callback"""


class Index(object):
    """an index that is no int"""
    def __init__(self, i):
        self.i = i

    def __index__(self):
        return self.i


class Group(object):
    def __init__(self, bunch, hits, name):
        self.bunch = bunch
        self.hits = hits           # the plain list
        self.name = name
        self.frozen = False        # keeps its moments in store


def ids(hits):
    return [id(h) for h in hits]


class Client(object):
    def __init__(self, check, sim, name):
        self.check = check
        self.sim = sim
        self.ch = sim.ch
        self.name = name

    # ------------------------------------------------------------- particles
    def hit(self):
        """a new record or one in use"""
        ch = self.ch
        if self.check.hits and ch.chance(0.3):
            return ch.pick(self.check.hits)
        return self.new_hit()

    def new_hit(self):
        ch = self.ch
        d = dict((k, ch.between(-64, 64) / 8. + self.check.offset.get(k, 0.))
                 for k in ("x", "y", "z", "t", "px", "py"))
        d.update({"pz": 200. + ch.between(-64, 64), "mass": 105.65, "pid": -13,
                  "station": ch.n(3), "status": ch.n(5), "spill": ch.n(2),
                  "event_number": ch.n(4), "particle_number": ch.n(2),
                  "bx": ch.n(3) / 4., "ez": ch.n(3) * 1e-3, "path_length": ch.n(5) * 10.,
                  "local_weight": ch.pick(WEIGHTS)})
        if ch.chance(0.02):
            d["t"] = ch.pick([float("inf"), float("-inf")])
        hit = Hit.new_from_dict(d, "energy")
        if ch.chance(0.2):
            hit["global_weight"] = ch.pick(WEIGHTS)
        self.check.hits.append(hit)
        return hit

    def change(self):
        """a particle, wherever it is"""
        ch = self.ch
        if not self.check.hits:
            return
        hit = ch.pick(self.check.hits)
        key = ch.pick(["x", "px", "local_weight", "global_weight", "station"])
        hit[key] = ch.pick(WEIGHTS) if "weight" in key else ch.between(-9, 9)

    def forget(self):
        if self.check.hits:
            self.check.hits.pop(self.ch.n(len(self.check.hits)))
            if self.ch.chance(0.3):
                gc.collect()

    # ------------------------------------------------------------- groups
    def group(self):
        if not self.check.groups:
            return self.new()
        return self.ch.pick(self.check.groups)

    def new(self):
        ch = self.ch
        hits = [self.hit() for _ in range(ch.wpick([(0, 1), (1, 2), (2, 3), (3, 3), (5, 2),
                                                    (9, 1), (40, 0.1)]))]
        self.check.named += 1
        name = "g%d" % self.check.named
        if ch.chance(0.6):
            bunch = Bunch()
            for h in hits:
                bunch.append(h)
            g = Group(bunch, hits, name)
        else:
            bunch = Bunch.new_from_hits(hits)
            g = self.copied(bunch, hits, name)
        self.check.groups.append(g)
        if len(self.check.groups) > 4:
            self.check.groups.pop(0)
        return g

    def copied(self, bunch, hits, name):
        """a deep copy: equal but independent"""
        with harness(self.sim):
            mine = list(bunch.hits())
            if len(mine) != len(hits):
                raise Violation("wrong copy", "a copy has %d particles instead of %d" % (
                    len(mine), len(hits)))
            for a, b in zip(mine, hits):
                if any(a is h for h in hits):
                    raise Violation("not independent", "a deep copy has a particle of the "
                                    "original")
                if stored(a) != stored(b):
                    raise Violation("wrong copy", "a copy differs: %r instead of %r" % (
                        stored(a), stored(b)))
        return Group(bunch, mine, name)

    def fails(self, g, what, fn, *errors):
        """fn fails and changes nothing"""
        try:
            fn()
        except errors:
            return
        except Exception:
            if errors == (Exception,):
                return
            raise
        raise Violation("no error", "%s raised no error on %s of %d" % (
            what, g.name, len(g.hits)))

    def append(self):
        g = self.group()
        if self.ch.chance(0.15):
            bad = self.ch.pick(BAD_HIT)
            self.fails(g, "append", lambda: g.bunch.append(bad), Exception)
            return
        hit = self.hit()
        g.bunch.append(hit)
        g.hits.append(hit)

    def index(self, g):
        n = len(g.hits)
        i = self.ch.between(-n - 2, n + 1)
        return i, (Index(i) if self.ch.chance(0.1) else i)

    def slice(self, g):
        ch = self.ch
        n = len(g.hits)
        ends = [None] + list(range(-n - 2, n + 3))
        return slice(ch.pick(ends), ch.pick(ends), ch.wpick(
            [(None, 5), (1, 1), (2, 1), (-1, 2), (-2, 1), (3, 1)]))

    def replace(self):
        ch = self.ch
        g = self.group()
        hit = self.hit()
        if ch.chance(0.2):
            bad = ch.pick(BAD_INDEX + [slice(0, 2), slice(None)])
            self.fails(g, "replacing at %r" % (bad,),
                       lambda: operator.setitem(g.bunch, bad, hit), Exception)
            return
        i, index = self.index(g)
        if ch.chance(0.15):
            bad = ch.pick(BAD_HIT)
            self.fails(g, "replacing by no particle",
                       lambda: operator.setitem(g.bunch, index, bad), Exception)
            return
        if not -len(g.hits) <= i < len(g.hits):
            self.fails(g, "replacing at %d" % i,
                       lambda: operator.setitem(g.bunch, index, hit), IndexError)
            return
        g.bunch[index] = hit
        g.hits[i] = hit

    def delete(self):
        ch = self.ch
        g = self.group()
        if ch.chance(0.15):
            bad = ch.pick(BAD_INDEX)
            self.fails(g, "deleting %r" % (bad,),
                       lambda: operator.delitem(g.bunch, bad), Exception)
            return
        if ch.chance(0.4):
            s = self.slice(g)
            del g.bunch[s]
            del g.hits[s]
            return
        i, index = self.index(g)
        if not -len(g.hits) <= i < len(g.hits):
            self.fails(g, "deleting %d" % i,
                       lambda: operator.delitem(g.bunch, index), IndexError)
            return
        del g.bunch[index]
        del g.hits[i]

    def read(self):
        ch = self.ch
        g = self.group()
        if ch.chance(0.15):
            bad = ch.pick(BAD_INDEX)
            self.fails(g, "reading %r" % (bad,),
                       lambda: operator.getitem(g.bunch, bad), Exception)
            return
        if ch.chance(0.4):
            s = self.slice(g)
            if ids(g.bunch[s]) != ids(g.hits[s]):
                raise Violation("wrong slice", "%s of %s gives other particles" % (s, g.name))
            return
        i, index = self.index(g)
        if not -len(g.hits) <= i < len(g.hits):
            self.fails(g, "reading %d" % i, lambda: g.bunch[index], IndexError)
        elif g.bunch[index] is not g.hits[i]:
            raise Violation("wrong particle", "entry %d of %s is another particle" % (
                i, g.name))

    def deepcopy(self):
        g = self.group()
        bunch = self.ch.pick([lambda: g.bunch.deepcopy(),
                              lambda: copy.deepcopy(g.bunch)])()
        self.check.named += 1
        other = self.copied(bunch, g.hits, "copy%d" % self.check.named)
        other.frozen = g.frozen
        if not bunch == g.bunch or bunch != g.bunch:
            raise Violation("wrong copy", "a deep copy is not equal to the original")
        if g.frozen:
            other.bunch.set_covariance_matrix(False)
            other.frozen = False
            if not g.bunch.covariances_set():
                raise Violation("not independent", "the original lost its moments")
        if self.ch.chance(0.5):
            self.check.groups[self.check.groups.index(g)] = other
        else:
            self.check.groups.append(other)
            if len(self.check.groups) > 4:
                self.check.groups.pop(0)

    def shallow(self):
        """reads the same particles"""
        g = self.group()
        other = self.ch.pick([lambda: g.bunch.copy(), lambda: copy.copy(g.bunch)])()
        if ids(other.hits()) != ids(g.hits):
            raise Violation("wrong copy", "a shallow copy has other particles")

    def drop(self):
        if self.check.groups:
            self.check.groups.pop(self.ch.n(len(self.check.groups)))
            if self.ch.chance(0.3):
                gc.collect()

    def chosen(self):
        ch = self.ch
        g = self.group()
        value = ch.between(-4, 8)
        compare = ch.pick([operator.lt, operator.ge, operator.eq, operator.ne])
        key = ch.pick(["x", "station", "r", "event_number"])
        if ch.chance(0.2) and g.hits:
            left = [ch.n(len(g.hits))]

            def bad(a, b):
                left[0] -= 1
                if left[0] < 0:
                    raise Odd()
                return True
            self.fails(g, "a test that raises", lambda: g.bunch.get_hits(key, value, bad),
                       Odd)
            return
        got = g.bunch.get_hits(key, value, compare) if ch.chance(0.8) else \
            g.bunch.get_hits(key, value)
        if got != [] and compare is not operator.eq and ids(got) == ids(g.hits):
            pass
        want = [h for h in g.hits if compare(h[key], value)]
        equal = [h for h in g.hits if h[key] == value]
        if ids(got) not in (ids(want), ids(equal)):
            raise Violation("wrong choice", "get_hits(%r, %r) gives other particles" % (
                key, value))

    def parts(self):
        g = self.group()
        parts = g.bunch.split("station")
        want = {}
        for h in g.hits:
            want.setdefault(int(h["station"]), []).append(h)
        if dict((k, ids(b.hits())) for k, b in parts.items()) != \
                dict((k, ids(v)) for k, v in want.items()):
            raise Violation("wrong parts", "split() gives other particles")
        if parts and self.ch.chance(0.5):
            k = self.ch.pick(sorted(parts))
            self.check.named += 1
            self.check.groups.append(Group(parts[k], want[k],
                                           "part%d" % self.check.named))
            if len(self.check.groups) > 4:
                self.check.groups.pop(0)

    def freeze(self):
        """keep the moments in store, which holds until the group changes"""
        g = self.group()
        if any(math.isinf(h["t"]) for h in g.hits):
            return
        if abs(weight(g.hits)) < 1e-6:
            return
        g.bunch.set_covariance_matrix(*self.ch.pick([(True,), ()]))
        g.frozen = True
        self.in_store(g, True)
        self.moments(g)
        if self.ch.chance(0.7):
            if self.ch.chance(0.5):
                self.change()
            g.bunch.set_covariance_matrix(False)
            g.frozen = False
            self.in_store(g, False)
            self.moments(g)

    def in_store(self, g, want):
        got = g.bunch.covariances_set(), g.bunch.means_set()
        if got != (want, want):
            raise Violation("not in store", "whether %s keeps moments and means in store is %r, "
                            "not %r" % (g.name, got, want))

    def equality(self):
        """groups are equal if their particles are"""
        a, b = self.group(), self.group()
        if self.ch.chance(0.2) and a.hits:
            self.given_moments(a)
            return
        if self.ch.chance(0.6) and a.hits:
            b = self.copied(a.bunch.deepcopy(), a.hits, "a copy of " + a.name)
            b.frozen = a.frozen
            if a.frozen and self.ch.chance(0.3):
                b.bunch.set_covariance_matrix(False)
                b.frozen = False
            if self.ch.chance(0.8):
                hit = self.ch.pick(b.hits)
                key = self.ch.pick(VARIABLES)
                hit[key] = hit[key] + self.ch.pick([1, -1, 2])
        same = len(a.hits) == len(b.hits) and all(
            near(x, y) for x, y in zip(a.hits, b.hits))
        if a.bunch.hit_equality(b.bunch) != same:
            raise Violation("wrong equality", "hit_equality of %s and %s is %r" % (
                a.name, b.name, not same))
        if a.frozen != b.frozen:
            same = False            # one keeps moments in store
        elif a.frozen and same and b.name != "a copy of " + a.name:
            return                  # of what, if they were stored at different times
        if (a.bunch == b.bunch) != same or (a.bunch != b.bunch) == same:
            raise Violation("wrong equality", "%s and %s compare as %r" % (
                a.name, b.name, a.bunch == b.bunch))

    def given_moments(self, g):
        """groups of the same particles with moments of the caller in store"""
        ch = self.ch
        matrix = numpy.diag([float(ch.between(1, 4)) for _ in range(10)])
        kinds = ["x", "px", "y", "py", "z", "pz", "t", "energy", "ct"]
        kinds = kinds[:ch.between(1, len(kinds))]
        means = dict((k, ch.between(1, 8) / 8.) for k in kinds)
        first, second = g.bunch.deepcopy(), g.bunch.deepcopy()
        first.set_covariance_matrix(True, matrix, means)
        changed = ch.n(4)
        other, others = matrix.copy(), dict(means)
        if changed == 1:
            i, j = ch.n(10), ch.n(10)
            other[i, j] += 1.
        elif changed == 2:
            others[ch.pick(kinds)] += ch.pick([1, -1]) / 4.
        elif changed == 3 and len(kinds) > 1:
            del others[ch.pick(kinds)]
        else:
            changed = 0
        second.set_covariance_matrix(True, other, others)
        if ch.chance(0.3):
            second = Bunch.new_from_hits(g.hits, other, others)
        self.sim.probe("groups with moments of the caller")
        for x, y in ((first, second), (second, first)):
            if (x == y) != (changed == 0) or (x != y) != (changed != 0):
                raise Violation("wrong equality", "groups of the same particles whose stored "
                                "moments differ in way %d compare as %r" % (changed, x == y))
        for x in (None, 0, [], g.hits, "bunch", object()):
            if g.bunch == x or not g.bunch != x:
                raise Violation("wrong equality", "a group equals %r" % (x,))
            if g.hits[0] == x or not g.hits[0] != x:
                raise Violation("wrong equality", "a particle equals %r" % (x,))
        # a copy has moments of its own
        if abs(g.bunch.bunch_weight()) < 1e-6:
            return
        third = [first.deepcopy, lambda: copy.deepcopy(first)][ch.n(2)]()
        old = float(matrix[0, 0]), means["x"]
        matrix[0, 0] += 1.
        means["x"] += 1.
        got = third.moment(["x", "x"]), third.mean(["x"])["x"]
        if got != old:
            raise Violation("not independent", "the stored moments of a copy are %r, not %r, "
                            "after those of the first were changed" % (got, old))
        # moments that cannot be calculated
        for k in range(len(third)):
            third[k]["local_weight"] = 0.
        same = third.deepcopy()
        try:
            third.set_covariance_matrix(True)
        except ZeroDivisionError:
            if third != same:
                raise Violation("changed", "storing moments of a group without weight failed, "
                                "and lost those that were in store")
        else:
            raise Violation("no error", "a group without weight has moments")

    # ------------------------------------------------------------- moments
    def moments(self, g):
        ch = self.ch
        hits = g.hits
        if any(math.isinf(h["t"]) for h in hits):
            return
        weights = [h["local_weight"] * h["global_weight"] for h in hits]
        total = sum(weights)
        if abs(total) < 1e-6:
            self.fails(g, "the mean of a group without weight",
                       lambda: g.bunch.mean(["x"]), ZeroDivisionError)
            return
        n = ch.wpick([(1, 3), (2, 4), (3, 2), (4, 1)])
        variables = [ch.pick(DOUBLES if ch.chance(0.75) else DERIVED) for _ in range(n)]
        if g.frozen and n == 2:
            variables = [ch.pick(["x", "y", "px", "py", "t", "energy"]) for _ in range(n)]
        means = {}
        for v in variables:
            means[v] = sum(w * h[v] for w, h in zip(weights, hits)) / total
        got = g.bunch.mean(variables)
        for v in variables:
            scale = sum(abs(h[v]) for h in hits) * (1. + sum(map(abs, weights)) / abs(total))
            self.compare(g, "mean of %s" % v, got[v], means[v], scale)
        if n == 1:
            got = g.bunch.get("mean", variables)
            self.compare(g, "mean of %s" % v, got, means[v], scale)
        centre = {}
        for v in sorted(set(variables)):
            if ch.chance(0.3):
                centre[v] = ch.between(-3, 3) / 2.
        if g.frozen and n == 2:
            centre = {}
        about = dict((v, centre.get(v, means[v])) for v in variables)
        got = g.bunch.moment(variables, centre) if centre or ch.chance(0.5) else \
            g.bunch.moment(variables)
        want = scale = 0.
        for w, h in zip(weights, hits):
            term, big = w, abs(w)
            for v in variables:
                term *= h[v] - about[v]
                big *= abs(h[v]) + abs(about[v])
            want += term
            scale += big
        self.compare(g, "moment of %s about %s" % (variables, centre), got, want / total,
                     scale / abs(total))
        if n == 2 and not centre:
            cov = g.bunch.covariance_matrix(variables)
            self.compare(g, "covariance of %s" % variables, cov[0, 1], want / total,
                         scale / abs(total))
            self.compare(g, "covariance of %s" % variables, cov[1, 0], want / total,
                         scale / abs(total))
            if want / total > 1e-3 * scale and variables[0] == variables[1]:
                got = g.bunch.standard_deviation(variables[0])
                self.compare(g, "deviation of %s" % variables[0], got ** 2, want / total,
                             scale / abs(total))

    def compare(self, g, what, got, want, scale):
        if not close(got, want, scale, 1e-9):
            raise Violation("wrong moment", "the %s of %s is %r instead of %r; x: %r" % (
                what, g.name, got, want,
                [(h["x"], h["local_weight"], h["global_weight"]) for h in g.hits]))

    def look(self, how):
        """all groups against their lists"""
        with harness(self.sim):
            for g in self.check.groups:
                how_ = "after %s, %s" % (how, g.name)
                if len(g.bunch) != len(g.hits):
                    raise Violation("wrong length", "%s has length %d instead of %d" % (
                        how_, len(g.bunch), len(g.hits)))
                for way, got in (("hits()", g.bunch.hits()), ("iteration", list(g.bunch)),
                                 ("reading", [g.bunch[i] for i in range(len(g.hits))])):
                    if ids(got) != ids(g.hits):
                        raise Violation("wrong particles", "%s by %s has particles with x "
                                        "%r instead of %r" % (how_, way,
                                                              [h["x"] for h in got],
                                                              [h["x"] for h in g.hits]))
                total = weight(g.hits)
                if not close(g.bunch.bunch_weight(), total, abs(total), 1e-12):
                    raise Violation("wrong weight", "%s has weight %r instead of %r" % (
                        how_, g.bunch.bunch_weight(), total))
                got = g.bunch.list_get_hit_variable(["x", "station"])
                if got != [[h["x"] for h in g.hits], [h["station"] for h in g.hits]]:
                    raise Violation("wrong values", "%s lists %r" % (how_, got))
                if not g.frozen:
                    self.moments(g)

    OPS = [("new", 2), ("append", 4), ("replace", 4), ("delete", 5), ("read", 2),
           ("deepcopy", 1.5), ("shallow", 0.5), ("drop", 0.7), ("chosen", 1), ("parts", 1),
           ("freeze", 0.7), ("equality", 0.7), ("change", 2), ("forget", 1)]

    def work(self, steps):
        for _ in range(steps):
            name = self.ch.wpick(self.OPS)
            self.sim.log("OP %s %s" % (self.name, name))
            getattr(self, name)()
            self.check.done.add(name)
            self.look(name)
            self.sim.point("do " + name)


def weight(hits):
    return sum(h["local_weight"] * h["global_weight"] for h in hits)


VARIABLES = ["x", "y", "z", "t", "px", "py", "pz", "energy", "bx", "by", "bz", "ex", "ey",
             "ez", "sx", "sy", "sz", "path_length", "proper_time", "charge", "mass",
             "local_weight", "global_weight", "spill", "event_number", "particle_number",
             "station", "status", "pid"]


def stored(hit):
    return [hit[k] for k in VARIABLES]


def near(a, b):
    return all(x == y or abs(x - y) < 1e-9 for x, y in zip(stored(a), stored(b)))


class S02(Check):
    def scenario(self, sim):
        ch = sim.ch
        sim.summary = []
        sim.isolate_weights = True
        sim.quanta = ch.pick([[1, 2, 4, 8, 16], [1, 1, 2, 3]])
        self.groups = []
        self.hits = []
        self.named = 0
        self.done = set()
        self.offset = {"x": 1e4} if ch.chance(0.1) else {}
        tasks = [sim.new_task(sim.current.proc,
                              lambda c=Client(self, sim, "c%d" % k), n=ch.many(3, 16, 80):
                              c.work(n), "client%d" % k)
                 for k in range(ch.wpick([(1, 3), (2, 2), (3, 1)]))]
        sim.wait(lambda: all(t.done for t in tasks), None, "clients")
        for t in tasks:
            if t.exc is not None:
                raise t.exc
        sim.nontrivial = len(self.done & set(["replace", "delete", "deepcopy", "parts",
                                              "freeze", "append"])) > 2


CHECK = S02()
