"""S06: reweighting reaches its targets and touches only the chosen weights."""
import contextlib
import copy
import io
import math
import warnings

import numpy
import scipy.spatial

from sim import gen
from sim.kernel import Violation, harness
from sim.runner import Check
from xboa.bunch import Bunch
from xboa.bunch.weighting import BoundingEllipse, MultipoleWeighting, VoronoiWeighting
from .p03 import tile
from .s05 import identical
from .state import same

VARIABLES = ["x", "px", "y", "py", "t", "pz"]
WEIGHTS = ["local_weight", "global_weight"]


def powers(dim, order):
    """the exponents of all monomials of 1 to order factors"""
    out = [()]
    for _ in range(dim):
        out = [p + (k,) for p in out for k in range(order + 1)]
    return [p for p in out if 0 < sum(p) <= order]


def monomial(x, p):
    out = 1.
    for v, k in zip(x, p):
        out *= v ** k
    return out


class Polynomial(object):
    """a MultipoleWeighting and what it shall do"""
    def __init__(self, user):
        ch = user.ch
        self.user = user
        self.dim = ch.wpick([(1, 2), (2, 3), (3, 1)])
        start = ch.n(len(VARIABLES) - self.dim + 1)
        self.variables = VARIABLES[start:start + self.dim]
        self.order = ch.wpick([(1, 1), (2, 4), (3, 1)])
        mean = [ch.between(-8, 8) / 16. for _ in range(self.dim)]
        ellipse = numpy.diag([ch.between(8, 24) / 16. for _ in range(self.dim)])
        for i in range(self.dim):
            for j in range(i):
                ellipse[i, j] = ellipse[j, i] = ch.between(-4, 4) / 32.
        given = [numpy.array(mean) if ch.chance(0.5) else mean, ellipse]
        before = copy.deepcopy(given)
        self.object = MultipoleWeighting(self.order, list(self.variables), given[1], given[0])
        user.kept("MultipoleWeighting", before, given)
        self.targets = {}
        for i in range(self.dim):
            self.targets[tuple(int(k == i) for k in range(self.dim))] = mean[i]
            for j in range(i, self.dim):
                self.targets[tuple(int(k == i) + int(k == j) for k in range(self.dim))] = \
                    ellipse[i, j]
        self.name = "polynomial of %d in %s" % (self.order, self.variables)

    def retarget(self):
        """other targets, which may be refused"""
        user, ch = self.user, self.user.ch
        indices = [list(p) for p in
                   ch.subset(powers(self.dim, self.order + (1 if ch.chance(0.1) else 0)), 0.5)]
        indices = indices or [[1] + [0] * (self.dim - 1)]
        if ch.chance(0.5):
            indices = ch.shuffled(indices)
        values = [ch.between(8, 24) / 16. if sum(p) % 2 == 0 else ch.between(-8, 8) / 32.
                  for p in indices]
        wrong = ch.wpick([(None, 6), ("short", 1), ("narrow", 1), ("type", 1), ("twice", 1)])
        given = [copy.deepcopy(indices), list(values)]
        if wrong == "short":
            given[1].append(1.)
        elif wrong == "narrow":
            given[0][ch.n(len(indices))].append(1)
        elif wrong == "type":
            given[0][ch.n(len(indices))][0] = ch.pick([1., "1", None])
        elif wrong == "twice":
            k = ch.n(len(indices))
            given[0].insert(ch.n(len(indices) + 1), list(indices[k]))
            given[1].append(1.)
        before = copy.deepcopy(given)
        if wrong:
            user.sim.count("targets: " + wrong)
        try:
            self.object.set_target_moments(*given)
        except ValueError:
            if not wrong:
                raise
        else:
            if wrong:
                raise Violation("targets", "%s: targets %r of values %r were accepted" % (
                    self.name, given[0], given[1]))
            self.targets = dict(zip(map(tuple, indices), values))
        user.kept("set_target_moments", before, given)

    def weigh(self, group, use_global):
        """the factors of the particles as they shall be, up to a common one"""
        x = numpy.array([[h[v] for v in self.variables] for h in group], float)
        w = numpy.array([h["weight"] for h in group])
        if not len(w) or not numpy.isfinite(w).all() or \
                not abs(w.sum()) > max(1e-3 * numpy.abs(w).sum(), 1e-6):
            return None
        keys = sorted(self.targets)
        if max(sum(p) for p in keys) > self.order:
            return "order"
        data = numpy.array([[monomial(row, p) for p in keys] for row in x])
        weighted = data * w[:, None]
        matrix = weighted.T @ data / w.sum()
        mean = weighted.sum(axis=0) / w.sum()
        target = numpy.array([self.targets[p] for p in keys])
        # sum_j a_j (<x^i x^j> - q_i <x^j>) = q_i - <x^i>
        matrix = matrix - numpy.outer(target, mean)
        scale = numpy.abs(matrix).max(axis=1)
        if not (scale > 1e-6).all() or not numpy.linalg.cond(matrix / scale[:, None]) < 1e7:
            return None
        a = numpy.linalg.solve(matrix, target - mean)
        r = 1. + data @ a
        if not numpy.abs(w * r).max() > 1e-3 * numpy.abs(w).max():
            return None            # as many particles as targets
        if not abs(r.mean()) > 1e-3 * numpy.abs(r).max() or \
                not abs((w * r).sum()) > 1e-3 * numpy.abs(w * r).max():
            return None
        return r

    def apply(self, group, use_global):
        user = self.user
        name = WEIGHTS[use_global]
        want = self.weigh(group, use_global)
        before = [h[name] for h in group]
        neutral = all(h["weight"] == 1. for h in group)
        text = "%s, targets %r, on the %s of %d particles" % (
            self.name, self.targets, name, len(group))
        try:
            got = self.object.apply_weights(group, use_global)
        except (numpy.linalg.LinAlgError, ValueError, ZeroDivisionError, RuntimeError):
            if want is not None and not isinstance(want, str):
                raise
            return "unchanged"
        if isinstance(want, str):
            raise Violation("order", "%s: the moments of a higher order than %d are "
                            "not known, but the weights were set" % (
                                text, 2 * self.order))
        if got is not group:
            raise Violation("return", "%s: the group was not returned" % text)
        if want is None:
            return "unknown"
        user.check.reached += 1
        after = [h[name] for h in group]
        if neutral:
            user.near(text + ": sum of weights", sum(h["weight"] for h in group),
                      len(group), 1e-6)
        wanted = numpy.array(before) * want / want.mean()
        if not neutral:
            wanted = wanted * (sum(abs(v) for v in after) / max(abs(wanted).sum(), 1e-300))
        size = max(abs(wanted).max(), 1e-12)
        for i, (a, b) in enumerate(zip(wanted, after)):
            if not abs(a - b) <= 1e-6 * size:
                raise Violation("weights", "%s: particle %d weighs %r instead of %r" % (
                    text, i, b, a))
        w = numpy.array([h["weight"] for h in group])
        x = numpy.array([[h[v] for v in self.variables] for h in group], float)
        for p, target in self.targets.items():
            data = numpy.array([monomial(row, p) for row in x])
            user.near("%s: moment %r" % (text, p), (w * data).sum() / w.sum(), target,
                      1e-5 * (1. + numpy.abs(w * data).sum() / abs(w.sum())))
        return "known"


class Tiles(object):
    """a VoronoiWeighting and what it shall do"""
    def __init__(self, user):
        ch = user.ch
        self.user = user
        self.dim = ch.pick([2, 2, 2, 3])
        start = ch.n(len(VARIABLES) - self.dim + 1)
        self.variables = VARIABLES[start:start + self.dim]
        self.ellipse = numpy.diag([ch.between(8, 64) / 16. for _ in range(self.dim)])
        self.ellipse[0, 1] = self.ellipse[1, 0] = ch.between(-4, 4) / 16.
        self.mean = ch.pick([None, numpy.array([ch.between(-8, 8) / 16.
                                                for _ in range(self.dim)])])
        self.bound = None
        self.limit = None
        if ch.chance(0.6):
            self.limit = numpy.diag([ch.pick([1., 2., 4., 9.]) for _ in range(self.dim)])
            self.limit[0, 1] = self.limit[1, 0] = ch.between(-4, 4) / 16.
            self.centre = numpy.array([ch.between(-4, 4) / 16. for _ in range(self.dim)])
        given = [list(self.variables), copy.deepcopy(self.ellipse), copy.deepcopy(self.mean)]
        if self.limit is not None:
            self.bound = BoundingEllipse(copy.deepcopy(self.limit), self.centre.copy(),
                                         5 if self.dim == 2 else 3)
        self.object = VoronoiWeighting(given[0], given[1], given[2], self.bound)
        user.kept("VoronoiWeighting", [self.variables, self.ellipse, self.mean], given)
        self.name = "tiles in %s" % self.variables

    def retarget(self):
        pass

    def apply(self, group, use_global):
        user = self.user
        name = WEIGHTS[use_global]
        text = "%s, on the %s of %d particles%s" % (
            self.name, name, len(group), " with a bound" if self.bound else "")
        x = [numpy.array([h[v] for v in self.variables], float) for h in group]
        inside = list(range(len(x)))
        near = False
        if self.limit is not None:
            inv = numpy.linalg.inv(self.limit)
            size = [(v - self.centre).dot(inv).dot(v - self.centre) for v in x]
            inside = [i for i, s in enumerate(size) if s <= 1.]
            near = any(abs(s - 1.) < 1e-9 for s in size)
        try:
            got = self.object.apply_weights(group, use_global)
        except (scipy.spatial.QhullError, ValueError, IndexError) as exc:
            exc.__traceback__ = None
            if len(inside) > self.dim + 3 and user.regular(x) and not near:
                raise
            return "unchanged"
        if near:
            return "unknown"
        if got is not None:
            raise Violation("return", "%s: %r was returned" % (text, got))
        tess = self.object.tesselation
        inv = numpy.linalg.inv(self.ellipse)
        norm = math.sqrt((2. * math.pi) ** self.dim * numpy.linalg.det(self.ellipse))
        points = numpy.array([x[i] for i in inside])
        if len(inside) and not numpy.allclose(tess.points[:len(inside)], points, 0, 1e-9):
            raise Violation("tiles", "%s: the tiles are not those of the particles" % text)
        wanted = [0.] * len(x)
        for k, i in enumerate(inside):
            d = x[i] if self.mean is None else x[i] - self.mean
            content, error = tile(tess, k)
            if error is not None:
                return "unknown"
            wanted[i] = content * math.exp(-0.5 * d.dot(inv).dot(d)) / norm
        user.check.reached += 1
        scale = max(wanted + [1e-3])
        for i, w in enumerate(wanted):
            user.near("%s: particle %d" % (text, i), group[i][name], w, 1e-6 * scale)
        return "known"


class User(object):
    def __init__(self, check, number):
        self.check = check
        self.sim = check.sim
        self.ch = check.sim.ch
        self.number = number
        self.made = 0
        self.groups = []
        self.weightings = []

    def near(self, text, got, want, tolerance):
        if not abs(got - want) <= tolerance:
            raise Violation("wrong value", "%s is %r instead of %r" % (text, got, want))

    def kept(self, text, before, given):
        if not identical(before, given):
            raise Violation("argument changed", "%s: %r became %r" % (text, before, given))

    def regular(self, x):
        return len(set(tuple(v) for v in x)) == len(x)

    def run(self, count):
        self.new_group()
        self.new_weighting()
        ops = [("apply", 6), ("new_group", 2), ("new_weighting", 1), ("retarget", 1),
               ("reset", 1), ("shared", 0.6)]
        for _ in range(count):
            name = self.ch.wpick(ops)
            self.sim.log("OP " + name)
            getattr(self, name)()
            self.sim.point("do " + name)
            self.sim.summary.append(name)

    def new_group(self):
        ch = self.ch
        n = ch.wpick([(0, 0.2), (1, 0.3), (6, 1), (16, 2)] +
                     ([] if self.check.tiles else [(30, 3)]))
        n = n and n + ch.n(6)
        with harness(self.sim):
            hits = []
            for _ in range(n):
                hit = gen.make_hit(ch, event=self.made, spill=self.number, rich=False)
                self.made += 1
                for v in VARIABLES:
                    hit[v] = (ch.n(1 << 16) + ch.n(1 << 16) + ch.n(1 << 16)) / 32768. - 3.
                if n and ch.chance(0.02):
                    hit["local_weight"] = 0.
                hits.append(hit)
        if ch.chance(0.3):
            for hit in hits:
                hit["local_weight"] = ch.between(1, 12) / 8.
        if ch.chance(0.3):
            for hit in hits:
                hit["global_weight"] = ch.between(1, 12) / 8.
        self.groups.append(Bunch.new_from_hits(hits))

    def shared(self):
        """a copy, of particles of the same names"""
        self.groups.append(self.ch.pick(self.groups).deepcopy())

    def new_weighting(self):
        ch = self.ch
        self.weightings.append((Tiles if self.check.tiles and ch.chance(0.5)
                                else Polynomial)(self))

    def retarget(self):
        self.ch.pick(self.weightings).retarget()

    def reset(self):
        group = self.ch.pick(self.groups)
        name = self.ch.pick(WEIGHTS)
        for hit in group:
            hit[name] = 1.

    def look(self):
        with harness(self.sim):
            return [[{v: h[v] for v in gen.STORED + WEIGHTS} for h in g]
                    for g in self.groups]

    def apply(self):
        ch = self.ch
        weighting = ch.pick(self.weightings)
        k = ch.n(len(self.groups))
        group = self.groups[k]
        use_global = ch.chance(0.5)
        broken = None
        if len(group) and ch.chance(0.08):
            broken = ch.n(len(group))
        before = self.look()
        members = [group[i] for i in range(len(group))]
        if broken is not None:
            old = group[broken][weighting.variables[0]]
            group[broken][weighting.variables[0]] = float(ch.pick(["nan", "inf"]))
            self.sim.count("odd value")
            before = self.look()
            try:
                weighting.object.apply_weights(group, use_global)
                how = "unknown"
            except Exception as exc:
                exc.__traceback__ = None
                how = "unchanged"
        else:
            how = weighting.apply(group, use_global)
        self.sim.probe("weights " + how)
        after = self.look()
        name = WEIGHTS[use_global]
        text = "%s, applied to the %s of group %d" % (weighting.name, name, k)
        if len(group) != len(members) or \
                any(group[i] is not m for i, m in enumerate(members)):
            raise Violation("members", "%s: the group holds other particles" % text)
        mine = set(r["event_number"] for r in before[k])
        for g, (old_g, new_g) in enumerate(zip(before, after)):
            for i, (a, b) in enumerate(zip(old_g, new_g)):
                for v in a:
                    may = how != "unchanged" and v == name and (
                        g == k or (use_global and a["event_number"] in mine))
                    if not may and not same(a[v], b[v]):
                        raise Violation("changed", "%s (%s): %s of particle %d of group %d "
                                        "was %r and is %r" % (text, how, v, i, g, a[v], b[v]))
        if use_global:
            now = {r["event_number"]: r["global_weight"] for r in after[k]}
            for g, new_g in enumerate(after):
                for r in new_g:
                    if r["event_number"] in now and \
                            not same(r["global_weight"], now[r["event_number"]]):
                        raise Violation("changed", "%s: a particle has the global weight %r "
                                        "in group %d" % (text, r["global_weight"], g))
        if broken is not None:
            group[broken][weighting.variables[0]] = old
            for i in range(len(group)):
                group[i][name] = 1.


class S06(Check):
    def scenario(self, sim):
        ch = sim.ch
        self.sim = sim
        self.reached = 0
        sim.summary = []
        sim.quanta = ch.pick([[1, 2, 4, 8], [1, 1, 2, 3], [3, 10, 40], [100, 400]])
        sim.max_steps = 400000
        self.tiles = ch.chance(0.2)
        sim.trace_lines = not self.tiles and ch.chance(0.5)
        Bunch.clear_global_weights()
        with warnings.catch_warnings(), numpy.errstate(all="ignore"), \
                contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            users = [User(self, i + 1) for i in range(ch.wpick([(1, 3), (2, 2), (3, 1)]))]
            tasks = [sim.new_task(sim.current.proc, lambda u=u, k=ch.between(2, 7): u.run(k),
                                  "u%d" % u.number) for u in users]
            sim.wait(lambda: all(t.done for t in tasks), None, "users")
        sim.trace_lines = False
        for t in tasks:
            if t.exc is not None:
                raise t.exc
        sim.nontrivial = self.reached > 0


CHECK = S06()
