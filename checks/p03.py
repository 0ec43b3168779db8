"""P03: parallel tile contents equal the serial ones and release their workers."""
import math

import numpy
import scipy.spatial

from sim import gen
from sim.faults import Faults
from sim.kernel import Violation, harness
from sim.runner import Check
from xboa.bunch import Bunch
from xboa.bunch.weighting import BoundingEllipse, HullContent, VoronoiWeighting


class Tesselation(object):
    """as scipy.spatial.Voronoi, to be spoilt"""
    def __init__(self, v):
        self.points = v.points
        self.vertices = numpy.array(v.vertices)
        self.regions = [list(r) for r in v.regions]
        self.point_region = numpy.array(v.point_region)


def tile(tess, i):
    """(content, error type) of one tile, by the convex hull of its corners"""
    region = tess.regions[tess.point_region[i]]
    if -1 in region or len(region) == 0:
        return 0., None
    corners = numpy.array([tess.vertices[j] for j in region])
    try:
        scipy.spatial.Delaunay(corners)
    except Exception as exc:
        return None, type(exc)
    return scipy.spatial.ConvexHull(corners).volume, None


class P03(Check):
    def scenario(self, sim):
        ch = sim.ch
        sim.summary = []
        sim.isolate_weights = True
        sim.quanta = ch.pick([[1, 2, 4, 8, 16], [1, 1, 2, 3], [8, 32]])
        self.families = {}
        sim.spawn_hooks.append(self.spawned)
        Faults(sim, ch.subset(("spawn",), 0.25), 2)
        self.ntiles = 0
        tasks = []
        for k in range(ch.wpick([(1, 3), (2, 1)])):
            proc = sim.new_proc("program%d" % k, None, sim.current.proc, start_task=False)
            tasks.append(sim.new_task(proc, lambda: self.program(sim), proc.name))
        sim.wait(lambda: all(t.done for t in tasks), None, "programs")
        for t in tasks:
            if t.exc is not None:
                raise t.exc
        sim.nontrivial = self.ntiles > 1

    def spawned(self, proc, args):
        self.families.setdefault(proc.parent.pid, []).append(proc)

    def left(self, sim):
        return [p for p in self.families.get(sim.current.proc.pid, []) if not p.dead]

    def faulted(self, sim, before):
        return any(f[3] is sim.current.proc for f in sim.faults.fired[before:])

    def program(self, sim):
        for k in range(sim.ch.between(1, 2)):
            if sim.ch.chance(0.6):
                self.hulls(sim)
            else:
                self.weights(sim)

    def points(self, ch, n, dim):
        return numpy.array([[ch.n(1 << 20) / float(1 << 20) + 0.01 * i
                             for d in range(dim)] for i in range(n)])

    def hulls(self, sim):
        ch = sim.ch
        with harness(sim):
            dim = ch.pick([2, 2, 3])
            n = ch.between(dim + 4, 14)
            try:
                tess = scipy.spatial.Voronoi(self.points(ch, n, dim))
            except Exception:
                return               # e.g. a minimised run with equal points
            spoil = ch.wpick([(None, 5), ("nan", 2), ("flat", 2)])
            if spoil:
                tess = Tesselation(tess)
                finite = [r for r in tess.regions if r and -1 not in r]
                if finite:
                    r = ch.pick(finite)
                    if spoil == "nan":
                        tess.vertices[r[0]][0] = float("nan")
                    else:
                        del r[2:]
            kind = ch.n(4)
            regions = list(range(n))
            if kind == 1:
                regions.reverse()
            elif kind == 2:
                regions = ch.subset(regions)
            elif kind == 3:
                regions = [ch.n(n) for i in range(ch.n(n))]
            want = [tile(tess, i) for i in regions]
            errors = [w[1] for w in want if w[1] is not None]
            width = ch.pick([1, 2, 3, 4, 7, 0])
            before = len(sim.faults.fired)
        self.ntiles += len(regions)
        text = "hulls of %d points in %d D, %d tiles, %d processes" % (
            n, dim, len(regions), width)
        sim.summary.append(text)
        alive = self.left(sim)
        try:
            hull = HullContent(tess, regions, width)
            got = hull.tile_content_list
        except Exception as exc:
            left = [p for p in self.left(sim) if p not in alive]
            exc.__traceback__ = None
            with harness(sim):
                if left:
                    raise Violation("helpers", "%s: failed, but %s are still running" % (
                        text, left))
                if not errors and not self.faulted(sim, before) and width > 0:
                    raise Violation("error", "%s: %r" % (text, exc))
                if errors and not self.faulted(sim, before) and width > 0 and \
                        type(exc) not in errors:
                    raise Violation("error", "%s: %r instead of one of %s" % (
                        text, exc, errors))
            return
        with harness(sim):
            if errors:
                raise Violation("error", "%s: the error of a tile did not reach the "
                                "caller" % text)
            if width < 1:
                raise Violation("error", "%s: no error" % text)
            self.same(text, [w[0] for w in want], got, 1e-6)
        if ch.chance(0.3):
            with harness(sim):
                first = list(got)
                kept = ch.subset(range(len(regions)))
                hull.region_list = [regions[i] for i in kept]
            hull.recalculate()
            with harness(sim):
                self.same(text + " again", [first[i] for i in kept],
                          hull.tile_content_list, 0.)
        if ch.chance(0.5):
            other = None
            try:
                other = HullContent(tess, regions, ch.between(1, 5)).tile_content_list
            except OSError as exc:
                if not self.faulted(sim, before):
                    raise
                exc.__traceback__ = None
            if other is not None:
                with harness(sim):
                    self.same(text + " with other processes", [w[0] for w in want], other, 1e-6)
                    if hull.region_list is regions:
                        self.same(text + " with other processes", got, other, 0.)

    def same(self, text, want, got, tolerance):
        if got is None or len(want) != len(got):
            raise Violation("contents", "%s: %s contents instead of %d" % (
                text, "no" if got is None else len(got), len(want)))
        scale = max([abs(w) for w in want] + [1e-3])
        for i, (w, g) in enumerate(zip(want, got)):
            if not abs(w - g) <= tolerance * scale:
                raise Violation("contents", "%s: content %d is %r instead of %r" % (
                    text, i, g, w))

    # ------------------------------------------------------------- weights
    def weights(self, sim):
        ch = sim.ch
        variables = ch.pick([["x", "px"], ["y", "t"], ["x", "y", "pz"]])
        dim = len(variables)
        with harness(sim):
            n = ch.between(dim + 4, 12)
            pts = self.points(ch, n, dim)
            bunch, other = Bunch(), Bunch()
            for i in range(n):
                hit = gen.make_hit(ch, event=i, spill=ch.n(1 << 20), rich=False)
                for k, v in enumerate(variables):
                    hit[v] = pts[i][k] * 10. - 5.
                hit2 = hit.deepcopy()
                hit2["spill"] = hit["spill"] + (1 << 20)
                hit["local_weight"] = hit2["local_weight"] = 1. + 0.125 * ch.n(9)
                hit["global_weight"] = hit2["global_weight"] = 1. + 0.125 * ch.n(9)
                bunch.append(hit)
                other.append(hit2)
            bound = None
            if ch.chance(0.6):
                limit = numpy.diag([ch.pick([4., 9., 30.])] * dim)
                bound = BoundingEllipse(limit, numpy.zeros(dim), 5 if dim == 2 else 3)
            mean = ch.pick([None, numpy.array([0.5] * dim)])
            ellipse = numpy.diag([4. + k for k in range(dim)])
            use_global = ch.chance(0.5)
            width = ch.pick([1, 2, 3, 5])
            before = len(sim.faults.fired)
        self.ntiles += n
        text = "weights of %d particles with %d processes%s" % (
            n, width, " and a bound" if bound else "")
        sim.summary.append(text)
        alive = self.left(sim)
        weighting = VoronoiWeighting(variables, ellipse, mean, bound)
        serial = VoronoiWeighting(variables, ellipse, mean, bound)
        try:
            weighting.apply_weights(bunch, use_global, width)
            alive = self.left(sim)
            serial.apply_weights(other, use_global, 1)
        except Exception as exc:
            left = [p for p in self.left(sim) if p not in alive]
            degenerate = isinstance(exc, (scipy.spatial.QhullError, ValueError))
            exc.__traceback__ = None
            if left:
                raise Violation("helpers", "%s: failed, but %s are still running" % (
                    text, left))
            if not self.faulted(sim, before) and not degenerate:
                raise
            return
        with harness(sim):
            name = "global_weight" if use_global else "local_weight"
            keep = "local_weight" if use_global else "global_weight"
            a = [h[name] for h in bunch]
            b = [h[name] for h in other]
            self.same(text, b, a, 1e-9)
            if [h[keep] for h in bunch] != [h[keep] for h in other]:
                raise Violation("weights", "%s: the %s changed" % (text, keep))
            inv = numpy.linalg.inv(ellipse)
            centre = numpy.zeros(dim) if mean is None else mean
            tess = weighting.tesselation
            k = 0
            for i, h in enumerate(bunch):
                x = numpy.array([h[v] for v in variables])
                if bound is not None and \
                        not x.dot(numpy.linalg.inv(limit)).dot(x) <= 1.:
                    if a[i] != 0.:
                        raise Violation("weights", "%s: particle %d is out of bounds, but "
                                        "its weight is %r" % (text, i, a[i]))
                    continue
                d = x - centre
                pdf = math.exp(-0.5 * d.dot(inv).dot(d)) / math.sqrt(
                    (2. * math.pi) ** dim * numpy.linalg.det(ellipse))
                content, error = tile(tess, k)
                k += 1
                if error is None:
                    self.same("%s: particle %d" % (text, i), [pdf * content], [a[i]], 1e-6)


CHECK = P03()
