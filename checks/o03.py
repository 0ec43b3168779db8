"""O03: searches for roots and ellipses use only what their caller gave them."""
import contextlib
import copy
import io
import math
import warnings

import numpy

import xboa.common as common
from sim.kernel import Violation, harness
from sim.runner import Check
from .o01 import Trouble, TroubleOfProgram
from .state import same


class Function(object):
    """a function of n coordinates that notes who asks for what"""
    def __init__(self, check, n, odd):
        ch = check.sim.ch
        self.check = check
        self.n = n
        self.kind = ch.wpick([("linear", 4), ("cubic", 2), ("flat", 0.5), ("noise", 0.5)])
        self.root = [ch.between(-16, 16) / 8. for _ in range(n)]
        # far from singular: the diagonal outweighs the rest
        self.matrix = [[ch.between(-4, 4) / 8. if i != j else
                        ch.pick([-1., 1.]) * ch.between(3 * n, 24) / 4. for j in range(n)]
                       for i in range(n)]
        self.odd = odd
        self.asked = []
        self.error = None
        self.inner = 0             # searches of its own that go on
        self.odd_values = False

    def value(self, x, number):
        d = [a - r for a, r in zip(x, self.root)]
        y = [sum(m * v for m, v in zip(row, d)) for row in self.matrix]
        if self.kind == "cubic":
            y = [v + 0.01 * v ** 3 for v in y]
        elif self.kind == "flat":
            y = [1. for _ in y]
        elif self.kind == "noise":
            y = [v + math.sin(37. * number + 11. * i) for i, v in enumerate(y)]
        return y

    def __call__(self, x, user=None):
        check = self.check
        sim = check.sim
        if check.stack.get(sim.current, [None])[-1] is not self:
            raise Violation("foreign call", "a search asked for a value of the function of "
                            "another one")
        if len(x) != self.n or not all(isinstance(v, float) or isinstance(v, int)
                                       for v in x):
            raise Violation("foreign call", "a function of %d coordinates was asked for a "
                            "value at %r" % (self.n, x))
        x = [float(v) for v in x]
        y = self.value(x, len(self.asked))
        self.asked.append(x)
        kind = "plain"
        if sim.ch.chance(self.odd):
            kind = sim.ch.pick(["raise", "raise", "search", "search", "point", "nan", "keep"])
            sim.count("function: " + kind)
        if kind == "raise":
            self.error = sim.ch.pick([Trouble("y"), ValueError("y"), KeyError("y"),
                                      ZeroDivisionError(), TroubleOfProgram(),
                                      KeyboardInterrupt(), OSError("y"), IndexError(),
                                      numpy.linalg.LinAlgError("y")])
            raise self.error
        if kind == "search" and len(check.stack[sim.current]) < 3:
            self.inner += 1
            check.root()
            self.inner -= 1
        if kind == "nan":
            y[sim.ch.n(self.n)] = float(sim.ch.pick(["nan", "inf"]))
            self.odd_values = True
        if kind == "point":
            sim.point("value")
        return y

    def many(self, points):
        return [self(x) for x in points]


class O03(Check):
    def scenario(self, sim):
        ch = sim.ch
        self.sim = sim
        sim.summary = []
        sim.quanta = ch.pick([[1, 2, 4, 8], [1, 1, 2, 3], [3, 10, 40]])
        sim.max_steps = 400000
        self.stack = {}
        self.results = 0
        sim.trace_lines = ch.chance(0.6)
        with warnings.catch_warnings(), numpy.errstate(all="ignore"), \
                contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            tasks = [sim.new_task(sim.current.proc, lambda k=ch.between(1, 3): self.client(k),
                                  "c%d" % i)
                     for i in range(ch.wpick([(1, 2), (2, 3), (3, 2)]))]
            sim.wait(lambda: all(t.done for t in tasks), None, "clients")
        sim.trace_lines = False
        for t in tasks:
            if t.exc is not None:
                raise t.exc
        sim.nontrivial = self.results > 0

    def client(self, count):
        for _ in range(count):
            name = self.sim.ch.wpick([("root", 4), ("ellipse", 1)])
            self.sim.log("OP " + name)
            getattr(self, name)()
            self.sim.point("do " + name)
            self.sim.summary.append(name)

    # ------------------------------------------------------------- roots
    def search(self, function, many, args, kw):
        """the outcome of a search for a root of function"""
        me = self.stack.setdefault(self.sim.current, [])
        me.append(function)
        find = common.nd_newton_raphson2 if many else common.nd_newton_raphson1
        try:
            return find(function.many if many else function, *args, **kw), None
        except Violation:
            raise
        except BaseException as exc:
            if type(exc).__name__ == "SimKilled":
                raise
            return None, exc
        finally:
            if me.pop() is not function:
                raise Violation("foreign call", "the searches of a user are mixed up")

    def root(self):
        ch = self.sim.ch
        n = ch.wpick([(1, 2), (2, 3), (3, 1)])
        odd = ch.pick([0., 0.1, 0.3])
        many = ch.chance(0.4)
        function = Function(self, n, odd)
        tolerance = ch.pick([1e-6, 1e-3, 0.1])
        args = [[tolerance * ch.between(1, 4) for _ in range(n)],
                [ch.between(-32, 32) / 8. for _ in range(n)],
                [ch.pick([0.5, 1., -0.25, 2.]) for _ in range(n)]]
        limit = ch.wpick([(None, 2), (1, 1), (2, 1), (3, 1), (20, 1), (0, 0.3)])
        kw = {"verbose": ch.chance(0.3)}
        if limit is not None:
            kw["max_iteration"] = limit
        limit = 10 if limit is None else limit
        before = copy.deepcopy(args)
        if ch.chance(0.2):
            args[1] = numpy.array(args[1])
        how = "search for the root of a %s function of %d" % (function.kind, n)
        got, error = self.search(function, many, args, kw)
        with harness(self.sim):
            if [list(a) for a in args] != before:
                raise Violation("changed", "%s changed its arguments from %s to %s" % (
                    how, before, args))
            # one start and n steps aside for each time, and the new start
            if len(function.asked) > limit * (n + 2):
                raise Violation("too many calls", "%s asked for %d values in at most %d "
                                "times" % (how, len(function.asked), limit))
            if function.error is not None:
                if error is not function.error:
                    raise Violation("wrong error", "%s: the function raised %r but the "
                                    "caller got %r" % (how, function.error, error or got))
                return
            if error is not None:
                if function.odd_values and isinstance(error, RuntimeError):
                    return         # a value that is no number
                if isinstance(error, (AttributeError, TypeError, NameError)) or \
                        not function.odd_values:
                    raise Violation("wrong error", "%s gives %s" % (how, repr(error)))
                return
            got = [float(v) for v in got]
            if len(got) != n:
                raise Violation("wrong root", "%s gives %r" % (how, got))
            self.results += 1
            if limit > 0 and function.asked[0] != before[1]:
                raise Violation("wrong start", "%s starts at %s instead of %s" % (
                    how, function.asked[0], before[1]))
            if limit == 0 and got != before[1]:
                raise Violation("wrong root", "%s gives %s after no step from %s" % (
                    how, got, before[1]))
            if function.odd_values:
                return
            if function.kind == "linear" and limit > 0 or \
                    function.kind == "cubic" and tolerance < 1e-4 and \
                    len(function.asked) > n + 1 and all(
                        abs(y) < tolerance for y in
                        function.value(function.asked[-n - 2], 0)):
                self.sim.probe("roots compared to the right one")
                for a, r in zip(got, function.root):
                    if not abs(a - r) < 2e-2 * (1. if function.kind == "cubic" else 1e-4):
                        raise Violation("wrong root", "%s gives %s instead of %s" % (
                            how, got, function.root))
        # the same search alone asks for the same values
        if ch.chance(0.5):
            asked, function.asked, function.odd = function.asked, [], 0.
            again, error = self.search(function, many, before, kw)
            with harness(self.sim):
                if error is not None or [float(v) for v in again] != got or \
                        function.asked != asked:
                    raise Violation("wrong root", "%s gives %s from values at %s, but %r "
                                    "from %s when it is done again" % (
                                        how, got, asked, error or again, function.asked))

    # ------------------------------------------------------------- ellipses
    def ellipse(self):
        ch = self.sim.ch
        n = ch.wpick([(2, 4), (1, 1), (3, 1)])
        count = ch.between(n + 3, 14)
        points = [[ch.between(-40, 40) / 8. for _ in range(n)] for _ in range(count)]
        weights = [ch.between(1, 8) / 4. for _ in points] if ch.chance(0.5) else None
        with harness(self.sim):
            mean, cov = self.moments(points, weights, [True] * count)
            if numpy.linalg.cond(cov) > 1e4 or numpy.linalg.det(cov) < 1e-2:
                return
            if n != 2 and not numpy.linalg.det(cov) > 1e-2:
                return
        cut = ch.pick([1e9, 1e9, 4., 10., 30., 0.01])
        points = ch.pick([lambda p: p, lambda p: numpy.array(p),
                          lambda p: tuple(map(tuple, p)),
                          lambda p: list(map(numpy.array, p))])(points)
        before = [[list(map(float, p)) for p in points], copy.deepcopy(weights)]
        limit = ch.between(1, 30)
        args = {"weights": weights} if weights is not None or ch.chance(0.3) else {}
        how = "ellipse of %d points in %d dimensions" % (count, n)
        results = []
        for k in (limit, limit, limit + 1, 0):
            got = common.fit_ellipse(points, cut, max_number_of_iterations=k,
                                     verbose=k == 0 and ch.chance(0.3), **args)
            results.append([numpy.array(v).tolist() for v in got])
            self.sim.point("ellipse")
        with harness(self.sim):
            if [[list(map(float, p)) for p in points], weights] != before:
                raise Violation("changed", "%s changed its arguments" % how)
            self.results += 1
            if results[0] != results[1]:
                raise Violation("wrong ellipse", "%s is %s, and %s when it is done again" % (
                    how, results[0], results[1]))
            if cut > 1e8:
                want = [mean, cov]
            elif results[0] == results[2] and cut > 1.:
                # it has settled: these are the moments of the points inside
                mean, cov = map(numpy.array, results[0])
                if mean.shape != (n,) or cov.shape != (n, n) or \
                        not numpy.linalg.det(cov) > 1e-2:
                    return
                inv = numpy.linalg.inv(cov)
                size = [(numpy.array(p) - mean) @ inv @ (numpy.array(p) - mean) *
                        numpy.linalg.det(cov) ** (1. / n) for p in points]
                if any(abs(s - cut) < 1e-6 * cut for s in size):
                    return
                inside = [s < cut for s in size]
                if sum(inside) < n + 1:
                    return
                self.sim.probe("ellipses that have settled")
                want = self.moments(points, weights, inside)
            else:
                return
            got = results[0]
            if not numpy.allclose(got[0], want[0], 1e-6, 1e-6) or \
                    not numpy.allclose(got[1], want[1], 1e-6, 1e-6):
                raise Violation("wrong ellipse", "%s within %g is %s instead of %s" % (
                    how, cut, got, [numpy.array(v).tolist() for v in want]))

    def moments(self, points, weights, inside):
        w = numpy.array([v for v, i in zip(weights or [1.] * len(points), inside) if i])
        p = numpy.array([v for v, i in zip(points, inside) if i], float)
        mean = w @ p / w.sum()
        return mean, ((p - mean).T * w) @ (p - mean) / w.sum()


CHECK = O03()
