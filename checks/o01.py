"""O01: the closed-orbit search terminates and reports only what was tracked."""
import itertools
import math
import warnings

import numpy

from sim.faults import Faults  # noqa: F401  (same seams as the other checks)
from sim.kernel import Violation, harness
from sim.runner import Check
from xboa.algorithms.closed_orbit import EllipseClosedOrbitFinder
from xboa.algorithms.closed_orbit._ellipse_closed_orbit_finder import (
    EllipseClosedOrbitFinderIteration)
from xboa.hit import Hit
from xboa.tracking import MatrixTracking, TrackingBase
from .state import close, same

PLANES = [["x", "px"], ["y", "py"], ["px", "x"], ["x", "px", "y", "py"], ["t", "energy"],
          ["x"], ["x", "y", "px"], ["py", "t"]]
ALL = ["x", "px", "y", "py", "t", "energy"]
CONST = ["pid", "mass", "spill", "event_number", "bx"]


class Trouble(Exception):
    """of the tracker"""


class TroubleOfProgram(BaseException):
    """of the tracker"""


class Call(object):
    """one call of the tracker"""
    def __init__(self, given, consts):
        self.given = given
        self.consts = consts
        self.out = None            # coordinates of what it returned
        self.error = None


class Tracker(TrackingBase):
    """a tracker that notes what it was asked for and what it said"""
    def __init__(self, check):
        TrackingBase.__init__(self)
        self.check = check
        self.ch = check.sim.ch
        self.odd = self.ch.pick([0., 0., 0.1, 0.4])

    def track_one(self, hit):
        with harness(self.check.sim):
            search = self.check.search[self.check.sim.current]
            call = Call([hit[k] for k in ALL], [hit[k] for k in CONST])
        search.calls.append(call)
        search.total += 1
        kind = "plain"
        if self.ch.chance(self.odd):
            kind = self.ch.pick(["short", "lost", "empty", "raise", "nan", "inf", "repeat",
                                 "noise", "huge", "same"])
            self.check.sim.count("tracker: " + kind)
        call.kind = kind
        if self.ch.chance(0.3):
            self.check.sim.point("tracking " + kind)
        if kind == "raise":
            call.error = self.ch.pick([Trouble("lost"), ValueError("tracker"), KeyError("x"),
                                       TroubleOfProgram(), KeyboardInterrupt(),
                                       RuntimeError("tracker"), OSError("no beam"),
                                       numpy.linalg.LinAlgError("tracker"), IndexError()])
            raise call.error
        hits = self.go(hit)
        hits = self.spoil(kind, hit, hits)
        with harness(self.check.sim):
            call.out = [[h[k] for k in ALL] for h in hits]
        self.last = [hits]
        return hits

    def spoil(self, kind, hit, hits):
        ch = self.ch
        if kind == "short":
            hits = hits[:ch.between(1, max(1, len(hits)))]
        elif kind == "lost":
            hits = hits[:1]
        elif kind == "empty":
            hits = []
        elif kind in ("nan", "inf") and len(hits) > 1:
            bad = hits[ch.between(1, len(hits) - 1)]
            bad[ch.pick(ALL[:4])] = float(kind)
        elif kind == "repeat":
            hits = hits[:1] + [hits[-1].deepcopy() for _ in hits[1:]]
        elif kind == "noise":
            for h in hits[1:]:
                for k in ALL[:5]:
                    h[k] = ch.between(-100, 100) / 10.
        elif kind == "huge":
            for h in hits[1:]:
                h[ch.pick(ALL[:5])] = 1e200 * ch.between(-3, 3)
        elif kind == "same":
            hits = hits[:1] + [hit.deepcopy() for _ in hits[1:]]
        return hits


class Rotation(Tracker):
    """a linear map with fixed points in all planes"""
    def __init__(self, check, turns, centred=False):
        Tracker.__init__(self, check)
        ch = self.ch
        self.turns = turns
        self.fixed = [ch.between(-40, 40) / 8. for _ in range(5)] + [226.]
        if centred:
            self.fixed[:4] = [0.] * 4
        self.matrix = numpy.identity(6)
        self.phases = []
        for i in range(3):
            mu = 2 * math.pi * ch.between(12, 43) / 100.
            beta, alpha = ch.pick([1., 0.5, 3.]), ch.between(-4, 4) / 4.
            c, s = math.cos(mu), math.sin(mu)
            self.matrix[2 * i:2 * i + 2, 2 * i:2 * i + 2] = [
                [c + alpha * s, beta * s], [-(1 + alpha ** 2) / beta * s, c - alpha * s]]
            self.phases.append(mu)
        self.marks = None
        self.real = None
        if ch.chance(0.4):
            # the tracker of the library
            mats = [numpy.matrix(numpy.linalg.matrix_power(self.matrix, i + 1))
                    for i in range(turns)]
            fixed = numpy.matrix([self.fixed])
            self.real = MatrixTracking(mats, [fixed] * turns, fixed)

    def go(self, hit):
        if self.real is not None:
            return list(self.real.track_one(hit))
        hits = [hit.deepcopy() if self.ch.chance(0.7) else hit]
        with harness(self.check.sim):
            x = numpy.array([hit[k] for k in ALL]) - self.fixed
            for _ in range(self.turns):
                x = self.matrix.dot(x)
                new = hit.deepcopy()
                for k, v in zip(ALL, x + self.fixed):
                    new[k] = float(v)
                hits.append(new)
        for hit in hits if self.marks else []:
            # neither weights nor names matter
            if self.ch.chance(0.3):
                hit["local_weight"] = self.ch.pick([0., -1., 2.])
            if self.ch.chance(0.1):
                hit["event_number"], hit["status"] = self.ch.n(3), self.ch.n(3)
        return hits


class Search(object):
    """a search that goes on"""
    def __init__(self):
        self.calls = []            # since the last result
        self.total = 0




class O01(Check):
    def scenario(self, sim):
        ch = sim.ch
        self.sim = sim
        sim.summary = []
        sim.isolate_weights = True
        sim.quanta = [1, 2, 4, 8]
        sim.max_steps = 100000
        self.search = {}
        self.results = 0
        shared = Rotation(self, ch.between(1, 9)) if ch.chance(0.5) else None
        tasks = [sim.new_task(sim.current.proc, lambda: self.client(shared), "c%d" % i)
                 for i in range(ch.wpick([(1, 3), (2, 2), (3, 1)]))]
        with warnings.catch_warnings(), numpy.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            sim.wait(lambda: all(t.done for t in tasks), None, "clients")
        for t in tasks:
            if t.exc is not None:
                raise t.exc
        sim.nontrivial = self.results > 0

    def client(self, shared):
        ch = self.sim.ch
        for _ in range(ch.between(1, 2)):
            tracker = shared
            if tracker is None or ch.chance(0.3):
                tracker = Rotation(self, ch.between(1, 9))
            self.one(tracker)

    def seed(self, tracker):
        ch = self.sim.ch
        d = dict((k, f + ch.between(-16, 16) / 8.) for k, f in zip(ALL, tracker.fixed))
        d.update({"pid": -13, "mass": 105.65, "event_number": ch.n(5), "spill": ch.n(3),
                  "bx": ch.n(4) / 4.})
        return Hit.new_from_dict(d)

    def one(self, tracker):
        ch = self.sim.ch
        seed = self.seed(tracker)
        with harness(self.sim):
            facts = [seed[k] for k in ALL + CONST]
        eps_max = ch.wpick([(None, 3), (1e6, 1), (0.5, 1), (20., 1), (1e-9, 0.3)])
        use_seed = ch.chance(0.3)
        args = {} if eps_max is None else {"eps_max": eps_max}
        if use_seed:
            args["use_seed"] = True
        finder = EllipseClosedOrbitFinder(tracker, seed, **args)
        eps_max = 1e6 if eps_max is None else eps_max
        what = ch.wpick([("find", 4), ("check", 2), ("scan", 2)])
        self.sim.log("OP %s" % what)
        self.sim.summary.append(what)
        getattr(self, what)(finder, tracker, seed, eps_max, use_seed)
        self.sim.point("do " + what)
        with harness(self.sim):
            if not all(same(seed[k], v) for k, v in zip(ALL + CONST, facts)):
                raise Violation("seed changed", "%s changed the seed from %s to %s" % (
                    what, facts, [seed[k] for k in ALL + CONST]))

    def step(self, search, call):
        """one step of a search; gives (result, error)"""
        me = self.sim.current
        before, self.search[me] = self.search.get(me), search
        try:
            return call(), None
        except Violation:
            raise
        except BaseException as exc:
            if type(exc).__name__ == "SimKilled":
                raise
            return None, exc
        finally:
            self.search[me] = before

    def errors(self, search, error, how):
        """errors of the tracker reach the caller, and others are documented"""
        raised = [c.error for c in search.calls if c.error is not None]
        if raised:
            if error is not raised[0]:
                raise Violation("wrong error", "%s: the tracker raised %r but the caller "
                                "got %r" % (how, raised[0], error))
            return True
        if error is None or isinstance(error, (StopIteration, ValueError, RuntimeError)):
            return False
        raise error

    def points(self, search, keys, first, n, use_seed, how):
        """the points that the tracker gave, which follow on each other"""
        at = [ALL.index(k) for k in keys]
        points = []
        given = first
        if use_seed:
            points.append([given[i] for i in at])
        for c in search.calls:
            if not all(same(a, b) for a, b in zip(c.given, given)):
                raise Violation("wrong start", "%s: tracked from %s instead of %s" % (
                    how, c.given, given))
            if len(points) >= n:
                raise Violation("too many calls", "%s: the tracker was called again with %d "
                                "points of %d" % (how, len(points), n))
            out = c.out[1:]
            points += [[o[i] for i in at] for o in out]
            if out:
                given = out[-1]
        return points

    def order(self, item, keys, how):
        """of the coordinates, which the search chooses"""
        if sorted(item.keys) != sorted(keys):
            raise Violation("wrong keys", "%s: keys are %r instead of %r" % (
                how, item.keys, keys))
        return list(item.keys)

    def judge(self, item, keys, points, eps_max, how):
        """a result"""
        self.results += 1
        if list(item.keys) != list(keys):
            raise Violation("wrong keys", "%s: keys are %r instead of %r" % (
                how, item.keys, keys))
        got = [list(p) for p in item.points]
        if len(got) != len(points) or not all(
                len(a) == len(b) and all(map(same, a, b)) for a, b in zip(got, points)):
            raise Violation("wrong points", "%s: points are %s instead of %s" % (
                how, got, points))
        again = item.json_repr()
        if [list(p) for p in again["points"]] != got and not any(
                v != v for p in got for v in p) or list(again["keys"]) != list(keys) or \
                again["eps_max"] != eps_max:
            raise Violation("wrong json", "%s: json form is %r" % (how, again))

    def centre(self, item, keys, points, eps_max, how):
        """is the mean of the points, or of those within the limit"""
        centre = [float(c) for c in numpy.array(item.centre).flatten()]
        flat = [v for p in points for v in p]
        if len(centre) != len(keys):
            raise Violation("wrong centre", "%s: the centre is %s for %s" % (
                how, centre, keys))
        if not all(map(math.isfinite, flat)):
            raise Violation("wrong centre", "%s: a centre %s of infinite points" % (
                how, centre))
        for i, c in enumerate(centre):
            values = [p[i] for p in points]
            low, high = min(values), max(values)
            room = 1e-9 * max(abs(low), abs(high), 1e-12)
            if not low - room <= c <= high + room:
                raise Violation("wrong centre", "%s: centre %s is outside of the points %s"
                                % (how, centre, points))
        if eps_max == 1e6 and max(map(abs, flat)) < 1e3:
            mean = [sum(p[i] for p in points) / len(points) for i in range(len(keys))]
            cov = numpy.cov(numpy.array(points).T, bias=True).reshape(len(keys), len(keys))
            det = numpy.linalg.det(cov)
            if det > 1e-6:
                inv = numpy.linalg.inv(cov)
                eps = max(float(v.dot(inv).dot(v)) for v in numpy.array(points) - mean)
                # a margin of ten to where points are left out, for any power of the det
                if eps * 10 * max(1., det) < 1e6:
                    for a, b in zip(centre, mean):
                        if not close(a, b, max(map(abs, flat)), 1e-8):
                            raise Violation("wrong centre", "%s: the centre is %s instead "
                                            "of %s" % (how, centre, mean))
        noise = item.noise
        if noise is None or len(noise) != len(points) or not all(map(math.isfinite, noise)):
            raise Violation("wrong noise", "%s: the noise is %r for %d points" % (
                how, noise, len(points)))
        if not close(item.get_mean_noise(), sum(noise) / len(noise),
                     max(map(abs, noise)), 1e-9):
            raise Violation("wrong noise", "%s: the mean of %r is %r" % (
                how, noise, item.get_mean_noise()))
        other = EllipseClosedOrbitFinderIteration(calculate_ellipse=True, **item.json_repr())
        if not all(close(a, b, max(map(abs, flat)), 1e-9)
                   for a, b in zip(numpy.array(other.centre).flatten(), centre)):
            raise Violation("wrong json", "%s: the centre is %s, but %s from the json form"
                            % (how, centre, other.centre))
        return centre

    def find(self, finder, tracker, seed, eps_max, use_seed):
        ch = self.sim.ch
        keys = ch.pick(PLANES)
        n = ch.between(1, 14)
        limit = ch.wpick([(None, 1), (100, 1), (0, 0.3), (1, 1), (2, 1), (5, 2), (20, 2)])
        how = "search in %s" % keys
        args = {}
        if limit != 100:
            args["max_iterations"] = limit
        clean = tracker.odd == 0.
        search = Search()
        generator, error = self.step(search, lambda: finder.find_closed_orbit_generator(
            list(keys), n, **args))
        if error is not None:
            raise error
        with harness(self.sim):
            first = [seed[k] for k in ALL]
            consts = [seed[k] for k in CONST]
        # without a limit the caller ends the search
        enough = ch.between(0, 12) if limit is None or ch.chance(0.2) else 10 ** 6
        centres = []
        error = None
        while len(centres) < enough:
            search.calls = []
            item, error = self.step(search, lambda: next(generator))
            with harness(self.sim):
                failed = self.errors(search, error, how)
                for c in search.calls:
                    if c.consts != consts:
                        raise Violation("wrong start", "%s: tracked a particle with %s "
                                        "instead of %s" % (how, c.consts, consts))
                if failed:
                    break
                if isinstance(error, StopIteration):
                    break
                if error is not None:
                    break
                if limit is not None and len(centres) >= limit:
                    raise Violation("too many iterations", "%s: %d results with a limit of "
                                    "%d" % (how, len(centres) + 1, limit))
                points = self.points(search, keys, first, n, use_seed, how)
                if len(points) < n:
                    raise Violation("too few points", "%s: a result with %d points instead "
                                    "of %d" % (how, len(points), n))
                self.judge(item, keys, points, eps_max, how)
                centre = self.centre(item, keys, points, eps_max, how)
                centres.append(centre)
                first = list(first)
                for k, v in zip(keys, centre):
                    first[ALL.index(k)] = v
            if self.sim.ch.chance(0.2):
                self.sim.point("between results")
        # a search that has ended stays so
        if error is not None:
            item, again = self.step(search, lambda: next(generator))
            if not isinstance(again, StopIteration):
                raise Violation("no end", "%s: goes on with %r after its end" % (
                    how, item or again))
        else:
            generator.close()
        total = search.total
        if limit is not None and total > limit * max(n, 1):
            raise Violation("too many calls", "%s: %d calls of the tracker for at most %d "
                            "times %d points" % (how, total, limit, n))
        if clean and eps_max == 1e6 and error is not None:
            self.converged(tracker, keys, seed, n, limit, centres, use_seed, error, how)

    def converged(self, tracker, keys, seed, n, limit, centres, use_seed, error, how):
        """a linear map: the distance to the fixed point goes down to rounding errors"""
        planes = [ALL.index(k) // 2 for k in keys]
        if len(keys) % 2 or any(planes.count(p) != 2 for p in planes) or 2 in planes:
            return
        turns = tracker.turns
        count = int(math.ceil((n - (1 if use_seed else 0)) / float(turns))) * turns
        if count < 4 * len(keys):
            return
        with harness(self.sim):
            whole = numpy.array([seed[k] for k in ALL]) - tracker.fixed
            back = numpy.linalg.matrix_power(tracker.matrix, turns).dot(whole)
            if max(abs(back - whole)) < 1e-6:
                return              # comes back to its start: the search may say so
            size = [seed[k] - tracker.fixed[ALL.index(k)] for k in keys]
        if any(abs(size[i]) < 0.25 and abs(size[i + 1]) < 0.25
               for i in range(0, len(keys), 2)):
            return                  # hardly an ellipse
        if limit is not None and limit < 1:
            return
        if len(keys) == 4:
            a, b = tracker.phases[0], tracker.phases[1]
            if abs(a - b) < 0.3:
                return              # the planes go round together
        if not centres:
            raise Violation("no result", "%s: no result of a linear map, but %r" % (
                how, error))
        # the centre of the points of one pass, from a start at distance 1
        total = numpy.zeros((6, 6))
        power = numpy.identity(6)
        for k in range(count):
            power = tracker.matrix.dot(power)
            total += power
        if use_seed:
            total = (total + numpy.identity(6)) / (count + 1)
        else:
            total /= count
        at = [ALL.index(k) for k in keys]
        distance = numpy.array(size)
        part = total[numpy.ix_(at, at)]
        best = max(map(abs, size))
        for i, c in enumerate(centres):
            distance = part.dot(distance)
            mine = [v - tracker.fixed[j] for v, j in zip(c, at)]
            if not all(abs(a - b) < 1e-7 * max(1., best) for a, b in zip(mine, distance)):
                raise Violation("wrong centre", "%s: the centre of pass %d is at %s from the "
                                "fixed point instead of %s" % (how, i, mine, list(distance)))
        self.sim.probe("searches judged for convergence")
        left = [abs(v - tracker.fixed[j]) for v, j in zip(centres[-1], at)]
        # the ellipse is singular once one plane is there
        left = min(max(left[i:i + 2]) for i in range(0, len(left), 2))
        if (limit is None or len(centres) < limit) and left > 1e-4:
            raise Violation("no convergence", "%s: ended with %r after %d results at a "
                            "distance of %g from the fixed point" % (
                                how, error, len(centres), left))

    def check(self, finder, tracker, seed, eps_max, use_seed):
        ch = self.sim.ch
        keys = sorted(ch.pick(PLANES))
        n = ch.between(1, 14)
        test = dict((k, tracker.fixed[ALL.index(k)] + ch.between(-16, 16) / 8.)
                    for k in ch.shuffled(keys))
        how = "check in %s" % keys
        search = Search()
        item, error = self.step(search, lambda: finder.check_closed_orbit(dict(test), n))
        with harness(self.sim):
            first = [test.get(k, seed[k]) for k in ALL]
            if self.errors(search, error, how):
                return
            if error is not None:
                if isinstance(error, StopIteration):
                    raise error
                return
            keys = self.order(item, keys, how)
            points = self.points(search, keys, first, n, use_seed, how)
            if len(points) < n:
                raise Violation("too few points", "%s: a result with %d points instead of "
                                "%d" % (how, len(points), n))
            self.judge(item, keys, points, eps_max, how)
            if item.noise is not None:
                self.centre(item, keys, points, eps_max, how)
            else:
                for ask in (item.get_mean_noise, item.get_sigma_noise):
                    try:
                        ask()
                    except ValueError:
                        continue
                    raise Violation("wrong noise", "%s: has noise only later" % how)

    def scan(self, finder, tracker, seed, eps_max, use_seed):
        ch = self.sim.ch
        keys = ch.shuffled(ch.pick(PLANES))
        start, end, step, axes = {}, {}, {}, {}
        for k in keys:
            step[k] = ch.pick([0.25, 0.5, 1., 2., 3.])
            start[k] = ch.between(-8, 8) / 4. + (226. if k == "energy" else 0.)
            size = ch.wpick([(0, 0.3), (1, 2), (2, 3), (3, 2)])
            end[k] = start[k] + step[k] * size - ch.pick([0., 0.125]) * (size > 0)
            axes[k] = [start[k] + i * step[k] for i in range(size)]
        order = sorted(keys)
        grid = list(itertools.product(*[axes[k] for k in order]))
        given = dict(start), dict(end), dict(step)
        how = "scan from %s to %s by %s" % given
        search = Search()
        generator, error = self.step(search, lambda: finder.scan_generator(*given))
        if error is not None:
            raise error
        enough = ch.between(0, 5) if ch.chance(0.2) else 10 ** 6
        at = [ALL.index(k) for k in order]
        seen = []
        failed = False
        error = None
        while len(seen) < enough:
            search.calls = []
            item, error = self.step(search, lambda: next(generator))
            with harness(self.sim):
                if isinstance(error, StopIteration) and not search.calls:
                    break
                if self.errors(search, error, how):
                    failed = True
                    break
                if error is not None:
                    raise error
                if len(search.calls) != 1:
                    raise Violation("wrong scan", "%s: %d calls of the tracker for a result"
                                    % (how, len(search.calls)))
                call = search.calls[0]
                if [call.given[i] for i in range(6) if ALL[i] not in keys] != \
                        [seed[k] for k in ALL if k not in keys] or \
                        call.consts != [seed[k] for k in CONST]:
                    raise Violation("wrong start", "%s: tracked from %s" % (how, call.given))
                seen.append(tuple(call.given[i] for i in at))
                mine = [ALL.index(k) for k in self.order(item, order, how)]
                self.judge(item, item.keys, [[o[i] for i in mine] for o in call.out],
                           eps_max, how)
            if self.sim.ch.chance(0.2):
                self.sim.point("between results")
        wrong = [p for p in seen if p not in grid]
        if wrong or len(set(seen)) < len(seen):
            raise Violation("wrong scan", "%s: tried %s" % (how, seen))
        if isinstance(error, StopIteration) and len(seen) < len(grid):
            raise Violation("wrong scan", "%s: did not try %s" % (
                how, [p for p in grid if p not in seen]))
        if (given[0], given[1], given[2]) != (start, end, step):
            raise Violation("arguments changed", "%s: arguments are %s afterwards" % (
                how, given))
        if failed:
            item, again = self.step(search, lambda: next(generator))
            if not isinstance(again, StopIteration):
                raise Violation("no end", "%s: goes on after an error" % how)


CHECK = O01()
