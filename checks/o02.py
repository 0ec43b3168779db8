"""O02: tune calculators use the data of their latest tracking, and nothing else."""
import contextlib
import copy
import io
import math
import warnings

import numpy

from sim.kernel import Violation, harness
from sim.runner import Check
from xboa.algorithms.peak_finder import WindowPeakFinder
from xboa.algorithms.tune import DPhiTuneFinder, FFTTuneFinder
from xboa.hit import Hit
from .o01 import ALL, CONST, Rotation, Trouble
from .state import close, same

FFT = ["fractional_tune", "peak_x_list", "peak_y_list", "k_mag_x", "k_mag_y"]
DPHI = ["tune", "tune_error", "dphi"]


class Peaks(object):
    """a peak finder that may fail, or let others run"""
    def __init__(self, check, window):
        self.check = check
        self.real = WindowPeakFinder(window, 0., 1)
        self.error = None
        self.said = []

    def __deepcopy__(self, memo):
        return self                # goes along with every copy of a calculator

    def find_peaks(self, data):
        ch = self.check.sim.ch
        self.check.sim.point("find peaks")
        kind = ch.wpick([("plain", 8), ("fail", 1), ("none", 1)])
        if kind == "fail":
            self.check.sim.count("peak finder fails")
            self.error = ch.pick([Trouble("peaks"), ValueError("peaks"), IndexError(),
                                  KeyboardInterrupt()])
            raise self.error
        if kind == "none":
            self.check.sim.count("no peaks found")
            got = []
        else:
            got = self.real.find_peaks(data)
        self.said.append(list(got))
        return got


class Echo(object):
    """a peak finder that says what another one said"""
    def __init__(self, said):
        self.said = list(said)

    def find_peaks(self, data):
        return list(self.said.pop(0))


def listed(x):
    """as nested lists of numbers"""
    if x is None or isinstance(x, (int, float)):
        return x
    if isinstance(x, numpy.generic):
        return float(x)
    return [listed(y) for y in x]


def alike(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(alike, a, b))
    if isinstance(a, list) or isinstance(b, list) or a is None or b is None:
        return a is b
    return same(a, b)


class User(object):
    """a calculator and what is known of it"""
    def __init__(self, kind, calc, peaks):
        self.kind = kind
        self.calc = calc
        self.peaks = peaks
        self.data = None           # lists, if they are known
        self.given = None          # lists of the caller, and what was in them
        self.hanning = False
        self.q = None              # frequency of the data, if they have only one


class O02(Check):
    def scenario(self, sim):
        ch = sim.ch
        self.sim = sim
        sim.summary = []
        sim.isolate_weights = True
        sim.quanta = [1, 2, 4, 8]
        sim.max_steps = 100000
        self.search = {}
        self.answers = 0
        shared = self.tracker() if ch.chance(0.5) else None
        tasks = [sim.new_task(sim.current.proc, lambda: self.client(shared), "c%d" % i)
                 for i in range(ch.wpick([(1, 3), (2, 2), (3, 1)]))]
        with warnings.catch_warnings(), numpy.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            sim.wait(lambda: all(t.done for t in tasks), None, "clients")
        for t in tasks:
            if t.exc is not None:
                raise t.exc
        sim.nontrivial = self.answers > 1

    def tracker(self):
        tracker = Rotation(self, self.sim.ch.wpick([(1, 1), (2, 1), (5, 2), (8, 2), (13, 3),
                                                    (20, 3), (31, 2)]),
                           self.sim.ch.chance(0.5))
        tracker.marks = self.sim.ch.chance(0.3)
        return tracker

    def client(self, shared):
        ch = self.sim.ch
        users = [self.make() for _ in range(ch.between(1, 2))]
        for _ in range(ch.between(2, 8)):
            user = users[ch.n(len(users))]
            op = ch.wpick([("track", 5), ("tune", 6), ("copy", 1), ("look", 1)])
            if op == "track":
                tracker = shared
                if tracker is None or ch.chance(0.3):
                    tracker = self.tracker()
                self.track(user, tracker)
            elif op == "tune":
                self.tune(user)
            elif op == "copy":
                other = User(user.kind, copy.deepcopy(user.calc), user.peaks)
                other.data = user.data
                other.hanning, other.q = user.hanning, user.q
                users.append(other)
            self.sim.point("do " + op)
            self.look(user)
            self.sim.summary.append("%s %s" % (user.kind, op))

    def make(self):
        ch = self.sim.ch
        kind = ch.pick(["dphi", "fft"])
        args = []
        data = None
        if ch.chance(0.3):
            n = ch.pick([0, 1, 2, 5, 16, 21, 40])
            q, a = ch.between(3, 47) / 97., ch.between(1, 30) / 4.
            off = ch.pick([0., 1.])
            data = [[a * math.cos(2 * math.pi * q * i) + off for i in range(n)],
                    [a * math.sin(2 * math.pi * q * i) - 2. for i in range(n)]]
            args = [list(data[0]), list(data[1])]
            if kind == "fft" and ch.chance(0.3):
                args = args[:1]
                data = [data[0], None]
        given = (args, [list(x) for x in args])
        if kind == "dphi":
            user = User(kind, DPhiTuneFinder(*args), None)
        else:
            peaks = Peaks(self, ch.pick([3, 5])) if ch.chance(0.4) else None
            names = dict(zip(["u_data", "up_data"], args))
            if peaks is not None:
                names["peak_finder"] = peaks
            hanning = ch.chance(0.1)
            if hanning:
                names["use_hanning_filter"] = True
            user = User(kind, FFTTuneFinder(**names), peaks)
            user.hanning = hanning
        user.data = data
        user.q = None if data is None else q
        user.given = given
        return user

    def track(self, user, tracker):
        ch, sim = self.sim.ch, self.sim
        d = dict(zip(ALL, tracker.fixed))
        if ch.chance(0.2):
            d["x"] += 1.5
        d.update({"pid": -13, "mass": 105.65, "event_number": ch.n(5), "spill": ch.n(3),
                  "bx": ch.n(4) / 4.})
        ref = Hit.new_from_dict(d)
        with harness(sim):
            facts = [ref[k] for k in ALL + CONST]
        pairs = [("x", "px"), ("y", "py"), ("px", "x"), ("x", "y")]
        delta, other = ch.between(-9, 9) / 2., ch.pick([0., 0., 1.])
        use = None
        if ch.chance(0.3):
            use = sorted(ch.subset(list(range(tracker.turns + 3)), 0.7))
            if ch.chance(0.3):
                use.reverse()
        search = self.search[sim.current] = SearchNote()
        args = {} if use is None else {"use_hits": use}
        if user.kind == "dphi":
            keys = ch.pick(pairs)
            deltas = {keys[0]: delta, keys[1]: other}
            call = (keys[0], keys[1], delta, other, ref, tracker)
        else:
            keys = ch.pick([("x", "px"), ("y", "py")])
            deltas = {keys[0]: delta}
            call = (keys[0], delta, ref, tracker)
        error = None
        try:
            user.calc.run_tracking(*call, **args)
        except Exception as exc:
            error = exc
        except BaseException as exc:
            if type(exc).__name__ in ("SimKilled", "Violation", "HarnessError"):
                raise
            error = exc
        with harness(sim):
            if not all(same(ref[k], v) for k, v in zip(ALL + CONST, facts)):
                raise Violation("reference changed", "tracking in %s changed the reference "
                                "from %s to %s" % (keys, facts,
                                                   [ref[k] for k in ALL + CONST]))
            if len(search.calls) != 1:
                raise Violation("number of calls", "the tracker was called %d times"
                                % len(search.calls))
            c = search.calls[0]
            want = [f + deltas.get(k, 0.) for k, f in zip(ALL, facts)]
            if not all(close(a, b, max(abs(b), 1.), 1e-9)
                       for a, b in zip(c.given, want)) or \
                    not all(map(same, c.consts, facts[len(ALL):])):
                raise Violation("wrong start", "tracked %s instead of %s" % (c.given, want))
            if c.error is not None:
                if error is not c.error:
                    raise Violation("wrong error", "the tracker raised %r, the caller got %r"
                                    % (c.error, error))
                self.look(user)
                return
            if error is not None:
                raise error
            at = [ALL.index(k) for k in keys]
            out = [o for i, o in enumerate(c.out) if use is None or i in use]
            user.data = [[o[i] for o in out] for i in at]
            user.given = None
            plain = c.kind == "plain" and use is None and deltas.get("y", 0.) == 0.
            user.q = tracker.phases[at[0] // 2] / 2. / math.pi if plain else None
        self.look(user)

    def look(self, user):
        """the data are those of the latest tracking, the caller's lists are untouched"""
        with harness(self.sim):
            calc = user.calc
            if user.given is not None and user.given[0] and \
                    not alike([listed(x) for x in user.given[0]], user.given[1]):
                raise Violation("lists changed", "the lists of the caller are %s instead of "
                                "%s" % user.given)
            for name, want in zip(["u", "up"], user.data or [None, None]):
                got = getattr(calc, name)
                if got is not None:
                    got = listed(got)
                ok = alike(got, want)
                if not ok and user.kind == "fft" and want is not None and len(want) % 2 == 0:
                    ok = alike(got, want[:-1])       # as documented
                if not ok:
                    raise Violation("wrong data", "%s of the %s calculator is %s instead of "
                                    "%s" % (name, user.kind, got, want))

    def ask(self, calc, tolerance):
        """(answer, error) of a calculation"""
        args = [] if tolerance is None else [tolerance]
        try:
            return calc.get_tune(*args), None
        except Exception as exc:
            return None, exc
        except BaseException as exc:
            if type(exc).__name__ in ("SimKilled", "Violation", "HarnessError"):
                raise
            return None, exc

    def tune(self, user):
        ch, sim = self.sim.ch, self.sim
        tolerance = ch.pick([None, None, 0.01, 0.1]) if user.kind == "fft" else None
        if user.peaks is not None:
            user.peaks.error, user.peaks.said = None, []
        answer, error = self.ask(user.calc, tolerance)
        how = "tune of %s data" % (None if user.data is None else len(user.data[0]))
        if user.peaks is not None and user.peaks.error is not None:
            if error is not user.peaks.error:
                raise Violation("wrong error", "%s: the peak finder raised %r, the caller got "
                                "%r" % (how, user.peaks.error, error))
            return
        if user.data is None or user.data[0] is None:
            if not isinstance(error, ValueError):
                raise Violation("no error", "%s: without data gives %r, %r" % (
                    how, answer, error))
            return
        with harness(sim), contextlib.redirect_stderr(io.StringIO()):
            u = list(user.data[0])
            up = None if user.data[1] is None else list(user.data[1])
            if user.kind == "dphi":
                fresh = DPhiTuneFinder(u, up)
            else:
                said = None if user.peaks is None else Echo(user.peaks.said)
                fresh = FFTTuneFinder(u, up, said, user.hanning)
            want, want_error = self.ask(fresh, tolerance)
            if type(error) is not type(want_error):
                raise Violation("history", "%s: gives %r, but %r with a new calculator" % (
                    how, error or answer, want_error or want))
            if user.kind == "dphi":
                self.advances(user, answer, error, how)
            else:
                self.peak(user, answer, error, tolerance, how)
            if error is not None:
                return
            self.answers += 1
            names = DPHI if user.kind == "dphi" else FFT
            for name, a, b in [("answer", answer, want)] + [
                    (k, getattr(user.calc, k), getattr(fresh, k)) for k in names]:
                if not alike(listed(a), listed(b)):
                    raise Violation("history", "%s: %s is %s, but %s with a new calculator"
                                    % (how, name, listed(a), listed(b)))

    def peak(self, user, answer, error, tolerance, how):
        """the frequency of a plain oscillation"""
        n = len(user.data[0])
        if user.q is None or user.peaks is not None or user.hanning or n < 20:
            return
        u = numpy.array(user.data[0])
        if u.std() < 0.1 or abs(u.mean()) > 0.3 * u.std() or abs(u).max() > 3. * u.std():
            return
        q = min(user.q, 1. - user.q)
        if not 0.1 < q < 0.45:
            return
        if error is not None or abs(answer - q) > 1.5 / n + (tolerance or 0.):
            raise Violation("wrong tune", "%s: the tune is %r instead of %r" % (
                how, error or answer, q))
        self.sim.probe("peak judged")

    def advances(self, user, answer, error, how):
        """the mean advance around the ellipse through the points"""
        points = numpy.array(user.data).T
        if len(points) < 4 or not numpy.isfinite(points).all() or \
                numpy.abs(points).max() > 1e3:
            return
        cov = numpy.cov(points.T, bias=True)
        # only when points are well apart
        if numpy.linalg.cond(cov) > 1e4 or numpy.linalg.det(cov) < 1e-4:
            return
        circle = numpy.linalg.inv(numpy.linalg.cholesky(cov)).dot((points - points.mean(0)).T)
        if numpy.hypot(*circle).min() < 1e-3:
            return
        phi = -numpy.arctan2(circle[1], circle[0])
        steps = numpy.mod(numpy.diff(phi) / 2. / math.pi, 1.)
        if min(steps.min(), 1. - steps.max()) < 1e-6:
            return                 # no step or a full turn
        if error is not None:
            raise Violation("wrong tune", "%s: %r instead of %r" % (
                how, error, steps.mean()))
        if len(user.calc.dphi) != len(steps) or abs(answer - steps.mean()) > 1e-6 or \
                abs(user.calc.tune_error - steps.std()) > 1e-6:
            raise Violation("wrong tune", "%s: the tune is %r +- %r from %d advances instead "
                            "of %r +- %r from %d" % (
                                how, answer, user.calc.tune_error, len(user.calc.dphi),
                                steps.mean(), steps.std(), len(steps)))
        self.sim.probe("advances judged")


class SearchNote(object):
    """the calls of a tracker"""
    def __init__(self):
        self.calls = []
        self.total = 0


CHECK = O02()
