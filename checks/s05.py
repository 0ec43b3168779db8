"""S05: what a group answers depends on its particles alone; transformations move each once."""
import copy
import math

import numpy

from sim.kernel import Violation, harness
from sim.runner import Check
from xboa.bunch import Bunch
from xboa.hit import Hit
import xboa.common as Common
from .state import same

VARIABLES = ["x", "y", "z", "t", "px", "py", "pz", "energy", "bx", "by", "bz", "ex", "ey",
             "ez", "sx", "sy", "sz", "path_length", "proper_time", "e_dep", "charge", "mass",
             "local_weight", "global_weight", "spill", "event_number", "particle_number",
             "station", "status", "pid"]
DOUBLES = ["x", "y", "z", "t", "px", "py", "pz", "energy", "bx", "ez", "path_length"]
READ = DOUBLES + ["r", "pt", "p", "x'", "y'", "r_squared", "ct", "station", "pid", "l_kin",
                  "weight", "kinetic_energy", "phi", "global_weight", "local_weight",
                  "pphi", "r'", "t'", "spin"]
WEIGHTS = [1., 1., 1., 0., 0.5, 2., 3.75]
UNITS = [("", 1.), ("mm", 1.), ("m", 1e3), ("cm", 10.), ("GeV", 1e3)]
MOVES = {"t'": ["energy"], "p": ["px", "py", "pz"], "x'": ["px"], "y'": ["py"], "kinetic_energy": ["energy"], "ct": ["t"]}
SHELL = {"": [], "energy": ["energy"], "px": ["px"], "py": ["py"], "pz": ["pz"],
         "p": ["px", "py", "pz"]}
MASS = 105.65
C_LIGHT = 299.792458
FORMULA = {
    "r": lambda h: math.hypot(h["x"], h["y"]),
    "r_squared": lambda h: h["x"] ** 2 + h["y"] ** 2,
    "pt": lambda h: math.hypot(h["px"], h["py"]),
    "p": lambda h: math.hypot(h["px"], h["py"], h["pz"]),
    "phi": lambda h: math.atan2(h["y"], h["x"]),
    "pphi": lambda h: math.atan2(h["py"], h["px"]),
    "x'": lambda h: h["px"] / h["pz"],
    "y'": lambda h: h["py"] / h["pz"],
    "t'": lambda h: -h["energy"] / h["pz"],
    "r'": lambda h: math.hypot(h["px"], h["py"]) / h["pz"],
    "spin": lambda h: math.hypot(h["sx"], h["sy"], h["sz"]),
    "ct": lambda h: h["t"] * C_LIGHT,
    "kinetic_energy": lambda h: h["energy"] - h["mass"],
    "l_kin": lambda h: h["x"] * h["py"] - h["y"] * h["px"],
    "weight": lambda h: h["local_weight"] * h["global_weight"],
}


def close_angles(key, a, b):
    return key in ("phi", "pphi") and abs(math.remainder(a - b, 2. * math.pi)) < 1e-9


class Record(object):
    def __init__(self, hit, name):
        self.hit = hit
        self.name = name
        self.see()

    def see(self):
        self.values = [self.hit[k] for k in VARIABLES]

    def __getitem__(self, key):
        got = self.hit[key]
        if key in FORMULA:
            want = FORMULA[key](self.hit)
            scale = {"l_kin": lambda h: abs(h["x"] * h["py"]) + abs(h["y"] * h["px"]),
                     "kinetic_energy": lambda h: abs(h["energy"]) + h["mass"]}.get(
                         key, lambda h: abs(want))(self.hit)
            if not abs(got - want) <= 1e-9 * max(scale, 1e-6) and not close_angles(
                    key, got, want):
                raise Violation("wrong value", "%s has %s %r instead of %r" % (
                    self.name, key, got, want))
        return got


class Group(object):
    def __init__(self, bunch, members, name):
        self.bunch = bunch
        self.members = members
        self.name = name


class World(object):
    def __init__(self):
        self.records = []
        self.groups = []
        self.named = 0

    def name(self, what):
        self.named += 1
        return "%s%d" % (what, self.named)


def weight(r):
    return r["local_weight"] * r["global_weight"]


def alike(a, b):
    """structures with the same numbers"""
    if isinstance(a, numpy.ndarray) or isinstance(b, numpy.ndarray):
        a, b = numpy.array(a).tolist(), numpy.array(b).tolist()
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(alike(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float, complex)) and isinstance(b, (int, float, complex)):
        if isinstance(a, complex) or isinstance(b, complex):
            a, b = complex(a), complex(b)
            return alike(a.real, b.real) and alike(a.imag, b.imag)
        return same(a, b) or abs(a - b) <= 1e-7 * max(abs(a), abs(b), 1e-12)
    return a is b or a == b


def identical(a, b):
    """arguments as they were"""
    if isinstance(a, numpy.ndarray):
        return isinstance(b, numpy.ndarray) and a.shape == b.shape and \
            a.tolist() == b.tolist()
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and \
            all(identical(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and \
            all(identical(x, y) for x, y in zip(a, b))
    return a == b


def momentum(axis, geometric):
    if geometric:
        return axis + "'"
    return "energy" if axis in ("t", "ct") else "p" + axis


class Moments(object):
    """sums over the particles"""
    def __init__(self, members):
        self.members = members
        self.w = [weight(r) for r in members]
        self.total = sum(self.w)

    def moment(self, variables, about=None):
        about = about or {}
        centre = [about[v] if v in about else self.mean(v) for v in variables]
        out = 0.
        for w, r in zip(self.w, self.members):
            for v, c in zip(variables, centre):
                w *= r[v] - c
            out += w
        return out / self.total

    def mean(self, v):
        return sum(w * r[v] for w, r in zip(self.w, self.members)) / self.total

    def matrix(self, variables):
        data = numpy.array([[r[v] for v in variables] for r in self.members], float)
        w = numpy.array(self.w)
        data = data - (w @ data) / self.total
        return (data.T * w) @ data / self.total

    def sound(self, variables):
        """the covariance matrix is far from singular"""
        if self.total < 1e-3 or any(w < 0. for w in self.w):
            return None
        cov = self.matrix(variables)
        scale = numpy.sqrt(numpy.diag(cov))
        if not all(s > 1e-3 for s in scale):
            return None
        if numpy.linalg.cond(cov / numpy.outer(scale, scale)) > 1e6:
            return None
        return cov

    def emittance(self, axes, geometric, cov=None):
        if cov is None:
            cov = self.matrix(plane(axes, geometric))
        out = numpy.linalg.det(cov) ** (0.5 / len(axes))
        return out if geometric else out / MASS


def plane(axes, geometric):
    out = []
    for a in axes:
        out += [a, momentum(a, geometric)]
    return out


class Client(object):
    def __init__(self, check, sim, world, name, ids, modes):
        self.check = check
        self.sim = sim
        self.ch = sim.ch
        self.w = world
        self.name = name
        self.ids = ids             # identities that are left
        self.modes = modes

    # ------------------------------------------------------------- oracle
    def look(self, how):
        """nothing has changed that should not"""
        with harness(self.sim):
            for r in self.w.records:
                for k, v in zip(VARIABLES, r.values):
                    if not same(r.hit[k], v):
                        raise Violation("changed", "%s: %s of %s is %r instead of %r" % (
                            how, k, r.name, r.hit[k], v))
            for g in self.w.groups:
                if [id(h) for h in g.bunch.hits()] != [id(r.hit) for r in g.members]:
                    raise Violation("changed", "%s: %s has other particles" % (how, g.name))
            if bool(Bunch.get_geometric_momentum()) != self.check.mode:
                raise Violation("changed", "%s: the kind of momentum was switched" % how)

    def fresh(self, g):
        """a new group of new records with the same values"""
        bunch = Bunch()
        for r in g.members:
            bunch.append(Hit.new_from_dict(dict(
                (k, v) for k, v in zip(VARIABLES, r.values) if k != "global_weight")))
        return bunch

    def outcome(self, fn):
        try:
            return True, fn()
        except (Violation, AssertionError):
            raise
        except Exception as exc:
            return False, type(exc).__name__

    def ask(self, g, what, call, *args, **kw):
        """call(bunch, *args) answers as for a new group, and leaves everything alone"""
        axes = kw.get("axes")      # answers are noise if these have singular moments
        before = copy.deepcopy(args)
        good, got = self.outcome(lambda: call(g.bunch, *args))
        if not good:
            self.sim.count("queries that fail")
        with harness(self.sim):
            if not identical(list(before), list(args)):
                raise Violation("changed", "%s changed its arguments: %r instead of %r" % (
                    what, args, before))
            new = self.fresh(g)
            fine, want = self.outcome(lambda: call(new, *before))
            if (good != fine or not alike(got, want)) and (
                    axes is None or self.regular(g, axes)):
                raise Violation("wrong answer", "%s%r of %s gives %r, but %r for a new group "
                                "of the same particles" % (what, before, g.name, got, want))
        return got, good

    def regular(self, g, axes):
        """answers for these axes are defined for both kinds of momenta, far from noise"""
        if not axes or len(set(axes)) < len(axes) or set(axes) - set(["x", "y", "t"]):
            return False
        m = Moments(g.members)
        return m.total > 1e-3 and all(m.sound(plane(axes, k)) is not None
                                      for k in (True, False))

    def expect(self, g, what, got, *wants):
        if not any(abs(got - w) <= 1e-6 * max(abs(w), self.scale) for w in wants):
            raise Violation("wrong answer", "%s of %s is %r instead of %r; x: %r" % (
                what, g.name, got, wants[0], [r["x"] for r in g.members]))

    scale = 1e-12

    # ------------------------------------------------------------- particles and groups
    def make(self):
        ch = self.ch
        if not self.ids:
            return None
        ident = self.ids.pop()
        d = dict((k, ch.between(-640, 640) / 80.) for k in ("x", "y", "z", "t", "px", "py"))
        d.update({"pz": 200. + ch.between(-640, 640) / 20., "mass": MASS, "pid": -13,
                  "station": ch.n(3), "status": ch.n(3), "bx": ch.n(3) / 4.,
                  "bz": ch.n(5) * 1e-3, "ez": ch.n(3) * 1e-3, "charge": 1.,
                  "path_length": ch.n(5) * 10., "spill": ident, "event_number": ch.n(3),
                  "particle_number": ch.n(3), "local_weight": ch.pick(WEIGHTS)})
        d.update((k, ch.n(5) / 4. - 0.5) for k in ("sx", "sy", "sz"))
        if self.check.backward:
            d["pz"] *= -1.
        hit = Hit.new_from_dict(d, "energy")
        if ch.chance(0.2):
            hit["global_weight"] = ch.pick(WEIGHTS)
        r = Record(hit, self.w.name("r"))
        self.w.records.append(r)
        return r

    def record(self):
        if self.w.records and self.ch.chance(0.2):
            return self.ch.pick(self.w.records)
        return self.make() or self.ch.pick(self.w.records)

    def new(self):
        members = [self.record() for _ in range(self.ch.wpick(
            [(0, 0.3), (1, 0.7), (3, 1), (7, 3), (12, 2)]))]
        bunch = Bunch()
        for r in members:
            bunch.append(r.hit)
        g = Group(bunch, members, self.w.name("g"))
        self.w.groups.append(g)
        if len(self.w.groups) > 4:
            self.w.groups.pop(0)
        return g

    keeps = []

    def group(self):
        if self.keeps:
            return self.keeps[0]
        if self.w.groups and self.ch.chance(0.92):
            g = self.ch.pick(self.w.groups)
        else:
            g = self.new()
        with harness(self.sim):
            for r in g.members:
                if r["pz"] < 50.:   # slopes and the like are defined
                    r.hit["pz"] = 200.
                    r.hit.mass_shell_condition("energy")
                    r.see()
        return g

    def append(self):
        g = self.group()
        r = self.record()
        g.bunch.append(r.hit)
        g.members.append(r)

    def delete(self):
        g = self.group()
        if g.members:
            i = self.ch.n(len(g.members))
            del g.bunch[i]
            del g.members[i]

    def change(self):
        if not self.w.records:
            return
        r = self.ch.pick(self.w.records)
        key = self.ch.pick(["x", "px", "t", "pz", "local_weight", "global_weight", "station",
                            "energy"])
        r.hit[key] = self.ch.pick(WEIGHTS) if "weight" in key else \
            self.ch.pick([50., MASS, 106., 230.]) if key == "energy" else \
            self.ch.n(3) if key == "station" else \
            (200. if key == "pz" else 0.) + self.ch.between(-640, 640) / 80.
        r.see()

    def switch(self):
        if self.modes:
            self.check.mode = self.ch.chance(0.5)
            Bunch.set_geometric_momentum(self.check.mode)

    # ------------------------------------------------------------- queries
    def axes(self, odd=True):
        ch = self.ch
        return ch.wpick([(["x"], 4), (["y"], 2), (["x", "y"], 4), (["t"], 1), (["z"], 0.5),
                         (["y", "x"], 1), (["x", "y", "t"], 1), (["ct"], 0.5),
                         (["x", "z"], 0.5)] + ([(["p"], 0.3), ([], 0.2), (["x", "x"], 0.3)]
                                               if odd else []))

    def optics(self):
        """emittances and lattice functions"""
        ch = self.ch
        g = self.group()
        axes = self.axes()
        name = ch.pick(["emittance", "emittance", "beta", "gamma", "alpha"])
        given = ch.pick([None, None, True, False]) if not self.keeps else \
            ch.pick([None, False])
        if given is None and ch.chance(0.4):
            got, good = self.ask(g, "get", lambda b, n, a: b.get(n, a), name, axes,
                                 axes=axes)
        elif given is None:
            got, good = self.ask(g, "get_" + name, lambda b, a: getattr(b, "get_" + name)(a),
                                 axes, axes=axes)
        else:
            got, good = self.ask(g, "get_%s of kind %r" % (name, given),
                                 lambda b, a: getattr(b, "get_" + name)(a, geometric=given),
                                 axes, axes=axes)
        geometric = self.check.mode if given is None else given
        with harness(self.sim):
            if not axes or len(set(axes)) < len(axes) or "p" in axes or \
                    geometric and set(axes) & set(["z", "ct"]):
                return
            m = Moments(g.members)
            if m.total < 1e-3 or m.sound(plane(axes, geometric)) is None:
                return
            if not good:
                raise Violation("no answer", "get_%s(%r) of %s fails with %s" % (
                    name, axes, g.name, got))
            self.sim.probe("answers compared to a definition")
            what = "%s %s (%s)" % (name, axes, "geometric" if geometric else "kinetic")
            emittance = m.emittance(axes, geometric)
            n = len(axes)
            if name == "emittance":
                self.expect(g, what, got, emittance)
                return
            p = [1.] if geometric else [m.mean("p"), m.mean("pz")]
            norm = emittance * n * (1. if geometric else MASS)
            if name == "beta":
                size = sum(m.moment([a, a]) for a in axes)
                self.expect(g, what, got, *[size * q / norm for q in p])
            elif name == "gamma":
                size = sum(m.moment([momentum(a, geometric)] * 2) for a in axes)
                self.expect(g, what, got, *[size / q / norm for q in p])
            else:
                size = -sum(m.moment([a, momentum(a, geometric)]) for a in axes)
                self.scale = 1.
                self.expect(g, what, got, size / norm)
                self.scale = 1e-12

    def supplied(self):
        """with a covariance matrix and means of the caller"""
        ch = self.ch
        g = self.group()
        axes = self.axes(False)
        n = 2 * len(axes)
        rows = [[ch.between(-8, 8) / 8. for _ in range(n)] for _ in range(n)]
        cov = numpy.matrix(rows) * numpy.matrix(rows).T + numpy.matrix(numpy.eye(n))
        mode = self.check.mode
        if ch.chance(0.5):
            got, good = self.ask(g, "get_emittance", lambda b, a, c: b.get_emittance(a, c),
                                 axes, cov)
            if good:
                want = numpy.linalg.det(cov) ** (1. / n) / (1. if mode else MASS)
                self.expect(g, "the emittance of a given matrix", got, want)
            return
        if not g.members:
            return
        r = ch.pick(g.members)
        variables = plane(axes, mode)
        if mode and set(axes) & set(["z", "ct"]):
            return
        means = dict((v, ch.between(-8, 8) / 8.) for v in variables)
        got, good = self.ask(g, "get_amplitude", lambda b, a, c, m: Bunch.get_amplitude(
            b, r.hit, a, c, m), axes, cov, means)
        if good:
            v = numpy.array([r[k] - means[k] for k in variables])
            want = float(v @ numpy.linalg.inv(cov) @ v.reshape(n, 1)) * \
                numpy.linalg.det(cov) ** (1. / n) / (1. if mode else MASS)
            self.expect(g, "the amplitude in a given matrix", got, want)

    def amplitude(self):
        ch = self.ch
        g = self.group()
        axes = self.axes(False)
        given = ch.pick([None, None, True, False]) if not self.keeps else \
            ch.pick([None, False])
        geometric = self.check.mode if given is None else given
        if not g.members:
            return
        i = ch.n(len(g.members))
        r = g.members[i]
        way = ch.n(3) if given is None else 0
        name = "amplitude " + " ".join(axes)
        if way == 0:
            args = {} if given is None else {"geometric": given}
            got, good = self.ask(g, "get_amplitude of kind %r" % given,
                                 lambda b, a: Bunch.get_amplitude(b, r.hit, a, **args), axes,
                                 axes=axes)
        elif way == 1:
            got, good = self.ask(g, "get_hit_variable",
                                 lambda b, v: b.get_hit_variable(r.hit, v), name,
                                 axes=axes)
        else:
            got, good = self.ask(g, "list_get_hit_variable",
                                 lambda b, v: b.list_get_hit_variable(v), [name, "x"],
                                 axes=axes)
            if good:
                if [same(a, m["x"]) for a, m in zip(got[1], g.members)] != \
                        [True] * len(g.members):
                    raise Violation("wrong answer", "the list of x is %r" % (got[1],))
                got = got[0][i]
        with harness(self.sim):
            if geometric and set(axes) & set(["z", "ct"]):
                return
            m = Moments(g.members)
            variables = plane(axes, geometric)
            cov = m.sound(variables)
            if cov is None:
                return
            if not good:
                raise Violation("no answer", "%s of %s fails with %s" % (name, g.name, got))
            self.sim.probe("answers compared to a definition")
            v = numpy.array([r[k] - m.mean(k) for k in variables])
            want = float(v @ numpy.linalg.inv(cov) @ v) * m.emittance(axes, geometric, cov)
            self.scale = 1e-3
            self.expect(g, "%s of %s (%s)" % (name, r.name, "geometric" if geometric else
                                              "kinetic"), got, want)
            self.scale = 1e-12

    def stored(self):
        """with moments in store, which the group is asked to keep"""
        g = self.group()
        if self.check.mode or Moments(g.members).total < 1e-3:
            return
        g.bunch.set_covariance_matrix(True)
        self.keeps = [g]
        try:
            for _ in range(self.ch.between(1, 3)):
                getattr(self, self.ch.pick(["optics", "amplitude", "dispersion"]))()
            axes = self.axes(False)
            self.ask(g, "get_emittance", lambda b, a: b.get_emittance(a), axes, axes=axes)
        finally:
            self.keeps = []
            g.bunch.set_covariance_matrix(False)

    def planted(self):
        """with a covariance matrix and means of the caller in store"""
        ch = self.ch
        g = self.group()
        mode = self.check.mode
        if mode or not g.members or Moments(g.members).total < 1e-3:
            return
        names = plane(["x", "y", "z", "t", "ct"], mode)
        kinds = sorted(set(names))
        k = len(kinds)
        rows = [[ch.between(-8, 8) / 8. for _ in range(k)] for _ in range(k)]
        sound = numpy.matrix(rows) * numpy.matrix(rows).T + numpy.matrix(numpy.eye(k))
        at = [kinds.index(v) for v in names]
        cov = numpy.matrix([[sound[i, j] for j in at] for i in at])
        means = dict((v, ch.between(-8, 8) / 8.) for v in kinds)
        if all(v == 0. for v in means.values()):
            return
        before = [cov.copy(), dict(means)]
        g.bunch.set_covariance_matrix(True, cov, means)
        try:
            for _ in range(ch.between(2, 4)):
                kind = ch.n(6)
                if kind == 0:
                    if not (g.bunch.covariances_set() and g.bunch.means_set()):
                        raise Violation("wrong answer", "there is nothing in store")
                elif kind == 1:
                    v = ch.pick(kinds)
                    self.expect(g, "mean %s in store" % v, g.bunch.mean([v])[v], means[v])
                elif kind == 2:
                    i, j = ch.n(10), ch.n(10)
                    self.expect(g, "moment %s %s in store" % (names[i], names[j]),
                                g.bunch.moment([names[i], names[j]]), cov[i, j])
                elif kind == 3:
                    i = ch.n(10)
                    self.expect(g, "deviation of %s in store" % names[i],
                                g.bunch.standard_deviation(names[i]) ** 2, cov[i, i])
                else:
                    axes = self.axes(False)
                    here = [names.index(v) for a in axes for v in plane([a], mode)]
                    part = numpy.matrix([[cov[i, j] for j in here] for i in here])
                    emittance = numpy.linalg.det(part) ** (0.5 / len(axes)) / MASS
                    if kind == 4:
                        self.expect(g, "emittance of a store", g.bunch.get_emittance(axes),
                                    emittance)
                    else:
                        r = ch.pick(g.members)
                        v = numpy.array([r[names[i]] - means[names[i]] for i in here])
                        want = float(v @ numpy.linalg.inv(part) @ v.reshape(len(here), 1)) \
                            * emittance
                        self.expect(g, "amplitude in a store",
                                    Bunch.get_amplitude(g.bunch, r.hit, axes), want)
            if not identical([numpy.array(before[0]), before[1]], [numpy.array(cov), means]):
                raise Violation("changed", "the moments in store were changed")
        finally:
            g.bunch.set_covariance_matrix(False)
        if g.bunch.covariances_set() or g.bunch.means_set():
            raise Violation("wrong answer", "there are still moments in store")

    def dispersion(self):
        ch = self.ch
        g = self.group()
        axis = ch.wpick([("x", 3), ("y", 2), ("z", 0.3), ("p", 0.2)])
        kind = ch.n(4)
        given = ch.pick([None, True, False]) if not self.keeps else None
        if kind == 0:
            got, good = self.ask(g, "get_dispersion", lambda b, a: b.get_dispersion(a), axis)
        elif kind == 1:
            got, good = self.ask(g, "get_dispersion_prime of kind %r" % given,
                                 lambda b, a: b.get_dispersion_prime(a, given), axis)
        elif kind == 2:
            got, good = self.ask(g, "get_dispersion_rsquared",
                                 lambda b: b.get_dispersion_rsquared())
        else:
            name = ch.pick(["dispersion", "dispersion_prime"])
            got, good = self.ask(g, "get", lambda b, n, a: b.get(n, a), name, [axis, "y"])
            given = None
        with harness(self.sim):
            if axis in ("z", "p") and kind != 2:
                return
            m = Moments(g.members)
            if m.total < 1e-3 or any(w < 0 for w in m.w) or m.moment(["energy"] * 2) < 1e-3:
                return
            if not good:
                raise Violation("no answer", "a dispersion of %s fails with %s" % (
                    g.name, got))
            factor = m.mean("energy") / m.moment(["energy"] * 2)
            geometric = self.check.mode if given is None else given
            self.scale = abs(factor) * 1e2
            if kind == 2:
                zero = {"r_squared": 0., "energy": 0.}
                want = [m.moment(["r_squared", "energy"], zero) - (
                    m.moment(["x", "x"], about) + m.moment(["y", "y"], about)) *
                    m.mean("energy") for about in (None, {"x": 0., "y": 0.})]
                self.scale *= 1e4
            elif kind == 1 or kind == 3 and name == "dispersion_prime":
                want = [m.moment([momentum(axis, geometric), "energy"])]
            else:
                want = [m.moment([axis, "energy"])]
            self.expect(g, "dispersion %d %r" % (kind, given), got,
                        *[factor * w for w in want])
            self.scale = 1e-12

    def rotation(self):
        ch = self.ch
        g = self.group()
        mode = self.check.mode
        axis = {}
        if ch.chance(0.5):
            axis = dict((k, ch.between(-8, 8) / 8.) for k in ("x", "y", "px", "py", "x'",
                                                              "y'"))
        kind = ch.n(3)
        if kind == 0:
            if axis:
                got, good = self.ask(g, "get_kinetic_angular_momentum",
                                     lambda b, a: b.get_kinetic_angular_momentum(a), axis)
            else:
                got, good = self.ask(g, "get_kinetic_angular_momentum",
                                     lambda b: b.get_kinetic_angular_momentum())
        elif kind == 1:
            axis = {}
            got, good = self.ask(g, "get", lambda b, n, a: b.get(n, a), "angular_momentum",
                                 ["x"])
        else:
            bz = ch.pick([None, 0., 4e-3])
            if axis:
                field = {"x": ch.between(-8, 8) / 8., "y": 0.5}
                got, good = self.ask(
                    g, "get_canonical_angular_momentum",
                    lambda b, z, f, a: b.get_canonical_angular_momentum(z, f, a),
                    bz, field, axis)
            else:
                if mode:
                    return         # whether the default is the origin is left open
                field = {"x": 0., "y": 0.}
                got, good = self.ask(
                    g, "get_canonical_angular_momentum",
                    lambda b, z: b.get_canonical_angular_momentum(z), bz)
        with harness(self.sim):
            m = Moments(g.members)
            if m.total < 1e-3 or any(w < 0 for w in m.w):
                return
            if not good:
                raise Violation("no answer", "an angular momentum of %s fails with %s" % (
                    g.name, got))
            centre = axis or dict((k, 0.) for k in ("x", "y", "px", "py", "x'", "y'"))
            if mode:
                value = m.moment(["x", "y'"], centre) - m.moment(["y", "x'"], centre)
                wants = [value * m.mean("p"), value * m.mean("pz")]
            else:
                wants = [m.moment(["x", "py"], centre) - m.moment(["y", "px"], centre)]
            if kind == 2:
                if bz is None:
                    bz = g.members[0]["bz"]
                add = C_LIGHT * bz * (m.moment(["x", "x"], field) +
                                      m.moment(["y", "y"], field)) / 2.
                wants = [w + add for w in wants]
            self.scale = 1e2
            self.expect(g, "angular momentum %d" % kind, got, *wants)
            self.scale = 1e-12

    def moments(self):
        ch = self.ch
        g = self.group()
        variables = [ch.pick(READ) for _ in range(ch.between(1, 3))]
        kind = ch.n(6)
        about = dict((v, ch.between(-8, 8) / 8.) for v in variables if ch.chance(0.3))
        if ch.chance(0.05):
            variables.append("no such")
        if kind == 0:
            got, good = self.ask(g, "mean", lambda b, v: b.mean(v), variables)
        elif kind == 1:
            got, good = self.ask(g, "moment", lambda b, v, a: b.moment(v, a), variables,
                                 about)
        elif kind == 2:
            got, good = self.ask(g, "covariance_matrix",
                                 lambda b, v, a: b.covariance_matrix(v, a), variables, about)
        elif kind == 3:
            form = ch.n(3)
            first = variables[0] if form else variables
            if form == 2 and first in about:
                # the mean of the first variable as a plain number
                got, good = self.ask(g, "standard_deviation",
                                     lambda b, v, a: b.standard_deviation(v, a), first,
                                     about[first])
            else:
                got, good = self.ask(g, "standard_deviation",
                                     lambda b, v, a: b.standard_deviation(v, a), first, about)
        elif kind == 4:
            name = ch.pick(["mean", "moment", "standard_deviation", "bunch_weight"])
            got, good = self.ask(g, "get", lambda b, n, v: b.get(n, v), name, variables)
        else:
            got, good = self.ask(g, "get", lambda b, n, v: b.get(n, v), "nothing", variables)
            if good:
                raise Violation("no error", "there is a quantity 'nothing'")
            return
        with harness(self.sim):
            m = Moments(g.members)
            if m.total < 1e-3 or any(w < 0 for w in m.w) or "no such" in variables:
                if not good or "no such" not in variables or kind == 4:
                    return
                if kind != 3:
                    raise Violation("no error", "there is a moment of 'no such'")
                return
            if not good:
                raise Violation("no answer", "moments of %r fail with %s" % (variables, got))
            self.scale = 1e3
            for v in variables:
                self.scale *= max([1.] + [abs(r[v]) for r in g.members])
            if kind == 0:
                for v in variables:
                    self.expect(g, "mean of " + v, got[v], m.mean(v))
            elif kind == 1:
                self.expect(g, "moment of %r about %r" % (variables, about), got,
                            m.moment(variables, about))
            elif kind == 2:
                self.scale = self.scale ** 2
                for i, a in enumerate(variables):
                    for j, b in enumerate(variables):
                        self.expect(g, "covariance of %s, %s about %r" % (a, b, about),
                                    float(got[i, j]), m.moment([a, b], about))
            elif kind == 3:
                self.scale = self.scale ** 2
                self.expect(g, "variance of %s" % variables[0], got ** 2,
                            m.moment([variables[0]] * 2, about))
            elif name == "bunch_weight":
                self.expect(g, "weight", got, m.total)
            elif name == "mean":
                self.expect(g, "mean", got, m.mean(variables[0]))
            elif name == "moment":
                self.expect(g, "moment", got, m.moment(variables))
            self.scale = 1e-12

    def values(self):
        """what the particles have, one by one"""
        ch = self.ch
        g = self.group()
        variables = [ch.pick(READ) for _ in range(ch.between(1, 3))]
        units = [ch.pick(UNITS) for _ in variables]
        kind = ch.n(3)
        if kind == 0:
            got, good = self.ask(g, "list_get_hit_variable",
                                 lambda b, v: b.list_get_hit_variable(v), variables)
            units = [("", 1.)] * len(variables)
        elif kind == 1:
            got, good = self.ask(g, "list_get_hit_variable",
                                 lambda b, v, u: b.list_get_hit_variable(v, u), variables,
                                 [u[0] for u in units])
        elif g.members:
            r = ch.pick(g.members)
            about = dict((v, ch.between(-8, 8) / 8.) for v in variables if ch.chance(0.5))
            got, good = self.ask(g, "get_vector", lambda b, v, a: r.hit.get_vector(v, a),
                                 variables, about)
            if not good or not alike(numpy.array(got).tolist()[0],
                                     [r[v] - about.get(v, 0.) for v in variables]):
                raise Violation("wrong answer", "the vector of %r about %r is %r" % (
                    variables, about, got))
            return
        else:
            return
        if not good or not alike(got, [[r[v] / u[1] for r in g.members]
                                       for v, u in zip(variables, units)]):
            raise Violation("wrong answer", "the lists of %r of %s are %r" % (
                variables, g.name, got))

    def table(self):
        """quantities of several groups, sorted by the first"""
        ch = self.ch
        if not self.w.groups:
            return
        groups = [ch.pick(self.w.groups) for _ in range(ch.between(1, 4))]
        names = [ch.pick(["mean", "bunch_weight", "moment"]) for _ in range(ch.between(1, 3))]
        lists = [[ch.pick(["x", "y", "px", "station"])] for _ in names]
        lists = [v * 2 if n == "moment" else v for n, v in zip(names, lists)]
        with harness(self.sim):
            totals = [Moments(g.members).total for g in groups]
            if any(abs(t) < 1e-3 for t in totals):
                return
        before = [list(names), [list(v) for v in lists]]
        bunches = dict((k, g.bunch) for k, g in enumerate(groups))
        got = Bunch.list_get(bunches, names, lists)
        with harness(self.sim):
            if before != [names, lists] or len(bunches) != len(groups) or \
                    any(bunches[k] is not g.bunch for k, g in enumerate(groups)):
                raise Violation("changed", "list_get changed its arguments")
            rows = []
            for g in groups:
                new = self.fresh(g)
                rows.append(tuple(new.get(n, list(v)) for n, v in zip(names, lists)))
            mine = list(zip(*got))
            if len(mine) != len(rows) or any(a[0] > b[0] for a, b in zip(mine, mine[1:])):
                raise Violation("wrong answer", "list_get is not sorted: %r" % (mine,))
            for row in mine:
                near = [r for r in rows if alike(list(r), list(row))]
                if not near:
                    raise Violation("wrong answer", "list_get gives %r, of no group: %r" % (
                        row, rows))
                rows.remove(near[0])

    def histogram(self):
        ch = self.ch
        g = self.group()
        names = [ch.pick(["x", "y", "px", "t", "r", "station", "x'", "pz"])
                 for _ in range(ch.between(1, 2))]
        units = [ch.pick(UNITS) for _ in names]
        with harness(self.sim):
            points = [[r[v] / u[1] for r in g.members] for v, u in zip(names, units)]
            weights = [weight(r) for r in g.members]
        twod = len(names) == 2
        if ch.chance(0.5):
            edges = []
            for p, u in zip(points, units):
                some = sorted(set([ch.between(-80, 80) / 8. / u[1] + 1e-5
                                   for _ in range(ch.between(2, 5))]))
                edges.append(some)
            if any(len(e) < 2 for e in edges):
                return
            if twod:
                got, good = self.ask(
                    g, "histogram_var_bins", lambda b, v, e, u, w, f, q:
                    b.histogram_var_bins(v, e, u, w, f, q), names[0], edges[0], units[0][0],
                    names[1], edges[1], units[1][0])
            else:
                got, good = self.ask(
                    g, "histogram_var_bins", lambda b, v, e, u: b.histogram_var_bins(
                        v, e, u), names[0], edges[0], units[0][0])
            given = edges
        else:
            given = None
            args = {"x_axis_string": names[0], "x_axis_units": units[0][0]}
            if twod:
                args.update({"y_axis_string": names[1], "y_axis_units": units[1][0]})
            wish = []
            for axis, u in zip("xy", units[:len(names)]):
                low = high = n = None
                if ch.chance(0.6):
                    n = args["n%s_bins" % axis] = ch.between(1, 5)
                # in which units limits are is left open
                if u[1] == 1. and ch.chance(0.3):
                    low = args[axis + "min"] = ch.between(-80, -8) / 8. / u[1] + 1e-5
                if u[1] == 1. and ch.chance(0.3):
                    high = args[axis + "max"] = ch.between(250, 330) / u[1] + 1e-5
                wish.append((low, high, n))
            got, good = self.ask(g, "histogram", lambda b, a: b.histogram(**a), args)
        if not good:
            raise Violation("no answer", "a histogram of %r of %s fails with %s" % (
                names, g.name, got))
        with harness(self.sim):
            contents, edges = got[0], [list(got[1])] + ([list(got[2])] if twod else [])
            if given is not None and edges != given:
                raise Violation("wrong bins", "bins %r instead of %r" % (edges, given))
            if given is None:
                for (low, high, n), e, p in zip(wish, edges, points):
                    self.bins(low, high, n, e, p, names)
            self.contents(names, numpy.array(contents), edges, points, weights)

    def bins(self, low, high, n, e, p, names):
        bad = n is not None and len(e) != n + 1 or len(e) < 2
        if p and max(p) - min(p) > 1e-6:
            low = min(p) if low is None else low
            high = max(p) if high is None else high
        if not bad:
            step = (e[-1] - e[0]) / (len(e) - 1.)
            tiny = 1e-9 * max(map(abs, e))
            bad = low is not None and abs(e[0] - low) > tiny or \
                high is not None and abs(e[-1] - high) > tiny or \
                any(abs(e[0] + step * i - x) > 10 * tiny for i, x in enumerate(e))
        if bad:
            raise Violation("wrong bins", "the histogram of %r has bins %r; asked for %r to "
                            "%r in %r" % (names, e, low, high, n))

    def place(self, edges, x):
        """the bin of x; None: outside; -1: left open"""
        tiny = 1e-9 * max(map(abs, edges))
        if any(abs(x - e) < tiny for e in edges):
            if x == edges[0] or x in edges[1:-1] and edges.count(x) == 1:
                pass
            else:
                return -1
        for i in range(len(edges) - 1):
            if edges[i] <= x < edges[i + 1]:
                return i
        return None

    def contents(self, names, contents, edges, points, weights):
        shape = tuple(len(e) - 1 for e in edges) + ((1,) if len(edges) == 1 else ())
        if contents.shape != shape:
            raise Violation("wrong bins", "the histogram has shape %r instead of %r" % (
                contents.shape, shape))
        want = numpy.zeros(shape)
        loose = []
        for k, w in enumerate(weights):
            where = [self.place(e, p[k]) for e, p in zip(edges, points)]
            if -1 in where:
                loose.append(w)
            elif None not in where:
                want[tuple(where) + ((0,) if len(edges) == 1 else ())] += w
        over = contents - want
        if (over < -1e-9).any() or over.sum() > sum(loose) + 1e-9:
            raise Violation("wrong contents", "the histogram of %r is %r instead of %r, bins "
                            "%r; points %r, weights %r" % (
                                names, contents.tolist(), want.tolist(), edges, points,
                                weights))

    def chosen(self):
        """particles by amplitude"""
        g = self.group()
        name = "amplitude x" if self.ch.chance(0.5) else "amplitude x y"
        limit = self.ch.between(0, 40) / 1e3
        self.ask(g, "get_hits", lambda b, v, l: [h["x"] for h in b.get_hits(
            v, l, lambda a, c: a < c)], name, limit, axes=name.split()[1:])

    # ------------------------------------------------------------- transformations
    def occurrences(self, g):
        """each particle as often as it is in the group, in order"""
        return list(g.members)

    def state(self, r):
        return dict(zip(VARIABLES, r.values))

    def shell(self):
        return self.ch.wpick([("", 4), ("energy", 3), ("pz", 2), ("p", 1.5), ("px", 0.3)])

    def settle(self, g, what, moved, shell, raised):
        """nothing but what was to be moved has changed"""
        with harness(self.sim):
            free = set(moved) | set(SHELL[shell])
            members = set(id(r) for r in g.members)
            for r in self.w.records:
                if id(r) not in members:
                    continue
                for k, v in zip(VARIABLES, r.values):
                    now = r.hit[k]
                    if k not in free and not same(now, v):
                        raise Violation("changed", "%s changed %s of %s to %r from %r" % (
                            what, k, r.name, now, v))

    def on_shell(self, r, shell, what):
        """the particle obeys E^2 = p^2 + m^2, if it can"""
        e, m = r["energy"], r["mass"]
        p2 = r["px"] ** 2 + r["py"] ** 2 + r["pz"] ** 2
        left = e * e - m * m - (p2 - r[shell] ** 2 if shell in ("px", "py", "pz") else 0.)
        if shell != "energy" and left < 1e-3:
            if left < -1e-3 and any(r[k] != 0. for k in SHELL[shell]):
                raise Violation("off shell", "%s: %s of %s is %r, although no value fits" % (
                    what, shell, r.name, r[shell]))
            return
        if abs(e * e - p2 - m * m) > 1e-9 * e * e:
            raise Violation("off shell", "%s: %s has energy %r, momenta %r" % (
                what, r.name, e, [r[k] for k in ("px", "py", "pz")]))

    def transform(self, g, what, call, shell, moved, args, check):
        """do it, and judge"""
        before = copy.deepcopy(args)
        old = dict((id(r), self.state(r)) for r in g.members)
        good, got = self.outcome(lambda: call(*args))
        if not good:
            self.sim.count("transformations that fail")
        self.settle(g, what, moved, shell, not good)
        with harness(self.sim):
            if not identical(list(before), list(args)):
                raise Violation("changed", "%s changed its arguments: %r instead of %r" % (
                    what, args, before))
            if good:
                for r in g.members:
                    check(r, old[id(r)])
                if shell:
                    for r in g.members:
                        self.on_shell(r, shell, what)
            for r in self.w.records:
                if any(r is m for m in g.members):
                    r.see()
        return good, got

    def near(self, r, k, got, want, what):
        if abs(got - want) > 1e-9 * max(abs(want), abs(got), 1.):
            raise Violation("wrong value", "%s: %s of %s is %r instead of %r" % (
                what, k, r.name, got, want))

    def times(self, g, r):
        return sum(m is r for m in g.members)

    def translate(self):
        ch = self.ch
        g = self.group()
        shell = self.shell()
        amounts = {}
        for _ in range(ch.wpick([(1, 3), (2, 2), (3, 1)])):
            amounts[ch.pick(["x", "y", "z", "t", "px", "py", "pz", "bx", "path_length"])] = \
                ch.between(-8, 8) / 4.
        bad = ch.wpick([(None, 8), ("variable", 0.5), ("shell", 0.5)])
        if bad is None and ch.chance(0.15):
            amounts = {ch.pick(["x'", "y'"]): ch.between(-8, 8) / 64.} if ch.chance(0.5) \
                else {ch.pick(["kinetic_energy", "ct", "p"]): ch.between(0, 8) / 4.}
            if ch.chance(0.3):
                amounts = {"t'": ch.between(0, 8) / (64. if self.check.backward else -64.)}
            shell = ""
        if bad == "variable":
            amounts["no such"] = 1.
        shells = "no such" if bad == "shell" else shell
        moved = set()
        for k in amounts:
            moved |= set(MOVES.get(k, [k]))

        def check(r, old):
            for k, v in amounts.items():
                if k in SHELL[shell] or k in ("px", "py", "pz") and shell == "p":
                    continue
                if k in MOVES:
                    if self.times(g, r) == 1:
                        self.near(r, k, r[k], self.derived(k, old) + v, "translate")
                    continue
                want = old[k]
                for _ in range(self.times(g, r)):
                    want += v
                self.near(r, k, r[k], want, "translate by %r" % (amounts,))
        low = [r.name for r in g.members if "t'" in amounts and (not r["pz"] or abs(
            -r["energy"] / r["pz"] + self.times(g, r) * amounts["t'"]) * abs(
                r["pz"]) < r["mass"] * 1.001)]
        good, got = self.transform(g, "translate", g.bunch.translate, shell, moved,
                                   [amounts, shells], check)
        if bad and good and g.members or not bad and not good and not low:
            raise Violation("wrong error", "translate(%r, %r) ends with %r" % (
                amounts, shells, got))

    def derived(self, k, old):
        if k == "x'":
            return old["px"] / old["pz"]
        if k == "y'":
            return old["py"] / old["pz"]
        if k == "t'":
            return -old["energy"] / old["pz"]
        if k == "kinetic_energy":
            return old["energy"] - old["mass"]
        if k == "ct":
            return old["t"] * C_LIGHT
        return (old["px"] ** 2 + old["py"] ** 2 + old["pz"] ** 2) ** 0.5

    def period(self):
        ch = self.ch
        g = self.group()
        variable = ch.wpick([("t", 4), ("x", 1), ("z", 1), ("no such", 0.3)])
        frequency = ch.pick([0.2, 0.25, 0.5, 1., 2.])
        offset = ch.between(-80, 80) / 16.

        def check(r, old):
            now = r[variable]
            if not -0.5 / frequency - 1e-9 <= now <= 0.5 / frequency + 1e-9:
                raise Violation("wrong value", "period_transformation leaves %s of %r at "
                                "frequency %r" % (variable, now, frequency))
            if self.times(g, r) == 1 or offset == 0.:
                turns = (old[variable] - offset - now) * frequency
                if abs(turns - round(turns)) > 1e-9 * max(1., abs(turns)):
                    raise Violation("wrong value", "period_transformation by %r with "
                                    "frequency %r takes %s from %r to %r" % (
                                        offset, frequency, variable, old[variable], now))
        args = [offset, frequency] + ([variable] if variable != "t" or ch.chance(0.5) else [])
        good, got = self.transform(g, "period_transformation", g.bunch.period_transformation,
                                   "", [variable], args, check)
        if good == (variable == "no such") and g.members:
            raise Violation("wrong error", "period_transformation(%r) ends with %r" % (
                args, got))

    def abelian(self):
        ch = self.ch
        g = self.group()
        variables = ch.shuffled(["x", "px", "y", "py", "z", "t", "pz"])[:ch.between(1, 4)]
        n = len(variables)
        rows = [[ch.between(-8, 8) / 4. for _ in range(n)] for _ in range(n)]
        shift = dict((v, ch.between(-8, 8) / 4.) for v in variables if ch.chance(0.5))
        origin = dict((v, ch.between(-8, 8) / 4.) for v in variables)
        if "pz" in variables:
            rows[variables.index("pz")] = [1. if v == "pz" else 0. for v in variables]
        if ch.chance(0.2):
            shift["ez"] = 1.       # no part of the transformation
        shell = self.shell()
        bad = ch.chance(0.08)
        listed = variables + ["no such"] if bad else list(variables)
        if bad:
            rows = [row + [0.] for row in rows] + [[0.] * (n + 1)]
        kind = ch.n(2)
        given = numpy.matrix(rows) if kind else numpy.array(rows)

        def check(r, old):
            v = [old[k] for k in variables]
            for _ in range(self.times(g, r)):
                d = [a - origin[k] for a, k in zip(v, variables)]
                v = [sum(rows[i][j] * d[j] for j in range(n)) + shift.get(k, 0.) + origin[k]
                     for i, k in enumerate(variables)]
                if set(SHELL[shell]) & set(variables):
                    break
            for k, a in zip(variables, v):
                if k in SHELL[shell] or self.times(g, r) > 1 and SHELL[shell] and \
                        set(SHELL[shell]) & set(variables):
                    continue
                if abs(r[k] - a) > 1e-9 * (1. + sum(map(abs, map(r.__getitem__, variables)))
                                           + sum(abs(old[q]) for q in variables) * 10.):
                    raise Violation("wrong value", "abelian_transformation of %r by %r, %r: "
                                    "%s of %s is %r instead of %r" % (
                                        variables, rows, [shift, origin, shell], k, r.name,
                                        r[k], a))
        good, got = self.transform(
            g, "abelian_transformation", g.bunch.abelian_transformation, shell, variables,
            [listed, given, shift, origin, shell], check)
        if good == bad and g.members:
            raise Violation("wrong error", "abelian_transformation(%r) ends with %r" % (
                listed, got))

    def shape(self):
        """transform_to: the moments wanted, up to a factor, and emittance conserved"""
        ch = self.ch
        g = self.group()
        axes = ch.pick([["x", "px"], ["y", "py"], ["x", "px", "y", "py"], ["px", "x"]])
        n = len(axes)
        rows = [[ch.between(-8, 8) / 8. for _ in range(n)] for _ in range(n)]
        target = numpy.matrix(rows) * numpy.matrix(rows).T + 0.5 * numpy.matrix(numpy.eye(n))
        shift = {"x": ch.between(-8, 8) / 4.} if ch.chance(0.4) and "x" in axes else {}
        shell = ch.pick(["", "energy", "pz"])
        with harness(self.sim):
            m = Moments(g.members)
            cov = m.sound(axes) if m.total > 1e-3 else None
            single = len(set(map(id, g.members))) == len(g.members)
        if cov is None or not single:
            return
        good, got = self.transform(
            g, "transform_to", lambda a, t, s, q: g.bunch.transform_to(a, t, s, {}, q), shell,
            axes, [axes, target, shift, shell], lambda r, old: None)
        if not good:
            raise Violation("no answer", "transform_to(%r) of %s fails with %s" % (
                axes, g.name, got))
        with harness(self.sim):
            new = Moments(g.members).matrix(axes)
            size = numpy.linalg.det(cov) ** (1. / n)
            want = numpy.array(target) / numpy.linalg.det(target) ** (1. / n) * size
            if abs(new - want).max() > 1e-5 * abs(want).max():
                raise Violation("wrong shape", "transform_to gives moments %r instead of %r" %
                                (new.tolist(), want.tolist()))

    def forced(self, old, variable):
        """what the momenta and energy are on the mass shell, and whether they can be"""
        e, m = old["energy"], old["mass"]
        p = [old[k] for k in ("px", "py", "pz")]
        p2 = sum(v * v for v in p)
        want = dict((k, old[k]) for k in ("px", "py", "pz", "energy"))
        if variable == "energy":
            want["energy"] = math.sqrt(m * m + p2)
            return want, True
        left = (e - m) * (e + m)
        if variable == "p":
            good = left > 0.
            scale = math.sqrt(max(left, 0.))
            if p2 == 0.:
                p, p2 = [0., 0., 1.], 1.
            for k, v in zip(("px", "py", "pz"), p):
                want[k] = v / math.sqrt(p2) * scale
        else:
            left -= p2 - old[variable] ** 2
            good = left > 0.
            want[variable] = math.sqrt(max(left, 0.))
        return want, None if abs(left) < 1e-2 else good

    def alone(self):
        """what is done to one particle"""
        ch = self.ch
        members = self.group().members
        if not members:
            return
        shell = ch.pick(["energy", "px", "py", "pz", "p", "p", ""])
        with harness(self.sim):
            hit = ch.pick(members).hit.deepcopy()
            for k in ("px", "py", "pz"):
                if ch.chance(0.4):
                    hit[k] = ch.pick([0., 0., ch.between(-80, 80) / 8. * 16.])
            if ch.chance(0.6):
                hit["energy"] = ch.pick([hit["mass"], 50., 0., 105.75, 200., 1000.])
            values = dict((k, hit[k]) for k in VARIABLES if k != "global_weight")
        kind = ch.n(4)
        moved = dict(values)
        args = []
        if kind == 0:
            what = "mass_shell_condition(%r)" % shell
            bad = ch.chance(0.1)
            call = lambda: hit.mass_shell_condition("no such" if bad else shell)
        elif kind == 1:
            what = "new_from_dict"
            given = dict((k, values[k]) for k in ch.shuffled(sorted(values))
                         if k in ("px", "py", "pz", "mass", "energy") or ch.chance(0.5))
            moved = dict((k, given.get(k, 1. if k == "local_weight" else 0)) for k in values)
            bad = ch.chance(0.1)
            if bad:
                given["no such"] = 1.
            args = [given, shell]
            call = lambda: Hit.new_from_dict(*args)
        elif kind == 2:
            what = "translate"
            args = [dict((k, ch.between(-8, 8) / 4.) for k in ("x", "t", "px", "ez", "energy")
                         if ch.chance(0.5)), shell]
            for k, v in args[0].items():
                moved[k] += v
            bad = ch.chance(0.1)
            if bad:
                args[0]["no such"] = 1.
            call = lambda: hit.translate(*args)
        else:
            what = "abelian_transformation"
            names = ch.shuffled(["x", "px", "y", "py", "t"])[:ch.between(1, 3)]
            n = len(names)
            rows = [[ch.between(-8, 8) / 4. for _ in range(n)] for _ in range(n)]
            shift, origin = [dict((k, ch.between(-8, 8) / 4.) for k in names
                                  if ch.chance(0.5)) for _ in range(2)]
            d = [values[k] - origin.get(k, 0.) for k in names]
            for row, k in zip(rows, names):
                moved[k] = sum(a * b for a, b in zip(row, d)) + shift.get(k, 0.) + \
                    origin.get(k, 0.)
            bad = ch.chance(0.1)
            if bad:
                names, rows = names + ["no such"], [row + [0.] for row in rows] + \
                    [[0.] * (n + 1)]
            args = [names, ch.pick([numpy.matrix, numpy.array])(rows), shift, origin, shell]
            call = lambda: hit.abelian_transformation(*args)
        before = copy.deepcopy(args)
        good, got = self.outcome(call)
        with harness(self.sim):
            if not identical(before, list(args)):
                raise Violation("changed", "%s changed its arguments: %r instead of %r" % (
                    what, args, before))
            if good == bad:
                raise Violation("wrong error", "%s of %r ends with %r" % (what, args, got))
            if bad:
                for name in ("no such", "X", None):
                    for do in (lambda: hit[name], lambda: hit.get(name),
                               lambda: hit.__setitem__(name, 1.), lambda: hit.set(name, 1.)):
                        if self.outcome(do)[0]:
                            raise Violation("no error", "a particle has a value %r" % (name,))
            if not good:
                return
            want, can = self.forced(moved, shell) if shell else ({}, None)
            if kind == 0 and can is not None and bool(got) != can:
                raise Violation("wrong value", "%s of %r answers %r" % (what, moved, got))
            new = got if kind == 1 else hit
            scale = max([1.] + [abs(v) for v in values.values()] +
                        [abs(v) for v in want.values()] + [abs(v) for v in moved.values()])
            for k in values:
                v = want.get(k, moved[k])
                off = abs(new[k] - v)
                if k == shell and k != "energy":
                    off = min(off, abs(new[k] + v))         # of which sign is left open
                # near to zero the square root makes much of rounding
                near = 1e-9 * scale if k not in want or can else 1e-4 * scale
                if not off <= near:
                    raise Violation("wrong value", "%s by %r of %r: %s is %r instead of %r" % (
                        what, args or shell, values, k, new[k], v))

    QUERIES = [("optics", 5), ("supplied", 1.5), ("amplitude", 3), ("stored", 1), ("planted", 1),
               ("dispersion", 2), ("rotation", 2), ("moments", 3), ("values", 2),
               ("table", 1.5), ("histogram", 3), ("chosen", 0.7), ("alone", 2)]
    MOVE = [("translate", 2), ("period", 1.2), ("abelian", 2), ("shape", 1)]
    OPS = QUERIES + MOVE + [("new", 0.7), ("append", 1.5), ("delete", 1), ("change", 2),
                            ("switch", 1.5)]

    def work(self, steps):
        for _ in range(steps):
            name = self.ch.wpick(self.OPS)
            self.sim.log("OP %s %s" % (self.name, name))
            getattr(self, name)()
            self.check.done.add(name)
            self.look("after " + name)
            self.sim.point("do " + name)


class S05(Check):
    def scenario(self, sim):
        ch = sim.ch
        sim.summary = []
        sim.isolate_weights = True
        sim.quanta = ch.pick([[1, 2, 4, 8, 16], [1, 1, 2, 3]])
        self.done = set()
        self.mode = False
        self.backward = ch.chance(0.12)
        Bunch.set_geometric_momentum(False)
        n = ch.wpick([(1, 3), (2, 2), (3, 1)])
        alone = n > 1 and ch.chance(0.4)
        if alone:
            sim.max_steps = 600000
            self.mode = ch.chance(0.3)
            Bunch.set_geometric_momentum(self.mode)
        world = World()
        shared = list(range(60))
        clients = [Client(self, sim, World() if alone else world, "c%d" % k,
                          [60 * (k + 1) + i for i in range(30)] if alone else shared,
                          not alone) for k in range(n)]
        try:
            with harness(sim):
                for c in clients[:n if alone else 1]:
                    c.new()
            sim.trace_lines = alone
            tasks = [sim.new_task(sim.current.proc, lambda c=c, k=ch.between(
                2, 4 if alone else 9): c.work(k), c.name) for c in clients]
            sim.wait(lambda: all(t.done for t in tasks), None, "clients")
            sim.trace_lines = False
            for t in tasks:
                if t.exc is not None:
                    raise t.exc
            for c in clients:
                c.look("at the end")
        finally:
            Bunch.set_geometric_momentum(False)
        sim.nontrivial = len(self.done & set(k for k, _ in Client.QUERIES + Client.MOVE)) > 1


CHECK = S05()
