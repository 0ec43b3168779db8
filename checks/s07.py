"""S07: the compiled core survives failing allocations and gives back what it took."""
import ctypes
import gc
import os
import resource
import signal
import struct
import sys

import _testcapi

from sim.kernel import Violation, harness
from sim.runner import Check
from xboa.core import Bunchcore, Hitcore, WeightContext
from .state import some_ids, same

DOUBLES = ["x", "y", "px", "pz", "t", "energy", "mass", "local_weight"]
INTS = ["pid", "station", "status"]
ID_KEYS = ["spill", "event_number", "particle_number"]
NUMBERS = [0., 1., -2.5, 3.25, 1e6]
INT_NUMBERS = [0, 1, -13, 40000, 2**30]
WIDTHS = [1, 1, 1, 2, 3, 1000]
REPEATS = 48
LIMIT = 48 << 20                   # what the C++ library may take, if it is limited
PURE = ["hit get", "names", "settable", "moment", "covariances", "tensor", "powers", "length",
        "item", "table get", "table default", "arithmetic", "number arithmetic", "invert",
        "compare tables", "compare hits", "dump", "new", "current table"]
MUTATORS = ["hit set", "hit set int", "put", "drop and put", "cut", "table set", "set default",
            "switch", "clear", "init again"]
BAD = ["bad get", "bad set", "bad axes", "bad means", "bad index", "bad item", "bad cut",
       "bad table", "bad arithmetic", "bad power", "no core"]
HUGE = ["huge index", "huge powers", "huge tensor"]


class Trouble(Exception):
    """of a callback"""


class Odd(object):
    """a number whose value is asked for"""
    def __init__(self, value, act=None):
        self.value = value
        self.act = act

    def __float__(self):
        if self.act is not None:
            self.act()
        return float(self.value)

    def __index__(self):
        if self.act is not None:
            self.act()
        return int(self.value)


class Doubt(object):
    """neither true nor false"""
    def __bool__(self):
        raise Trouble("truth")


class Liar(object):
    """says that it is a weight table"""
    @property
    def __class__(self):
        return WeightContext


class Moody(object):
    """does not say what it is"""
    @property
    def __class__(self):
        raise Trouble("class")


class MallInfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in (
        "arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks",
        "fordblks", "keepcost")]


def heap():
    """bytes in use of the C library's heap"""
    try:
        fn = ctypes.CDLL(None).mallinfo2
    except (OSError, AttributeError):
        return lambda: 0
    fn.restype = MallInfo

    def used():
        info = fn()
        return info.uordblks + info.hblkhd
    return used


class Op(object):
    """a call, what it is called with, and what it shall do"""
    def __init__(self, fn, args=(), keep=(), kw=None, after=None, partial=False, bad=False,
                 repeat=True, cleanup=None):
        self.fn = fn
        self.args = tuple(args)
        self.kw = kw or {}
        self.keep = [a for a in list(args) + list(keep) + list(self.kw.values())]
        self.after = after         # the state it leads to, given the state before
        self.partial = partial     # a failing call may have done a part of it
        self.bad = bad             # always refused
        self.repeat = repeat
        self.cleanup = cleanup


class World(object):
    """what the child process works on"""
    def __init__(self, plan):
        self.ids = plan["ids"]
        self.hits = []
        for i, (record, values) in enumerate(plan["hits"]):
            h = Hitcore()
            for k, v in zip(ID_KEYS, self.ids[record % len(self.ids)]):
                h.set(k, v)
            for k, v in zip(DOUBLES, values):
                h.set(k, v)
            h.set("local_weight", 1.)
            self.hits.append(h)
        self.tables = [Hitcore.get_weight_context()]
        for n in range(plan["tables"]):
            t = WeightContext()
            t.set_default_weight(1. + n)
            t.set_weight(weight=0.5, **dict(zip(ID_KEYS, self.ids[n % len(self.ids)])))
            self.tables.append(t)
        self.groups = []
        for members in plan["groups"]:
            g = Bunchcore()
            for at, m in members:
                g.set_item(self.hits[m % len(self.hits)], at)
            self.groups.append(g)

    # ------------------------------------------------------------- state
    def state(self):
        s = {}
        for i, h in enumerate(self.hits):
            for k in DOUBLES + INTS + ID_KEYS:
                s["hit", i, k] = h.get(k)
        for i, t in enumerate(self.tables):
            s["default", i] = t.get_default_weight()
            for n, rec in enumerate(self.ids):
                s["weight", i, n] = t.get_weight(*rec)
        for i, h in enumerate(self.hits):
            s["global", i] = h.get("global_weight")
        for i, g in enumerate(self.groups):
            s["length", i] = g.length()
            for j in range(g.length()):
                s["item", i, j] = self.number(g.get_item(j))
        return s

    def number(self, h):
        if h is None:
            return None
        for i, mine in enumerate(self.hits):
            if h == mine:
                return i
        return -1


def differ(a, b):
    return [k for k in sorted(set(a) | set(b), key=repr)
            if k not in a or k not in b or not same(a[k], b[k])]


def allowed(before, now):
    """a part of a cut: weights are what they were, or 0"""
    return all(k in before and k in now and (k[0] == "global" or k[0] == "weight" or
                                             k[-1] == "local_weight") and now[k] == 0.
               for k in differ(before, now))


def flat(x):
    """a result as something to compare"""
    if isinstance(x, (list, tuple)):
        return [flat(v) for v in x]
    if isinstance(x, WeightContext):
        return "table"
    return x


def equal(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(equal, a, b))
    return type(a) is type(b) and same(a, b)


class Child(object):
    """runs the plan in a process of its own"""
    def __init__(self, plan, out):
        self.plan = plan
        self.out = out
        self.used = heap()
        self.counts = {}

    def say(self, kind, text=""):
        data = ("%s|%s" % (kind, text)).encode()
        os.write(self.out, struct.pack("I", len(data)) + data)

    def violation(self, kind, text):
        self.say("violation", "%s|%s" % (kind, text))
        os._exit(0)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def run(self):
        gc.collect()
        self.start = len(Hitcore.dump_memory())
        self.w = World(self.plan)
        for step in self.plan["steps"]:
            self.say("at", step["op"])
            self.step(step)
        # everything goes
        self.say("at", "end")
        self.w = None
        gc.collect()
        left = len(Hitcore.dump_memory()) - self.start
        if left:
            self.violation("records kept", "%d records are in memory although nobody has "
                           "them any more" % left)
        for k, v in sorted(self.counts.items()):
            self.say("count", "%s|%d" % (k, v))
        self.say("done")

    # ------------------------------------------------------------- one step
    def step(self, step):
        w = self.w
        op = self.make(step)
        how = step["op"]
        if step["op"] in HUGE:
            return self.huge(op, how, step)
        before = w.state()
        want = None
        if op.after is None and not op.partial:
            # no change: the answer without faults is the one to give
            want = self.attempt(op, None)
            if differ(before, w.state()):
                self.changed(how, "", before, w.state())
        # every place where memory may run out
        done = False
        clean = 0
        for n in range(step["skip"], step["skip"] + 80):
            result, error, hit = self.attempt(op, (n, n + step["width"]))
            self.count("failing allocations")
            now = w.state()
            if error is None:
                self.answer(op, how, step, want, result)
                if op.after is not None:
                    self.reached(how, before, now, op)
                    done = True
                    break
                if op.partial:
                    done = True
                    break
                clean += 1
                if clean > 2:
                    break
            else:
                self.count("operations that failed")
                clean = clean + 1 if want is not None and want[1] is not None and \
                    type(error) is type(want[1]) else 0
                if clean > 12:
                    break
            changed = differ(before, now)
            if op.after is not None and changed and not differ(op.after(before), now):
                done = True
                break
            if changed and not (op.partial and allowed(before, now)):
                self.changed(how, "failing ", before, now)
        if op.cleanup is not None:
            op.cleanup()
        if not done or op.after is None:
            # and now without faults
            start = w.state()
            result, error, _ = self.attempt(op, None)
            if want is not None:
                if error is not None and want[1] is None:
                    self.violation("fails for good", "%s after failing allocations: %r" % (
                        how, error))
                self.answer(op, how, step, want, result if error is None else None)
            elif op.after is not None:
                if error is not None:
                    self.violation("fails for good", "%s after failing allocations: %r" % (
                        how, error))
                self.reached(how, before, w.state(), op)
            elif not allowed(start, w.state()):
                self.changed(how, "", start, w.state())
            if op.cleanup is not None:
                op.cleanup()
        if step["leak"] and op.repeat:
            self.growth(op, how, None)
            if step["leak"] > 1:
                self.growth(op, how, (step["at"], step["at"] + step["width"]))

    def answer(self, op, how, step, want, result):
        if want is None or want[1] is not None or op.bad:
            return
        if not equal(flat(want[0]), flat(result)):
            self.violation("wrong answer", "%s while allocations fail: %r instead of %r" % (
                how, flat(result), flat(want[0])))

    def reached(self, how, before, now, op):
        bad = differ(op.after(before), now)
        if bad:
            self.violation("not done", "%s: %s are %r instead of %r" % (
                how, bad[:4], [now.get(k) for k in bad[:4]],
                [op.after(before).get(k) for k in bad[:4]]))

    def changed(self, how, what, before, now):
        bad = differ(before, now)
        self.violation("changed", "%s%s changed %s from %r to %r" % (
            what, how, bad[:4], [before.get(k) for k in bad[:4]],
            [now.get(k) for k in bad[:4]]))

    def attempt(self, op, window):
        """(result, error, -) of one call"""
        result = error = None
        fn, args, kw = op.fn, op.args, op.kw
        refs = [sys.getrefcount(a) for a in op.keep]
        try:
            if window is None:
                result = fn(*args, **kw)
            else:
                try:
                    _testcapi.set_nomemory(*window)
                    result = fn(*args, **kw)
                finally:
                    _testcapi.remove_mem_hooks()
        except BaseException as exc:
            _testcapi.remove_mem_hooks()
            error = exc
        # without memory the interpreter itself may lose an error
        if isinstance(error, SystemError) and (
                window is None or "built-in method" in str(error)):
            self.violation("broken call", "%s gives %s" % (
                self.plan["names"](op), "a result and an error"
                if "with an exception set" in str(error) else "no result and no error"))
        if error is not None:
            error.__traceback__ = None
            error.__context__ = None
        hold = result
        if op.fn is not None and not isinstance(result, (list, tuple)):
            # an argument that is the result may have one more
            refs = [r + sum(1 for _ in [0] if a is result) for r, a in zip(refs, op.keep)]
        now = [sys.getrefcount(a) for a in op.keep]
        for a, r, s in zip(op.keep, refs, now):
            if r != s and r < 1 << 28:       # others live for ever
                self.violation("references", "%s leaves %d references to its argument of type "
                               "%s" % (self.plan["names"](op), s - r, type(a).__name__))
        del hold
        return result, error, None

    def growth(self, op, how, window):
        """memory in use after many calls"""
        def many():
            for _ in range(REPEATS):
                try:
                    if window is None:
                        op.fn(*op.args, **op.kw)
                    else:
                        try:
                            _testcapi.set_nomemory(*window)
                            op.fn(*op.args, **op.kw)
                        finally:
                            _testcapi.remove_mem_hooks()
                except BaseException:
                    _testcapi.remove_mem_hooks()
                if op.cleanup is not None:
                    op.cleanup()
            gc.collect()
            return sys.getallocatedblocks(), self.used()
        many()
        seen = [many() for _ in range(3)]
        self.count("calls measured", 4 * REPEATS)
        for i, what in enumerate(["objects", "bytes"]):
            steps = [(b[i] - a[i]) / float(REPEATS) for a, b in zip(seen, seen[1:])]
            if min(steps) >= (0.9 if i == 0 else 7.):
                self.violation("memory lost", "every call of %s%s keeps %s" % (
                    how, "" if window is None else " with failing allocations", what))

    def huge(self, op, how, step):
        """more than the C++ library can have"""
        before = self.w.state()
        with open("/proc/self/statm") as fin:
            now = int(fin.read().split()[0]) * resource.getpagesize()
        old = resource.getrlimit(resource.RLIMIT_AS)
        resource.setrlimit(resource.RLIMIT_AS, (now + LIMIT, old[1]))
        try:
            result, error, _ = self.attempt(op, None)
        finally:
            resource.setrlimit(resource.RLIMIT_AS, old)
        self.count("address space used up")
        del result
        if error is None:
            self.count("done in spite of it")
            if step["op"] == "huge index":
                self.say("done")
                os._exit(0)        # nothing can look at that many items
        elif differ(before, self.w.state()):
            self.changed(how, "failing ", before, self.w.state())

    # ------------------------------------------------------------- operations
    def make(self, step):
        w = self.w
        a, b, c, d = step["n"]
        h = w.hits[a % len(w.hits)]
        i = a % len(w.hits)
        gi = b % len(w.groups)
        g = w.groups[gi]
        ti = c % len(w.tables)
        t = w.tables[ti]
        rec = w.ids[d % len(w.ids)]
        num = NUMBERS[d % len(NUMBERS)]
        # strings of their own, as those in the program live for ever
        axes = ["".join(list(DOUBLES[(a + k * b) % 7])) for k in range(1 + c % 3)]
        means = dict((k, float(n) + 0.5) for n, k in enumerate(axes) if (d >> n) & 1)
        name = step["op"]
        if name == "hit get":
            keys = DOUBLES + INTS + ID_KEYS + ["global_weight"]
            return Op(h.get, ("".join(list(keys[d % len(keys)])),))
        if name == "names":
            return Op(Hitcore.get_variables)
        if name == "settable":
            return Op(Hitcore.set_variables)
        if name == "moment":
            return Op(g.moment, (axes, means), axes + list(means.values()))
        if name == "covariances":
            return Op(g.covariance_matrix, (axes, means), axes + list(means.values()))
        if name == "tensor":
            return Op(g.moment_tensor, (axes, 1 + d % 3), axes)
        if name == "powers":
            return Op(g.index_by_power, (d % 4, 1 + c % 3))
        if name == "length":
            return Op(g.length)
        if name == "item":
            n = g.length()
            if n == 0:
                return Op(g.length)
            return Op(g.get_item, (d % n,))
        if name == "table get":
            return Op(t.get_weight, rec) if b & 1 else \
                Op(t.get_weight, kw=dict(zip(ID_KEYS, rec)))
        if name == "table default":
            return Op(t.get_default_weight)
        if name == "arithmetic":
            fn = [lambda x, y: x + y, lambda x, y: x - y, lambda x, y: x * y,
                  lambda x, y: x / y][d % 4]
            return Op(fn, (t, w.tables[a % len(w.tables)]))
        if name == "number arithmetic":
            fn = [lambda x, y: x + y, lambda x, y: x - y, lambda x, y: x * y,
                  lambda x, y: x / y, lambda x, y: y + x, lambda x, y: y * x][d % 6]
            return Op(fn, (t, [num + 0.25, a + 1000, Odd(num)][b % 3]))
        if name == "invert":
            return Op(lambda x: ~x, (t,))
        if name == "compare tables":
            return Op(lambda x, y: (x == y, x != y), (t, w.tables[a % len(w.tables)]))
        if name == "compare hits":
            return Op(lambda x, y: (x == y, x != y), (h, w.hits[b % len(w.hits)]))
        if name == "dump":
            return Op(lambda: len(Hitcore.dump_memory()))
        if name == "new":
            return Op([lambda: Hitcore() and 1, lambda: Bunchcore() is None,
                       lambda: WeightContext() is None][a % 3])
        if name == "current table":
            return Op(lambda: Hitcore.get_weight_context() == w.tables[0])
        return getattr(self, "do_" + name.replace(" ", "_"))(
            step, w, h, i, g, gi, t, ti, rec, num, axes, means)

    def do_hit_set(self, step, w, h, i, g, gi, t, ti, rec, num, *rest):
        key = DOUBLES[step["n"][1] % len(DOUBLES)]
        value = [num + 0.5, step["n"][2], Odd(num)][step["n"][2] % 3]
        return Op(h.set, ("".join(list(key)), value),
                  after=lambda s: {**s, ("hit", i, key): float(value)})

    def do_hit_set_int(self, step, w, h, i, g, gi, t, ti, rec, num, *rest):
        key = INTS[step["n"][1] % len(INTS)]
        value = INT_NUMBERS[step["n"][2] % len(INT_NUMBERS)]
        value = [value, float(value), Odd(value)][step["n"][3] % 3]
        return Op(h.set, ("".join(list(key)), value),
                  after=lambda s: {**s, ("hit", i, key): int(float(value))})

    def do_put(self, step, w, h, i, g, gi, *rest):
        at = step["n"][3] % (g.length() + 3)

        def after(s):
            s = dict(s)
            for j in range(s["length", gi], at):
                s["item", gi, j] = None
            s["item", gi, at] = i
            s["length", gi] = max(at + 1, s["length", gi])
            return s
        return Op(g.set_item, (h, at), after=after)

    def do_drop_and_put(self, step, w, h, i, g, gi, *rest):
        """takes an item away; it is put back before the next call"""
        n = g.length()
        if n == 0:
            return self.do_put(step, w, h, i, g, gi)
        at = step["n"][3] % n
        items = [g.get_item(j) for j in range(n)]

        def after(s):
            s = dict(s)
            for j in range(at, n - 1):
                s["item", gi, j] = s["item", gi, j + 1]
            del s["item", gi, n - 1]
            s["length", gi] = n - 1
            return s

        def cleanup():
            while g.length():
                g.del_item(0)
            hole = Hitcore()
            for j, x in enumerate(items):
                if x is not None:
                    g.set_item(x, j)
            if items[-1] is None:
                # holes at the end cannot be made otherwise
                g.set_item(hole, n)
                g.del_item(n)
        return Op(g.del_item, (at,), after=after, cleanup=cleanup)

    def do_cut(self, step, w, h, i, g, gi, t, ti, rec, num, axes, means):
        kind = ["plain", "plain", "raise", "none", "grow", "keep"][step["n"][2] % 6]
        calls = []
        me = self

        class Cmp(object):
            def __call__(self, x, y):
                calls.append(1)
                if kind == "raise" and len(calls) > step["n"][3] % 4:
                    raise Trouble("cut")
                if kind == "none" and len(calls) > step["n"][3] % 4:
                    return [None, [x], 1, y][step["n"][0] % 4]
                if kind == "keep":
                    me.kept = (x, y)
                if kind == "grow" and g.length():
                    # the group changes and comes back
                    n = g.length()
                    try:
                        last = g.get_item(n - 1)
                        g.set_item(h, n + 40)
                        del last
                    finally:
                        _testcapi.remove_mem_hooks()
                        while g.length() > n:
                            g.del_item(g.length() - 1)
                return x > y
        cmp = Cmp()

        def cleanup():
            del calls[:]
        return Op(g.cut_double, ("".join(list(axes[0])), cmp, num, bool(step["n"][1] & 1)),
                  partial=True, cleanup=cleanup)

    def do_table_set(self, step, w, h, i, g, gi, t, ti, rec, num, *rest):
        n = w.ids.index(rec)
        value = [num + 0.5, Odd(num + 1.)][step["n"][0] % 2]
        weight = float(value)

        def after(s):
            s = dict(s)
            for tj, other in enumerate(w.tables):
                if other == t:
                    s["weight", tj, n] = weight
            if Hitcore.get_weight_context() == t:
                for j in range(len(w.hits)):
                    if tuple(w.hits[j].get(k) for k in ID_KEYS) == rec:
                        s["global", j] = weight
            return s
        if step["n"][1] & 1:
            return Op(t.set_weight, (value,) + rec, after=after)
        return Op(t.set_weight, kw=dict(zip(["weight"] + ID_KEYS, (value,) + rec)),
                  after=after)

    def do_set_default(self, step, w, h, i, g, gi, t, ti, rec, num, *rest):
        value = [num + 0.5, Odd(num + 1.)][step["n"][0] % 2]
        return Op(self.default_and_back, (t, value))

    @staticmethod
    def default_and_back(t, value):
        old = t.get_default_weight()
        try:
            t.set_default_weight(value)
            return t.get_default_weight()
        finally:
            _testcapi.remove_mem_hooks()
            t.set_default_weight(old)

    def do_switch(self, step, w, h, i, g, gi, t, ti, rec, num, *rest):
        def after(s):
            # what the table says about each record
            s = dict(s)
            for j in range(len(w.hits)):
                s["global", j] = t.get_weight(*[w.hits[j].get(k) for k in ID_KEYS])
            return s
        return Op(Hitcore.set_weight_context, (t,), after=after)

    def do_clear(self, step, w, h, i, g, gi, t, ti, rec, num, *rest):
        return Op(self.clear_copy, (t, rec, Hitcore.get_weight_context()))

    @staticmethod
    def clear_copy(t, rec, current):
        """clears a copy of a table while it is the current one"""
        mine = t + 0.
        try:
            Hitcore.set_weight_context(mine)
            Hitcore.clear_global_weights()
            return mine.get_weight(*rec) == mine.get_default_weight()
        finally:
            _testcapi.remove_mem_hooks()
            Hitcore.set_weight_context(current)

    def do_init_again(self, step, w, h, i, g, *rest):
        x = [h, g, w.tables[0]][step["n"][2] % 3]
        return Op(x.__init__)

    # refused calls
    def do_bad_get(self, step, w, h, *rest):
        arg = [("nonsense",), (3,), (), ("x", "y"), (None,), ("x\0y",), ("\udc80",),
               ("\u00e9",)][step["n"][3] % 8]
        return Op(h.get, arg, bad=True)

    def do_bad_set(self, step, w, h, *rest):
        arg = [("nonsense", 1.), ("x", "1"), ("x", None), ("pid", 2**70), ("pid", float("nan")),
               ("x",), (3, 4), ("pid", float("inf")), ("x", 10**400),
               ("x", Odd(1., self.fail)), ("pid", Odd(1, self.fail))][step["n"][3] % 11]
        return Op(h.set, arg, bad=True)

    @staticmethod
    def fail():
        raise Trouble("number")

    def do_bad_axes(self, step, w, h, i, g, gi, t, ti, rec, num, axes, means):
        bad = [[3], ["x", None], ["nonsense"], ("x", "y"), "x", None, ["x", "\u00e9"],
               [["x"]]][step["n"][3] % 8]
        which = step["n"][2] % 3
        keep = list(bad) if isinstance(bad, list) else []
        if which == 0:
            return Op(g.moment, (bad, means), keep, bad=True)
        if which == 1:
            return Op(g.covariance_matrix, (bad, means), keep, bad=True)
        return Op(g.moment_tensor, (bad, 2), keep, bad=True)

    def do_bad_means(self, step, w, h, i, g, gi, t, ti, rec, num, axes, means):
        bad = [{"x": "1"}, {3: 1.}, {"x": None, "y": 1.}, [], None, {"\u00e9": 1.},
               {"y": 1., "x": []}][step["n"][3] % 7]
        keep = list(bad.values()) if isinstance(bad, dict) else []
        return Op([g.moment, g.covariance_matrix][step["n"][2] % 2], (axes, bad), keep + axes,
                  bad=True)

    def do_bad_index(self, step, w, h, i, g, *rest):
        n = g.length()
        bad = [n, n + 1000, 2**62, 2**63, 2**70, -2**70, "0", None, 1.5, [],
               -2**63][step["n"][3] % 11]
        return Op([g.get_item, g.del_item][step["n"][2] % 2], (bad,), bad=True)

    def do_bad_item(self, step, w, h, i, g, *rest):
        bad = [(None, 0), (3, 0), (h, None), (h, "0"), (h,), (w.tables[0], 0), (g, 0),
               (h, 2**70), (h, 2**63)][step["n"][3] % 9]
        return Op(g.set_item, bad, bad=True)

    def do_bad_cut(self, step, w, h, i, g, gi, t, ti, rec, num, axes, means):
        bad = [("x", None, 1., True), ("nonsense", max, 1., True), (3, max, 1., True),
               ("x", max, "1", True), ("x", max), ("x", lambda a: True, 1., True),
               ("x", lambda a, b: 1, 1., False),
               ("x", lambda a, b: True, 1., Doubt())][step["n"][3] % 8]
        return Op(g.cut_double, bad, partial=not isinstance(bad[-1], Doubt), bad=True)

    def do_bad_table(self, step, w, h, i, g, gi, t, ti, rec, num, *rest):
        bad = [(Hitcore.set_weight_context, (3,)), (Hitcore.set_weight_context, ()),
               (Hitcore.set_weight_context, (h,)), (t.set_default_weight, ("1",)),
               (t.set_default_weight, ()), (t.get_weight, ("1",)),
               (t.get_weight, (1, 2, 3, 4, 5, 6)), (t.set_weight, (None,)),
               (t.get_weight, (2**40,)), (t.set_weight, (1., 1.5)),
               (t.set_default_weight, (Odd(1., self.fail),)),
               (Hitcore.set_weight_context, (Liar(),)),
               (Hitcore.set_weight_context, (Moody(),))][step["n"][3] % 13]
        return Op(bad[0], bad[1], bad=True)

    def do_bad_arithmetic(self, step, w, h, i, g, gi, t, ti, rec, num, *rest):
        fn = [lambda x, y: x + y, lambda x, y: y + x, lambda x, y: x / y,
              lambda x, y: y / x, lambda x, y: x < y][step["n"][2] % 5]
        other = ["1", None, h, [], object(), Odd(1., self.fail), Liar(),
                 Moody()][step["n"][3] % 8]
        return Op(fn, (t, other), bad=True)

    def do_bad_power(self, step, w, h, i, g, gi, t, ti, rec, num, axes, means):
        bad = [(g.index_by_power, (-1, 2)), (g.index_by_power, (2, 0)),
               (g.index_by_power, ("2", 2)), (g.moment_tensor, (axes, -1)),
               (g.moment_tensor, (axes, "2")), (g.moment_tensor, ([], 2)),
               (g.index_by_power, (2**40, 1))][step["n"][3] % 7]
        return Op(bad[0], bad[1], bad=True)

    def do_no_core(self, step, w, h, i, g, gi, *rest):
        """objects that were never set up"""
        a, b = Hitcore.__new__(Hitcore), Bunchcore.__new__(Bunchcore)
        bad = [(a.get, ("x",)), (a.set, ("x", 1.)), (b.length, ()), (b.get_item, (0,)),
               (b.set_item, (h, 0)), (b.moment, (["x"], {}))][step["n"][3] % 6]
        return Op(bad[0], bad[1], bad=True)

    def do_huge_index(self, step, w, h, i, g, *rest):
        return Op(g.set_item, (h, [2**26, 2**31, 2**40, 2**60, 2**62,
                                   2**63 - 1][step["n"][3] % 6]))

    def do_huge_powers(self, step, w, h, i, g, *rest):
        return Op(g.index_by_power, [(24, 6), (2000, 3), (2**31 - 1, 1),
                                     (10**6, 2)][step["n"][3] % 4])

    def do_huge_tensor(self, step, w, h, i, g, gi, t, ti, rec, num, axes, means):
        axes = (axes * 8)[:8]
        return Op(g.moment_tensor, (axes, 20), axes)


class S07(Check):
    def scenario(self, sim):
        ch = sim.ch
        self.sim = sim
        sim.isolate_weights = True
        plan = self.plan(ch)
        sim.summary = [s["op"] for s in plan["steps"]]
        for s in plan["steps"]:
            sim.point("do %s %s" % (s["op"], s["n"]))
            sim.log("%s %s, fails %d at a time, from %d%s" % (
                s["op"], s["n"], s["width"], s["skip"], ", repeated" if s["leak"] else ""))
        with harness(sim):
            said, status = self.fork(plan)
        at = None
        for what in said:
            kind, _, text = what.partition("|")
            if kind == "at":
                at = text
            elif kind == "violation":
                kind, _, text = text.partition("|")
                raise Violation(kind, text)
            elif kind == "error":
                # of the objects that the harness looks at
                raise Violation("unusable", "after %s: %s" % (at, text))
            elif kind == "count":
                text, _, n = text.partition("|")
                for _ in range(int(n)):
                    (sim.count if text in FAULTS else sim.probe)(text)
        if status != 0:
            raise Violation("crash", "%s: the program ends with %s" % (
                at, signal.Signals(os.WTERMSIG(status)).name if os.WIFSIGNALED(status)
                else "status %d" % os.WEXITSTATUS(status)))
        if not said or said[-1] != "done|":
            raise Violation("crash", "%s: the program ends early" % at)
        sim.nontrivial = True

    def plan(self, ch):
        ids = some_ids(ch, 1, 4)
        hits = [(ch.n(8), [ch.pick(NUMBERS) for _ in DOUBLES])
                for _ in range(ch.wpick([(1, 2), (2, 3), (4, 3), (7, 1)]))]
        groups = []
        for _ in range(ch.between(1, 2)):
            groups.append([(at, ch.n(8)) for at in range(ch.pick([0, 1, 2, 3, 5, 9]))
                           if ch.chance(0.85)])
        steps = []
        for _ in range(ch.between(1, 6)):
            kinds = ch.wpick([(PURE, 5), (MUTATORS, 4), (BAD, 3), (HUGE, 0.4)])
            steps.append({"op": ch.pick(kinds), "n": [ch.n(64) for _ in range(4)],
                          "width": ch.pick(WIDTHS), "skip": ch.pick([0, 0, 0, 1, 2]),
                          "at": ch.n(24), "leak": ch.wpick([(0, 2), (1, 1), (2, 1)])})
        now = [None]
        return {"ids": ids, "hits": hits, "groups": groups, "steps": steps,
                "tables": ch.between(1, 3), "names": lambda op: now[0], "now": now}

    def fork(self, plan):
        """what the child said, and its status"""
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                sys.settrace(None)
                os.close(r)
                null = os.open("/dev/null", os.O_WRONLY)
                os.dup2(null, 1)
                os.dup2(null, 2)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                signal.alarm(300)
                child = Child(plan, w)
                step = child.step

                def note(s):
                    plan["now"][0] = s["op"]
                    step(s)
                child.step = note
                child.run()
            except BaseException as exc:
                import traceback
                try:
                    child.say("error", "%r %s" % (exc, traceback.format_exc()[-700:]))
                except BaseException:
                    pass
            finally:
                os._exit(0)
        os.close(w)
        data = b""
        while True:
            got = os.read(r, 1 << 16)
            if not got:
                break
            data += got
        os.close(r)
        status = os.waitpid(pid, 0)[1]
        said = []
        while len(data) >= 4:
            n = struct.unpack("I", data[:4])[0]
            said.append(data[4:4 + n].decode(errors="replace"))
            data = data[4 + n:]
        return said, status


FAULTS = ["failing allocations", "address space used up"]
CHECK = S07()
