"""P01: parallel map returns one result per argument, in order."""
import time

from sim.faults import Faults
from sim.kernel import Violation, current_sim, harness
from sim.runner import Check
import xboa.common as common


class WorkFailed(Exception):
    pass


ERRORS = [ValueError, WorkFailed, KeyError, ZeroDivisionError, RuntimeError, TypeError]
VALUES = [None, 0, "text", (1, 2), [1, [2, 3]], {"a": 1}, 1j, 2.5, {3, 4}, b"bytes"]


def outcome(call, i, style, *rest):
    """what work() makes of its arguments"""
    k = (style * 7 + i * 3) % 13
    if style >= 100:
        if rest and style % 3 == 0:
            return ("raise", [SystemExit, KeyboardInterrupt, GeneratorExit][len(rest) - 1],
                    (i,))
        return ("raise", ERRORS[style % len(ERRORS)], ("bad", i))
    if style == 50:
        return ("value", ValueError("returned, not raised", i))
    if k < len(VALUES):
        return ("value", [VALUES[k], i, list(rest)])
    return ("value", i)


def work(call, i, style, *rest):
    sim = current_sim()
    c = sim.calls[call]
    if sim.current.proc is c.owner:
        c.inline += 1
    c.done[i] = c.done.get(i, 0) + 1
    c.running += 1
    c.most = max(c.most, c.running)
    c.started.append(i)
    try:
        delay = c.delays[i]
        sim.point("work")
        while delay > 0.:
            time.sleep(min(delay, 1.))
            delay -= 1.
        o = outcome(call, i, style, *rest)
        if o[0] == "raise":
            raise o[1](*o[2])
        c.finished.append(i)
        return o[1]
    finally:
        c.running -= 1


def other_work(call, i, style, *rest):
    return work(call, i, style, *rest)


class Call(object):
    def __init__(self, owner):
        self.owner = owner
        self.delays = {}
        self.done = {}
        self.running = self.most = self.inline = 0
        self.started = []
        self.finished = []


def same(a, b):
    if isinstance(a, BaseException) or isinstance(b, BaseException):
        return type(a) is type(b) and a.args == b.args
    return type(a) is type(b) and a == b


class P01(Check):
    def scenario(self, sim):
        ch = sim.ch
        sim.calls = []
        sim.summary = []
        sim.quanta = ch.pick([[1, 2, 4, 8, 16], [1, 1, 2, 3], [8, 32, 64], [1, 40]])
        sim.tick = ch.pick([0.001, 0.0001, 0.05])
        self.families = {}
        sim.spawn_hooks.append(self.spawned)
        kinds = ch.subset(("spawn",), 0.3)
        Faults(sim, kinds, 2)
        nclients = ch.wpick([(1, 4), (2, 2), (3, 1)])
        tasks = []
        for k in range(nclients):
            proc = sim.new_proc("program%d" % k, None, sim.current.proc, start_task=False)
            tasks.append(sim.new_task(proc, lambda: self.program(sim), proc.name))
        sim.wait(lambda: all(t.done for t in tasks), None, "programs")
        for t in tasks:
            if t.exc is not None:
                raise t.exc
        sim.nontrivial = any(len(c.started) > 1 for c in sim.calls)

    def spawned(self, proc, args):
        proc.tags["family"] = proc.parent.tags.get("family", proc.parent)
        self.families.setdefault(proc.tags["family"].pid, []).append(proc)

    def program(self, sim):
        ch = sim.ch
        me = sim.current.proc
        for k in range(ch.between(1, 3)):
            self.call(sim, me)

    def left(self, me):
        return [p for p in self.families.get(me.pid, []) if not p.dead]

    def call(self, sim, me):
        ch = sim.ch
        n = ch.wpick([(0, 1), (1, 2), (2, 2), (3, 3), (5, 3), (8, 2), (13, 1), (33, 0.4), (120, 0.15)])
        width = ch.wpick([(1, 3), (2, 4), (3, 3), (5, 2), (9, 1), (0, 0.3)])
        c = Call(me)
        number = len(sim.calls)
        sim.calls.append(c)
        failing = ch.pick([0., 0., 0.2, 0.7])
        slow = ch.pick([0., 0.3, 1., 1.])
        args = []
        for i in range(n):
            style = ch.n(40)
            if ch.chance(failing):
                style = 100 + ch.n(len(ERRORS))
            elif ch.n(30) == 1:
                style = 50
            c.delays[i] = ch.pick([0.01, 0.1, 0.5, 2., 7.]) if ch.chance(slow) else 0.
            args.append((number, i, style) + tuple(range(ch.n(3))))
        bad = None
        if ch.n(20) == 1:
            bad = ch.pick(["function", "argument", "tuple"])
            if n == 0:
                bad = None
        function = ch.pick([work, other_work])
        given = list(args)
        if bad == "function":
            function = lambda *a: None                        # cannot be sent
        elif bad == "argument":
            given[ch.n(n)] = (number, 0, 0, lambda: None)       # cannot be sent
        elif bad == "tuple":
            given[ch.n(n)] = 5
        before = len(sim.faults.fired)
        text = "%d calls on %d processes%s: " % (n, width, ", bad " + bad if bad else "")
        sim.log("process_list: " + text)
        try:
            got = common.process_list(function, list(given), width)
            exc = None
            left = self.left(me)
        except Exception as e:
            exc, got = e, None
            left = self.left(me)
            e.__traceback__ = None
        with harness(sim):
            sim.summary.append(text + ("%r" % exc if exc else "returned"))
            if left:
                raise Violation("helpers", "process_list %s but its processes %s are "
                                "still running" % ("raised an error" if exc else
                                                   "returned", left))
            if c.most > max(width, 0):
                raise Violation("too many", "%d calls at the same time instead of at "
                                "most %d" % (c.most, width))
            if exc is not None:
                hit = [f for f in sim.faults.fired[before:]
                       if f[3] is me or f[3].tags.get("family") is me]
                if not (bad or width < 1 or hit):
                    raise Violation("error", "process_list raised %r" % exc)
                return
            if width < 1:
                raise Violation("error", "no process was allowed, but no error raised")
            if len(got) != n:
                raise Violation("result", "%d entries for %d arguments" % (len(got), n))
            for i in range(n):
                if given[i] is not args[i] or bad == "function":
                    if not isinstance(got[i], BaseException):
                        raise Violation("result", "entry %d is %r for an argument that "
                                        "cannot be used" % (i, got[i]))
                    continue
                o = outcome(*args[i])
                want = o[1] if o[0] == "value" else o[1](*o[2])
                if not same(want, got[i]):
                    raise Violation("result", "entry %d is %r instead of %r" % (
                        i, got[i], want))
                if c.done.get(i, 0) != 1:
                    raise Violation("once", "argument %d was executed %d times" % (
                        i, c.done.get(i, 0)))
            sim.probe("out_of_order" if c.finished != sorted(c.finished) else "in_order")


CHECK = P01()
