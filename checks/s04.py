"""S04: arithmetic on weight tables is pointwise and leaves its operands alone."""
import fractions
import gc
import math
import operator

from sim.faults import Faults
from sim.kernel import Violation, harness
from sim.runner import Check
from xboa.core import Hitcore, WeightContext
from . import s01
from .state import some_ids, UNSET, Table, same

NUMBERS = [2., 0.5, -1.5, 3, 0, 0., -1, True, 1e-3, 7, 1e300, float("inf"), float("nan"),
           fractions.Fraction(3, 4), 2**70]


def divide(a, b):
    """as for floating-point numbers of the machine"""
    if b == 0:
        if a == 0 or a != a:
            return float("nan")
        return math.copysign(float("inf"), a) * math.copysign(1., b)
    return a / b


OPERATORS = [("+", operator.add, operator.add, operator.iadd),
             ("-", operator.sub, operator.sub, operator.isub),
             ("*", operator.mul, operator.mul, operator.imul),
             ("/", operator.truediv, divide, operator.itruediv)]


class Odd(object):
    """a number that does something as it is asked for its value"""
    def __init__(self, value, act):
        self.value = value
        self.act = act

    def __float__(self):
        self.act()
        return self.value


class View(object):
    """what a table held at one moment"""
    def __init__(self, operand, ids, how):
        table, handle = operand.table, operand.handle
        self.default = table.default
        self.weight = {}
        self.maybe_set = {}
        self.maybe_unset = {}
        seen = handle.get_default_weight()
        if not same(seen, table.default):
            raise Violation("wrong default", "%s: the default of %s is %r instead of %r" % (
                how, table.name, seen, table.default))
        for i in ids:
            self.weight[i] = handle.get_weight(*i)
            table.see(i, self.weight[i], how)
            alts = table.alts.get(i, [UNSET])
            self.maybe_unset[i] = UNSET in alts
            self.maybe_set[i] = alts != [UNSET]


class Operand(object):
    """a table in an expression, which stays although others drop it"""
    def __init__(self, table, handle=None):
        self.table = table
        self.handle = handle or table.handle[-1]
        self.name = table.name


class Constant(object):
    """a number as a table"""
    def __init__(self, value, ids):
        self.default = float(value)
        self.weight = dict.fromkeys(ids, self.default)
        self.maybe_set = dict.fromkeys(ids, False)
        self.maybe_unset = dict.fromkeys(ids, True)


def near(a, b, scale):
    if same(a, b):
        return True
    return abs(a - b) <= 1e-12 * scale if math.isfinite(scale) else False


class Client(s01.Client):
    # ------------------------------------------------------------- arithmetic
    def held(self):
        return [t for t in self.w.tables if t.handle]

    def operand(self, depth):
        """a table: of the program, or an intermediate result"""
        ch = self.ch
        held = self.held()
        if not held:
            self.handle()
            held = [self.w.now]
        if depth > 0 and ch.chance(0.3):
            return Operand(self.expression(depth - 1))
        table = ch.pick(held)
        return Operand(table, ch.pick(table.handle))

    def use_of(self, a):
        """gives a handle, also one that nobody else has"""
        if a.table is self.w.now and self.ch.chance(0.5):
            return Hitcore.get_weight_context
        return lambda: a.handle

    def number(self):
        ch = self.ch
        if ch.chance(0.7):
            return ch.pick(NUMBERS)
        return ch.between(-40, 40) / 8.

    def expression(self, depth):
        ch = self.ch
        if ch.chance(0.25):
            return self.negate(self.operand(depth))
        name, op, model, _ = ch.pick(OPERATORS)
        a = self.operand(depth)
        kind = ch.wpick([("table", 5), ("number", 3), ("odd", 1), ("left", 2), ("self", 0.7)])
        if kind == "left" and name in "-/":
            kind = "number"
        if kind == "table":
            return self.two(name, op, model, a, self.operand(depth))
        if kind == "self":
            return self.two(name, op, model, a, a)
        value = self.number()
        operand = value
        if kind == "odd":
            value = float(value)
            operand = Odd(value, self.during)
        return self.one(name, op, model, a, value, operand, kind == "left" or
                        kind == "odd" and name in "+*" and ch.chance(0.5))

    def during(self):
        """the conversion of a number lets others run, or does more operations"""
        self.sim.count("operations in a conversion")
        if self.ch.chance(0.5):
            self.sim.point("conversion")
        else:
            for _ in range(self.ch.between(1, 2)):
                name = self.ch.pick(["set_by_table", "clear", "default", "set_by_record",
                                     "switch"])
                getattr(self, name)()

    def two(self, name, op, model, a, b):
        how = "%s %s %s" % (a.name, name, b.name)
        with harness(self.sim):
            va, vb = View(a, self.ids, how), View(b, self.ids, how)
        handle = op(self.use_of(a)(), self.use_of(b)())
        return self.result(handle, name, model, [(va, vb)], how)

    def one(self, name, op, model, a, value, operand, left):
        how = "%s %s %r" % (a.name, name, value)
        constant = Constant(value, self.ids)
        with harness(self.sim):
            before = View(a, self.ids, how)
        if left:
            handle = op(operand, self.use_of(a)())
        else:
            handle = op(self.use_of(a)(), operand)
        with harness(self.sim):
            after = View(a, self.ids, how)
        return self.result(handle, name, model, [(before, constant), (after, constant)], how)

    def negate(self, a):
        how = "~%s" % a.name
        with harness(self.sim):
            view = View(a, self.ids, how)
        handle = ~self.use_of(a)()
        new = self.fresh(handle, how)
        with harness(self.sim):
            new.default = self.judge(handle.get_default_weight(), [0.], [0.], how,
                                     "the default")
            for i in self.ids:
                expected = view.default if view.weight[i] == 0. else 0.
                seen = self.judge(handle.get_weight(*i), [expected], [0.], how,
                                  "the weight of %r" % (i,))
                self.known(new, i, seen, [view])
        return new

    def judge(self, seen, expected, scales, how, what):
        if not any(near(seen, e, s) for e, s in zip(expected, scales)):
            raise Violation("wrong result", "%s: %s is %r instead of %s" % (
                how, what, seen, " or ".join(sorted(set(map(repr, expected))))))
        return seen

    def known(self, new, i, seen, views):
        """the result knows a particle that an operand knows"""
        alts = []
        if all(v.maybe_unset[i] for v in views) and same(seen, new.default):
            alts.append(UNSET)
        if any(v.maybe_set[i] for v in views) or not alts:
            alts.append(seen)
        new.alts[i] = alts

    def fresh(self, handle, how):
        if not isinstance(handle, WeightContext):
            raise Violation("wrong result", "%s gives %r" % (how, handle))
        with harness(self.sim):
            if any(h == handle for t in self.w.tables for h in t.handle):
                raise Violation("wrong result", "%s gives a table that was there before"
                                % how)
        return Table([handle], self.w.own("result", self.name))

    def result(self, handle, name, model, pairs, how):
        new = self.fresh(handle, how)

        def scale(x, y, value):
            if name in "+-":
                return abs(x) + abs(y)
            return abs(value)
        with harness(self.sim):
            values = [model(a.default, b.default) for a, b in pairs]
            scales = [scale(a.default, b.default, v) for (a, b), v in zip(pairs, values)]
            new.default = self.judge(handle.get_default_weight(), values, scales, how,
                                     "the default")
            for i in self.ids:
                values = [model(a.weight[i], b.weight[i]) for a, b in pairs]
                scales = [scale(a.weight[i], b.weight[i], v)
                          for (a, b), v in zip(pairs, values)]
                seen = self.judge(handle.get_weight(*i), values, scales, how,
                                  "the weight of %r" % (i,))
                if len(pairs) == 1:
                    self.known(new, i, seen, pairs[0])
                else:
                    new.alts[i] = [UNSET, seen] if same(seen, new.default) else [seen]
                    if not any(v.maybe_set[i] for pair in pairs for v in pair):
                        new.alts[i] = [UNSET]
        return new

    def compute(self):
        ch = self.ch
        new = self.expression(ch.wpick([(0, 3), (1, 2), (2, 1)]))
        if len(self.held()) < 7 and new not in self.w.tables:
            if ch.chance(0.85):
                self.w.tables.append(new)
                if ch.chance(0.2) and new.handle:
                    self.use(new)

    def assign(self):
        """a += b binds a to another table; the old one stays for who has it"""
        ch = self.ch
        held = self.held()
        if not held or len(held) > 6:
            return
        name, _, model, op = ch.pick(OPERATORS)
        a, b = Operand(ch.pick(held)), Operand(ch.pick(held))
        how = "%s %s= %s" % (a.name, name, b.name)
        with harness(self.sim):
            va, vb = View(a, self.ids, how), View(b, self.ids, how)
        handle = op(self.use_of(a)(), self.use_of(b)())
        self.w.tables.append(self.result(handle, name, model, [(va, vb)], how))

    def wrong(self):
        """operations that cannot work"""
        ch = self.ch
        held = self.held()
        if not held:
            return
        a = ch.pick(ch.pick(held).handle)
        name, op, _, iop = ch.pick(OPERATORS)

        def burst():
            if ch.chance(0.3):
                self.sim.point("conversion")
            raise ch.pick([ValueError("no value"), OSError("no value")])
        other = ch.pick(["text", "3", "", b"3", None, [1.], (), {}, 1j, object, 10**400,
                         Odd(1., burst), Odd("3", lambda: None), self.record().hit,
                         "number"])
        try:
            if isinstance(other, str) and other == "number":
                how = "a number %s a table" % name
                other = self.number()
                if name in "+*":
                    return
                op(other, a)
            elif ch.chance(0.5):
                how = "a table %s %r" % (name, type(other))
                ch.pick([op, iop])(a, other)
            else:
                how = "%r %s a table" % (type(other), name)
                op(other, a)
        except SystemError:
            raise
        except Exception:
            self.sim.count("failing operations")
            return
        raise Violation("no error", "%s raised no error" % how)

    def forget(self):
        """all handles of a table"""
        held = [t for t in self.held() if t is not self.w.now]
        if held:
            t = self.ch.pick(held)
            t.handle.clear()
            self.w.tables.remove(t)
        if self.ch.chance(0.3):
            gc.collect()

    OWN = [("make", 2), ("set_by_record", 3), ("set_by_table", 6), ("set_local", 0.5),
           ("renumber", 1), ("copies", 1), ("destroy", 1), ("group", 0.7),
           ("group_read", 0.7), ("group_cut", 1), ("compute", 9), ("assign", 1),
           ("wrong", 2), ("forget", 2)]
    SHARED = [("new_table", 3), ("switch", 1.5), ("handle", 0.5), ("drop", 1),
              ("default", 2), ("clear", 1)]

    def value(self):
        return 0. if self.ch.chance(0.2) else s01.Client.value(self)


class S04(s01.S01):
    client = Client

    def scenario(self, sim):
        ch = sim.ch
        sim.summary = []
        sim.isolate_weights = True
        sim.quanta = ch.pick([[1, 2, 4, 8, 16], [1, 1, 2, 3]])
        self.values = self.files = 0
        self.saved = {}
        self.done = set()
        self.faults = Faults(sim, (), 0)
        self.by_operation(sim, some_ids(ch, 1, 7))
        sim.nontrivial = len(self.done & set(["compute", "assign"])) > 0


CHECK = S04()
