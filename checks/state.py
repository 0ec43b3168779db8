"""
Parts shared by the checks of the particle state: a small reference model of weight
tables, particle records and groups.
"""
import gc
import operator
import pickle

from sim.kernel import Violation, harness
from xboa.bunch import Bunch
from xboa.core import Hitcore, WeightContext
from xboa.hit import Hit

UNSET = "unset"
ID_KEYS = ["spill", "event_number", "particle_number"]
ALIAS = {"event_number": ["event_number", "eventNumber"], "spill": ["spill"],
         "particle_number": ["particle_number", "particleNumber"]}
IDS = [(1, 2, 3), (1, 3, 2), (2, 1, 3), (2, 3, 1), (3, 1, 2), (3, 2, 1), (0, 0, 0),
       (1, 1, 2), (2, 1, 1), (1, 2, 1), (-1, 7, 2147483647), (12, 0, 0), (0, 12, 0),
       (0, 0, 12), (1, 23, 4), (12, 3, 4)]


def some_ids(ch, low, high):
    """record numbers, sometimes with neighbours that a combined number would mix up"""
    ids = ch.shuffled(IDS)[:ch.between(low, high)]
    if ch.chance(0.4):
        base = ch.pick([10, 100, 1000, 1024, 10000, 65536, 100000, 1000000])
        i, step = list(ch.pick(ids)), ch.pick([1, -1])
        big, small = ch.pick([(0, 1), (1, 2), (0, 2)])
        i[big] = i[big] % 1000 + 1
        i[small] = i[small] % 1000 + base
        other = list(i)
        other[big] += step
        other[small] -= step * base
        for new in [tuple(i), tuple(other)]:
            if new not in ids:
                ids.append(new)
    return ids


def same(a, b):
    return a == b or (a != a and b != b)


class Table(object):
    """what a weight table may hold"""
    def __init__(self, handle, name):
        self.handle = handle
        self.name = name
        self.default = 1.
        self.alts = {}             # identity: possible values

    def values(self, ident):
        return [self.default if v == UNSET else v
                for v in self.alts.get(ident, [UNSET])]

    def set(self, ident, value):
        self.alts[ident] = [value]

    def maybe(self, ident, value):
        alts = self.alts.setdefault(ident, [UNSET])
        if not any(v != UNSET and same(v, value) for v in alts):
            alts.append(value)

    def clear(self):
        self.alts = {}

    def see(self, ident, value, how):
        alts = self.alts.get(ident, [UNSET])
        left = [v for v in alts if same(self.default if v == UNSET else v, value)]
        if not left:
            raise Violation("wrong global weight", "%s: particle %r of %s has global "
                            "weight %r instead of %s" % (how, ident, self.name, value,
                            " or ".join(sorted(set(map(repr, self.values(ident)))))))
        if len(left) < len(alts):
            self.alts[ident] = left

    def copy_of(self, handle, name):
        other = Table(handle, name)
        other.default = self.default
        other.alts = dict((k, list(v)) for k, v in self.alts.items())
        return other


class Record(object):
    """what a particle record holds"""
    def __init__(self, hit, ident, local, x, name):
        self.hit = hit
        self.ident = ident
        self.local = local
        self.x = x
        self.name = name

    def check(self, how):
        hit = self.hit
        seen = tuple(hit[k] for k in ID_KEYS)
        if seen != self.ident:
            raise Violation("wrong identity", "%s: record %s is of particle %r instead of "
                            "%r" % (how, self.name, seen, self.ident))
        if not same(hit["local_weight"], self.local):
            raise Violation("wrong local weight", "%s: record %s has local weight %r "
                            "instead of %r" % (how, self.name, hit["local_weight"],
                                               self.local))
        if not same(hit["x"], self.x):
            raise Violation("wrong coordinate", "%s: record %s has x %r instead of %r" % (
                            how, self.name, hit["x"], self.x))


def close(a, b, scale, tolerance=1e-9):
    return same(a, b) or abs(a - b) <= tolerance * max(scale, 1e-300)
