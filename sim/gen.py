"""Generators of hits and bunches, and their comparison by public means."""
import math

from xboa.hit import Hit
from xboa.bunch import Bunch
import xboa.common as common

PIDS = [-13, 13, 11, -11, 211, -211, 2212, 321, -321, 22]
MASSIVE = [-13, 13, 11, -11, 211, -211, 2212, 321, -321]


def mass(pid):
    return common.pdg_pid_to_mass[abs(pid)]


def make_hit(ch, event=0, pids=(-13,), station=None, spill=None, particle=None,
             rich=True):
    pid = pids[ch.n(len(pids))] if len(pids) > 1 else pids[0]
    d = {
        "x": number(ch), "y": number(ch), "z": number(ch), "t": number(ch),
        "px": number(ch), "py": number(ch), "pz": 200. + number(ch),
        "pid": pid, "mass": mass(pid),
        "eventNumber": event,
        "station": ch.n(4) if station is None else station,
    }
    if spill is not None:
        d["spill"] = spill
    if particle is not None:
        d["particleNumber"] = particle
    if rich:
        for key in ("bx", "by", "bz", "ex", "ey", "ez"):
            if ch.chance(0.4):
                d[key] = number(ch)
    return Hit.new_from_dict(d, "energy")


def number(ch):
    k = ch.n(8)
    if k == 0:
        return 0.0
    if k == 1:
        return ch.between(-1000, 1000) / 8.
    if k == 2:
        return ch.between(-100000, 100000) * 1e-6
    if k == 3:
        return -ch.n(1 << 30) / 7. / (1 << 20)
    return ch.n(1 << 30) / 3. / (1 << 22)


def hits(ch, n, **kw):
    return [make_hit(ch, event=i, **kw) for i in range(n)]


STORED = ["x", "y", "z", "t", "px", "py", "pz", "energy", "local_weight",
          "mass", "bx", "by", "bz", "ex", "ey", "ez", "sx", "sy", "sz",
          "path_length", "proper_time", "charge", "e_dep",
          "pid", "spill", "station", "status", "event_number", "particle_number"]


def stored():
    global _stored
    try:
        return _stored
    except NameError:
        hit = Hit()
        keys = []
        for key in STORED:
            try:
                hit[key]
                keys.append(key)
            except Exception:
                pass
        _stored = keys
    return _stored


def plain(hit):
    """the stored quantities of a hit"""
    return tuple(hit[k] for k in stored())


def as_text(hit):
    return " ".join("%s=%r" % (k, hit[k]) for k in
                    ("eventNumber", "station", "pid", "x", "t", "pz"))


def plain_lists(lists):
    """list of lists of hits"""
    return [[plain(h) for h in x] for x in lists]


def differ(a, b, limit=3):
    """text on where two lists of plain hits differ, or None"""
    if len(a) != len(b):
        return "%d entries instead of %d" % (len(b), len(a))
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y and not (isinstance(x, float) and x != x and y != y):
            if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(stored()):
                out = ["%s %r instead of %r" % (k, v, u)
                       for k, u, v in zip(stored(), x, y)
                       if u != v and not (u != u and v != v)]
                if not out:
                    continue
                return "entry %d: %s" % (i, ", ".join(out[:limit]))
            if isinstance(x, list) and isinstance(y, list):
                d = differ(x, y)
                if d is None:
                    continue
                return "entry %d: %s" % (i, d)
            return "entry %d: %r instead of %r" % (i, y, x)
    return None
