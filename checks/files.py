"""
Parts shared by the checks of the file formats: an independent description of the
formats, from which files are rendered and decoded without the library.
"""
import math

from sim import gen
from sim.kernel import Violation, harness
from sim.runner import Check  # noqa: F401
import xboa.common as common
from xboa.bunch import Bunch
from xboa.hit import BadEventError, Hit
from xboa.hit.factory import BuiltinHitFactory, UserHitFactory

C_LIGHT = 299.792458
M, CM, SEC, GEV, TESLA = 1e3, 10., 1e9, 1e3, 1e-3

ICOOL_PID = {0: 0, -11: 1, -13: 2, 211: 3, 321: 4, 2212: 5,
             11: -1, 13: -2, -211: -3, -321: -4, -2212: -5}
MARS_PID = {2212: 1, 2112: 2, 211: 3, -211: 4, 321: 5, -321: 6, -13: 7, 13: 8, 22: 9,
            11: 10, -11: 11, -2212: 12, 111: 13, 1000010020: 14, 14: 18, -14: 19,
            1000010030: 15, 1000020030: 16, 1000020040: 17, 12: 20, -12: 21, 130: 22,
            310: 23, 311: 24, 3122: 26, -3122: 27, -2112: 31, 0: 40}
ANY_PID = [-13, 13, 11, -11, 211, -211, 2212, -2212, 321, -321, 22, 2112, 111, 14, -12,
           3122]
# codes of no listed particle: they have no mass and no charge
NO_PID = [1000080170, -9000001, 78]
for _p in NO_PID:
    assert abs(_p) not in common.pdg_pid_to_mass and _p not in common.pdg_pid_to_charge


class Format(object):
    """columns: (quantity, its unit in internal units, kind)"""
    def __init__(self, name, header, columns, pids):
        self.name = name
        self.header = header           # lines
        self.columns = columns
        self.pids = pids               # pdg -> code or None
        self.keys = [c[0] for c in columns if c[0]]


def col(text):
    out = []
    for word in text.split():
        key, _, unit = word.partition(":")
        kind = float
        if unit == "i":
            kind, unit = int, ""
        unit = {"m": M, "cm": CM, "s": SEC, "GeV": GEV, "T": TESLA, "": 1.}[unit]
        out.append(("" if key == "_" else key, unit, kind))
    return out


G4BL = "x y z px py pz t pid:i event_number:i particle_number:i _ local_weight"
FORMATS = {}
for _f in (
    Format("icool_for009", 3, col(
        "event_number:i particle_number:i pid:i status:i station:i t:s x:m y:m z:m "
        "px:GeV py:GeV pz:GeV bx:T by:T bz:T local_weight ex ey ez _ sx sy sz"), ICOOL_PID),
    Format("icool_for003", 2, col(
        "event_number:i particle_number:i pid:i status:i t:s local_weight x:m y:m z:m "
        "px:GeV py:GeV pz:GeV sx sy sz"), ICOOL_PID),
    Format("g4beamline_bl_track_file", 0, col(G4BL), None),
    Format("g4beamline_bl_track_file_2", 0, col(G4BL + " _ _ _"), None),
    Format("mars_1", 0, col(
        "event_number:i pid:i x y z px:GeV py:GeV pz:GeV energy:GeV ct:cm local_weight"),
        MARS_PID),
):
    FORMATS[_f.name] = _f
TEXT = sorted(FORMATS)


def codes(fmt):
    """the particles of the format"""
    pids = FORMATS[fmt].pids
    return sorted(pids) if pids else ANY_PID + NO_PID


def particle(ch, pids, station=None, event=None):
    """plain description of a particle on its mass shell"""
    p = {}
    for key in ("x", "y", "z", "t", "px", "py"):
        p[key] = number(ch)
    p["pz"] = 200. + gen.number(ch)
    p["pid"] = pids[ch.n(len(pids))]
    p["mass"] = float(common.pdg_pid_to_mass.get(abs(p["pid"]), 0.))
    p["charge"] = float(common.pdg_pid_to_charge.get(p["pid"], 0.))
    p["event_number"] = ch.wpick([(ch.n(6), 6), (ch.n(1 << 30), 1), (1000000, 0.5)]) \
        if event is None else event
    p["particle_number"] = ch.n(4)
    p["spill"] = ch.n(3)
    p["station"] = ch.wpick([(ch.n(4), 5), (ch.n(3000), 1), (-1, 0.3)]) \
        if station is None else station
    p["status"] = ch.between(-3, 3)
    rich = ch.chance(0.6)
    for key in ("bx", "by", "bz", "ex", "ey", "ez", "sx", "sy", "sz",
                "path_length", "proper_time", "e_dep"):
        p[key] = number(ch) if rich and ch.chance(0.7) else 0.
    p["local_weight"] = ch.wpick([(1., 5), (0., 1), (gen.number(ch), 2)])
    finish(p)
    return p


def finish(p):
    p["energy"] = math.sqrt(p["px"] ** 2 + p["py"] ** 2 + p["pz"] ** 2 + p["mass"] ** 2)
    p["ct"] = p["t"] * C_LIGHT


def number(ch):
    k = ch.n(10)
    if k < 8:
        return gen.number(ch)
    return (1 - 2 * ch.n(2)) * (1 + ch.n(1 << 20) / 7.) * 10. ** (ch.n(25) - 12)


SETTABLE = ["x", "y", "z", "t", "px", "py", "pz", "pid", "mass", "charge", "event_number",
            "particle_number", "spill", "station", "status", "bx", "by", "bz", "ex", "ey",
            "ez", "sx", "sy", "sz", "path_length", "proper_time", "e_dep",
            "local_weight", "energy"]


def to_hit(p):
    return Hit.new_from_dict(dict((k, p[k]) for k in SETTABLE))


def particles(ch, n, pids):
    return [particle(ch, pids) for _ in range(n)]


def amount(ch):
    return ch.wpick([(0, 1), (1, 2), (2, 2), (3, 3), (5, 3), (8, 2), (20, 1), (60, 0.3), (250, 0.06)])


# ---------------------------------------------------------------- comparison
def close(a, b, rtol=1e-9):
    return a == b or abs(a - b) <= rtol * max(abs(a), abs(b)) + 1e-280


def differences(want, hit, keys, rtol=1e-9):
    out = []
    for key in keys:
        got = hit[key]
        if isinstance(want[key], int):
            if got != want[key]:
                out.append("%s %r instead of %r" % (key, got, want[key]))
        elif not close(want[key], got, rtol):
            out.append("%s %r instead of %r" % (key, got, want[key]))
    return out


def check_same(sim, want, hits, keys, what, rtol=1e-9):
    """want: plain particles, hits: what the library gave"""
    with harness(sim):
        for i, (w, h) in enumerate(zip(want, hits)):
            d = differences(w, h, keys, rtol)
            if d:
                raise Violation("particles", "%s: particle %d of %d: %s" % (
                    what, i, len(want), ", ".join(d[:4])))
        if len(want) != len(hits):
            raise Violation("particles", "%s: %d particles instead of %d" % (
                what, len(hits), len(want)))


def read_keys(fmt):
    """what reading a file of the format gives"""
    keys = list(FORMATS[fmt].keys)
    if "t" not in keys:
        keys.append("t")
    return keys + [k for k in ("mass", "charge", "energy") if k not in keys]


# ------------------------------------------------------- decode and render
def decode(fmt, text, scale=1.):
    """the plain particles in a complete file; None and a reason if it is spoilt"""
    f = FORMATS[fmt]
    lines = text.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    elif lines:
        return None, "the last line is cut"
    if len(lines) < f.header:
        return None, "there is no complete header"
    lines = lines[f.header:]
    if fmt.startswith("g4beamline"):
        lines = [x for x in lines if not x.startswith("#")]
    out = []
    back = None
    if f.pids:
        back = dict((v, k) for k, v in f.pids.items())
    for line in lines:
        words = line.split()
        if len(words) != len(f.columns):
            return None, "a line has %d columns instead of %d: %r" % (
                len(words), len(f.columns), line)
        p = {}
        for word, (key, unit, kind) in zip(words, f.columns):
            if not key:
                continue
            try:
                value = kind(word)
            except ValueError:
                return None, "%s is %r" % (key, word)
            if key == "pid" and back is not None:
                if value not in back:
                    return None, "%s is %r" % (key, word)
                value = back[value]
            if kind is float:
                value *= unit
                if fmt.startswith("g4beamline") and key in ("x", "y", "z"):
                    value *= scale
            p[key] = value
        out.append(p)
    return out, None


def check_text(sim, fmt, text, want, what, scale=1.):
    """does the file hold these particles?"""
    with harness(sim):
        got, reason = decode(fmt, text, scale)
        if got is None:
            raise Violation("file", "%s: %s" % (what, reason))
        keys = FORMATS[fmt].keys
        for i, (w, g) in enumerate(zip(want, got)):
            d = differences(w, g, keys)
            if d:
                raise Violation("file", "%s: line %d: %s" % (what, i, ", ".join(d[:4])))
        if len(got) != len(want):
            raise Violation("file", "%s: the file has %d particles instead of %d" % (
                what, len(got), len(want)))


def stray(ch, columns):
    """a line that is no record"""
    n = ch.pick([0, 1, columns - 1, columns + 1, columns + 3])
    return " ".join(["x7"] * n) + "\n"


def spoil(ch, words, columns):
    """make one of the fields unreadable"""
    use = [i for i, c in enumerate(columns) if c]
    words[use[ch.n(len(use))]] = ch.pick(["?", "abc", "1.2.3", "--", "0x1p", "12,5", "None"])


def render(ch, fmt, parts, style=None, strays=0., spoilt=None):
    """
    Text of a file as other programs write it, and the ends of its records; the
    values in parts are rounded to what was printed.
    """
    f = FORMATS[fmt]
    style = ch.n(4) if style is None else style
    spec = ["%r", "%.10e", "%.14g", "%.7f"][style]
    sep = ch.pick([" ", "   ", "\t"])
    head = ""
    if fmt == "icool_for009":
        head = "#a title\n#  units = [s] [m]  [GeV/c] [T] [V/m]\nevt par typ flg\n"
    elif fmt == "icool_for003":
        head = "a title\n0. 0. 0. 0. 0. 0. 0. 0.\n"
    elif fmt.startswith("g4b"):
        head = "#BLTrackFile a title\n#x y z Px Py Pz t PDGid EvNum TrkId Parent weight\n"
        if ch.chance(0.3):
            head += "#mm mm mm MeV/c MeV/c MeV/c ns - - - - -\n"
    out = [head]
    ends = []
    pos = len(head)
    for p in parts:
        while strays and ch.chance(strays):
            line = stray(ch, len(f.columns))
            out.append(line)
            pos += len(line)
        words = []
        for key, unit, kind in f.columns:
            if not key:
                words.append("0")
            elif kind is int:
                value = p[key]
                if key == "pid" and f.pids:
                    value = f.pids[value]
                if fmt.startswith("g4b") and key == "event_number" and \
                        value and value % 1000 == 0:
                    words.append("%e" % value)
                else:
                    words.append("%d" % value)
            else:
                word = spec % (p[key] / unit)
                words.append(word)
                p[key] = float(word) * unit
        if fmt.startswith("mars"):
            p["t"] = p["ct"] / C_LIGHT
        finish(p)
        if spoilt is not None and p is parts[spoilt]:
            spoil(ch, words, [c[0] for c in f.columns])
        line = ch.pick(["", "  "]) + sep.join(words) + "\n"
        out.append(line)
        pos += len(line)
        ends.append(pos)
    return "".join(out), ends


# ---------------------------------------------------------------- writing
COMMENTS = [None, "a run of mine", "", "# of runs: 3", "100% <b> {0} \u03bc+", "x" * 200]


# formats whose header has the comment of the user
COMMENTED = ("icool_for003", "icool_for009", "g4beamline_bl_track_file",
             "g4beamline_bl_track_file_2")


def by_station(parts):
    return sorted(parts, key=lambda p: p["station"])


def write(ch, fmt, parts, path, how=None, comment=None):
    """write with the library in one of its ways; returns the order in the file"""
    hits = [to_hit(p) for p in parts]
    how = ch.n(4) if how is None else how
    if how == 0:
        Bunch.new_from_hits(hits).hit_write_builtin(fmt, path, comment)
    elif how == 1:
        Hit.write_list_builtin_formatted(hits, fmt, path, comment)
    elif how == 2:
        parts = write_dict(ch, fmt, parts, path, comment)
    else:
        with Hit.open_filehandle_for_writing(fmt, path, comment) as f:
            for hit in hits:
                hit.write_builtin_formatted(fmt, f)
        return list(parts)
    return by_station(parts)


def in_groups(ch, parts):
    """random partition, as a dict of lists"""
    groups = {}
    n = ch.between(1, 3)
    for p in parts:
        groups.setdefault(ch.n(n) * 7, []).append(p)
    return groups


def write_dict(ch, fmt, parts, path, comment):
    groups = in_groups(ch, parts)
    bunches = dict((k, Bunch.new_from_hits([to_hit(p) for p in v]))
                   for k, v in groups.items())
    Bunch.hit_write_builtin_from_dict(bunches, fmt, path, comment)
    return [p for v in groups.values() for p in v]


# ---------------------------------------------------------------- reading
def read(ch, fmt, pattern, names, how=None):
    """read all of the files with the library in one of its ways"""
    how = ch.n(5) if how is None else how
    if how == 0:
        return Bunch.new_from_read_builtin(fmt, pattern).hits(), "new_from_read_builtin"
    hits = []
    if how == 1:
        for name in names:
            f = Bunch.setup_file(fmt, name)
            while True:
                try:
                    hits.append(Hit.new_from_read_builtin(fmt, f))
                except EOFError:
                    break
                except BadEventError:
                    continue
            f.close()
        return hits, "Hit.new_from_read_builtin"
    if how == 2:
        for name in names:
            with Bunch.setup_file(fmt, name) as f:
                for hit in BuiltinHitFactory(fmt, f).hit_generator():
                    hits.append(hit)
        return hits, "hit_generator"
    if how == 3:
        for name in names:
            with Bunch.setup_file(fmt, name) as f:
                fac = BuiltinHitFactory(fmt, f)
                while True:
                    try:
                        hits.append(fac.make_hit())
                    except EOFError:
                        break
                    except BadEventError:
                        continue
        return hits, "make_hit"
    for name in names:
        hits += Bunch.new_from_read_builtin(fmt, name).hits()
    return hits, "new_from_read_builtin, file by file"


def grouped(want, key):
    """expected groups: {value: particles}"""
    out = {}
    for p in want:
        out.setdefault(int(p[key]), []).append(p)
    return out


# ------------------------------------------------------------ user formats
UNITS = {"length": {"mm": 1., "cm": 10., "m": 1e3, "mum": 1e-3, "km": 1e6, "": 1.},
         "time": {"ns": 1., "s": 1e9, "ms": 1e6, "mus": 1e3, "": 1.},
         "momentum": {"MeV/c": 1., "GeV/c": 1e3, "eV/c": 1e-6, "": 1.},
         "energy": {"MeV": 1., "GeV": 1e3, "keV": 1e-3, "": 1.},
         "field": {"kT": 1., "T": 1e-3, "mT": 1e-6, "Gauss": 1e-7, "": 1.},
         "efield": {"GV/m": 1., "": 1.}, "none": {"": 1.}}
KIND = {}
for _k, _v in (("length", "x y z path_length ct"), ("time", "t proper_time"),
               ("momentum", "px py pz"), ("energy", "energy mass e_dep"),
               ("field", "bx by bz"), ("efield", "ex ey ez"),
               ("none", "sx sy sz local_weight charge")):
    for _w in _v.split():
        KIND[_w] = _k
INTS = ["event_number", "particle_number", "pid", "station", "status"]
ALIAS = {"event_number": "eventNumber", "particle_number": "particleNumber"}


def user_format(ch):
    """(format list, units, quantities)"""
    floats = [k for k in sorted(KIND) if ch.chance(0.5)]
    if "t" in floats and "ct" in floats:
        floats.remove("ct")
    ints = [k for k in INTS if k == "pid" or ch.chance(0.6)]
    keys = ch.shuffled(floats + ints)
    columns = []
    units = {}
    for key in keys:
        name = ALIAS[key] if key in ALIAS and ch.chance(0.5) else key
        columns.append(name)
        units[name] = "" if key in INTS else ch.pick(sorted(UNITS[KIND[key]]))
    for _ in range(ch.n(3)):
        if ch.chance(0.3):
            columns.insert(ch.n(len(columns) + 1), "")
    return columns, units, keys


def odd_ones(ch, parts, keys):
    """particles whose mass and charge are not those of their codes"""
    for p in parts:
        if "mass" in keys and ch.chance(0.3):
            p["mass"] = ch.pick([1., 105., 1e4, p["mass"] * 2.])
            finish(p)
        if "charge" in keys and ch.chance(0.3):
            p["charge"] = ch.pick([2., -p["charge"], 0.5])
    return parts


def unit_scale(key, unit):
    return UNITS[KIND[key]][unit]


def comparator(ch):
    key = ch.pick(["event_number", "x", "station", "pid"])
    sign = ch.pick([1, -1])

    def compare(a, b):
        x, y = a[key], b[key]
        return sign * ((x > y) - (x < y))
    return compare, key, sign


__all__ = ["Check", "UserHitFactory", "Violation", "harness"]
