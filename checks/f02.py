"""F02: a failed write is always reported."""
import json

from sim.faults import Faults
from sim.kernel import Violation, harness
from sim.runner import Check
from xboa.bunch import Bunch
from xboa.hit import Hit
from . import files

KINDS = ("enospc", "eio", "eacces", "emfile")


class F02(Check):
    def scenario(self, sim):
        ch = sim.ch
        sim.summary = []
        sim.isolate_weights = True
        sim.fs.short = ch.chance(0.4)
        sim.fs.block = ch.pick([64, 256, 8192])
        sim.quanta = ch.pick([[1, 2, 4, 8, 16], [1, 1, 2, 3]])
        Hit.set_g4bl_unit("mm")
        faults = Faults(sim, ch.subset(KINDS, 0.7), 3)
        faults.scale = ch.pick([2, 4, 10, 30])
        faults._arm()
        n = ch.wpick([(1, 5), (2, 2)])
        together = ch.chance(0.4)
        tasks = []
        for k in range(n):
            proc = sim.current.proc if together else sim.new_proc(
                "program%d" % k, None, sim.current.proc, start_task=False)
            tasks.append(sim.new_task(proc, lambda k=k: self.program(sim, k),
                                      "client%d" % k))
        sim.wait(lambda: all(t.done for t in tasks), None, "clients")
        for t in tasks:
            if t.exc is not None:
                raise t.exc
        fired = len(faults.fired)
        faults.stop()
        self.one(sim, "/data/final", sim.current.proc, calm=True)
        sim.nontrivial = bool(fired)

    def program(self, sim, k):
        ch = sim.ch
        proc = sim.current.proc
        for r in range(ch.between(1, 4)):
            path = "/data/c%d_%d" % (k, ch.n(3))
            self.one(sim, path, proc)

    def one(self, sim, path, proc, calm=False):
        ch = sim.ch
        kind = ch.wpick([("builtin", 6), ("maus", 2), ("user", 2), ("unknown", 0.5)])
        before = len(sim.faults.fired)
        excs = []
        printed = len(proc.stdout.getvalue())
        try:
            check = getattr(self, kind)(sim, path, excs)
        except Exception as exc:
            exc.__traceback__ = None
            excs.append(exc)
            check = None
        text = proc.stdout.getvalue()[printed:]
        with harness(sim):
            mine = [f for f in sim.faults.fired[before:] if f[2] == path]
            full = sim.fs.full is not None
            if check is None:
                sim.summary.append("%s %s: %r" % (kind, path, excs[-1]))
                if not (getattr(excs[-1], "refusal", False) or (mine or full) and not calm):
                    raise Violation("error", "writing %s raised %r without a reason" % (
                        path, excs[-1]))
                return
            sim.summary.append("%s %s: returned, %d faults" % (kind, path, len(mine)))
            # whatever is still in a buffer of the program is lost if it is killed now
            data = sim.fs.h_read(path)
            if data is None:
                raise Violation("file", "%s was not made, but no error was raised" % path)
            try:
                data = data.decode()
            except UnicodeDecodeError:
                raise Violation("file", "%s is spoilt, but no error was raised" % path)
            check(data, text, excs)

    # ---- ways to write; each returns a function that checks the file
    def builtin(self, sim, path, excs):
        ch = sim.ch
        fmt = files.TEXT[ch.n(len(files.TEXT))]
        pids = list(files.codes(fmt))
        bad = []
        if files.FORMATS[fmt].pids and ch.chance(0.3):
            bad = [p for p in files.ANY_PID if p not in files.FORMATS[fmt].pids]
            pids = pids + bad * ch.between(1, 3)
        parts = files.particles(ch, files.amount(ch), pids)
        can = [p for p in parts if p["pid"] not in bad]
        comment = ch.pick(files.COMMENTS)
        how = ch.n(4)
        refused = []
        if how < 3:
            try:
                order = files.write(ch, fmt, parts, path, how, comment)
            except Exception as exc:
                # a whole write may be refused because of one particle
                if len(can) < len(parts) and not isinstance(exc, OSError):
                    exc.refusal = True
                raise
            order = [p for p in order if p["pid"] not in bad]
        else:
            order = []
            with Hit.open_filehandle_for_writing(fmt, path, comment) as f:
                for p in parts:
                    try:
                        files.to_hit(p).write_builtin_formatted(fmt, f)
                        order.append(p)
                    except Exception as exc:
                        if p["pid"] not in bad:
                            raise
                        refused.append(exc)
            if any(p["pid"] in bad for p in order):
                raise Violation("refusal", "%s: a particle without a code was written "
                                "without an error" % fmt)

        def check(data, text, excs):
            files.check_text(sim, fmt, data, order, "%s by way %d returned normally"
                             % (fmt, how))
            if len(order) < len(parts) and not refused and not text.strip():
                raise Violation("silence", "%s: %d particles were left out without a "
                                "warning" % (fmt, len(parts) - len(order)))
        return check

    def maus(self, sim, path, excs):
        ch = sim.ch
        primary = ch.chance(0.3)
        fmt = "maus_json_primary" if primary else "maus_json_virtual_hit"
        parts = []
        for i in range(files.amount(ch)):
            p = files.particle(ch, files.ANY_PID, event=i if primary else ch.n(5))
            p["particle_number"] = ch.n(3)
            parts.append(p)
        hits = [files.to_hit(p) for p in parts]
        if ch.chance(0.5):
            Hit.write_list_builtin_formatted(hits, fmt, path)
        else:
            Bunch.new_from_hits(hits).hit_write_builtin(fmt, path)

        def check(data, text, excs):
            found = []
            try:
                for line in data.split("\n")[:-1]:
                    for event in json.loads(line)["mc_events"]:
                        found += [event["primary"]] if primary else event["virtual_hits"]
            except (ValueError, KeyError) as exc:
                raise Violation("file", "%s: a document is spoilt: %r" % (fmt, exc))
            if data and not data.endswith("\n"):
                raise Violation("file", "%s: the last line is cut" % fmt)
            got = sorted((h["time"], h["position"]["x"], h["momentum"]["y"],
                          h["particle_id"]) for h in found)
            want = sorted((p["t"], p["x"], p["py"], p["pid"]) for p in parts)
            if got != want:
                raise Violation("file", "%s: the file has %d of %d particles" % (
                    fmt, len([g for g in got if g in want]), len(want)))
        return check

    def unknown(self, sim, path, excs):
        """formats that there are not, or that can only be read"""
        ch = sim.ch
        fmt = ch.pick(["nonsense", "maus_root_virtual_hit", "icool_for004", None])
        hit = files.to_hit(files.particle(ch, files.ANY_PID))
        with harness(sim):
            if ch.chance(0.7):
                sim.fs.h_write(path, "what was there before\n" * ch.n(30))
            before = sim.fs.h_read(path)
        how = ch.n(4)
        try:
            if how == 0:
                Bunch.new_from_hits([hit]).hit_write_builtin(fmt, path)
            elif how == 1:
                Hit.write_list_builtin_formatted([hit], fmt, path)
            elif how == 2:
                Bunch.hit_write_builtin_from_dict({0: Bunch.new_from_hits([hit])}, fmt, path)
            else:
                Hit.open_filehandle_for_writing(fmt, path)
        except Exception as exc:
            exc.__traceback__ = None
            with harness(sim):
                if sim.fs.h_read(path) != before:
                    raise Violation("spoilt", "writing the unknown format %r failed by way %d "
                                    "and changed the file" % (fmt, how))
            exc.refusal = True
            raise
        raise Violation("no error", "there is a format %r to write (way %d)" % (fmt, how))

    def user(self, sim, path, excs):
        ch = sim.ch
        columns, units, keys = files.user_format(ch)
        parts = files.particles(ch, files.amount(ch), files.ANY_PID)
        hits = [files.to_hit(p) for p in parts]
        sep = ch.pick([" ", "\t", ",", ";"])
        order = list(parts)
        f = open(path, "w")
        try:
            if ch.chance(0.6):
                compare = None
                if ch.chance(0.4):
                    compare, key, sign = files.comparator(ch)
                    order.sort(key=lambda p: p[key], reverse=sign < 0)
                Bunch.new_from_hits(hits).hit_write_user(columns, units, f, sep, compare)
            else:
                for hit in hits:
                    hit.write_user_formatted(columns, units, f, sep)
        finally:
            f.close()

        def check(data, text, excs):
            lines = data.split("\n")
            if lines.pop() != "" or len(lines) != len(order):
                raise Violation("file", "%d lines instead of %d" % (len(lines), len(order)))
            for i, (p, line) in enumerate(zip(order, lines)):
                words = line.split(sep)
                if words and words[-1] == "":
                    words.pop()
                if len(words) != len(columns):
                    raise Violation("file", "line %d: %d columns instead of %d" % (
                        i, len(words), len(columns)))
                for word, name in zip(words, columns):
                    key = {"eventNumber": "event_number",
                           "particleNumber": "particle_number"}.get(name, name)
                    if not key:
                        continue
                    try:
                        value = float(word)
                    except ValueError:
                        raise Violation("file", "line %d: %s is %r" % (i, name, word))
                    if key not in files.INTS:
                        value *= files.unit_scale(key, units[name])
                    if not files.close(value, p[key]):
                        raise Violation("file", "line %d: %s is %r instead of %r" % (
                            i, name, value, p[key]))
        return check


CHECK = F02()
