"""F01: particles written to a file are read back the same."""
from sim.kernel import Violation, harness
from sim.runner import Check
from xboa.bunch import Bunch
from xboa.hit import Hit
from xboa.hit.factory import UserHitFactory
from . import files


class F01(Check):
    def scenario(self, sim):
        ch = sim.ch
        sim.summary = []
        sim.isolate_weights = True
        sim.fs.short = ch.chance(0.6)
        sim.fs.block = ch.pick([64, 256, 8192])
        sim.fs.shuffle = ch.chance(0.5)
        sim.quanta = ch.pick([[1, 2, 4, 8, 16], [1, 1, 2, 3], [8, 32]])
        self.unit = ch.wpick([("mm", 3), ("cm", 1), ("m", 1)])
        Hit.set_g4bl_unit(self.unit)
        try:
            tasks = []
            n = ch.wpick([(1, 4), (2, 3), (3, 2)])
            together = ch.chance(0.5)
            self.rounds = 0
            for k in range(n):
                proc = sim.current.proc if together else sim.new_proc(
                    "program%d" % k, None, sim.current.proc, start_task=False)
                tasks.append(sim.new_task(proc, lambda k=k: self.program(sim, k),
                                          "client%d" % k))
            sim.wait(lambda: all(t.done for t in tasks), None, "clients")
            for t in tasks:
                if t.exc is not None:
                    raise t.exc
        finally:
            Hit.set_g4bl_unit("mm")
        sim.nontrivial = self.rounds > 1

    def program(self, sim, k):
        ch = sim.ch
        home = ch.pick(["/data/run%d" % k, "/data"])
        sim.fs.h_mkdir(home)
        for r in range(ch.between(1, 3)):
            name = "%s/p%dr%d" % (home, k, r)
            if ch.chance(0.3):
                self.user(sim, name)
            else:
                self.builtin(sim, name)
            self.rounds += 1

    # ---- built-in formats
    def builtin(self, sim, name):
        ch = sim.ch
        fmt = files.TEXT[ch.n(len(files.TEXT))]
        pids = files.codes(fmt)
        if ch.chance(0.4):
            pids = [pids[ch.n(len(pids))]]
        pieces = ch.wpick([(1, 5), (2, 2), (3, 1)])
        names, want = [], []
        for i in range(pieces):
            path = "%s_%d.dat" % (name, i)
            parts = files.particles(ch, files.amount(ch), pids)
            comment = ch.pick(files.COMMENTS)
            if ch.chance(0.2):
                sim.fs.h_write(path, "what was there before\n" * ch.n(30))
            how = ch.n(4)
            order = files.write(ch, fmt, parts, path, how, comment)
            sim.summary.append("wrote %d as %s to %s by way %d" % (
                len(parts), fmt, path, how))
            names.append(path)
            want += order
            with harness(sim):
                text = sim.fs.h_read(path).decode()
            scale = {"mm": 1., "cm": 10., "m": 1e3}[self.unit]
            files.check_text(sim, fmt, text, order, "%s written by way %d" % (fmt, how),
                             scale)
            if comment and fmt in files.COMMENTED and comment not in text:
                raise Violation("no comment", "%s written by way %d lacks its comment %r" % (
                    fmt, how, comment))
        pattern = names[0] if pieces == 1 else ch.pick(
            [name + "_*.dat", name + "_?.dat", name + "_[0-9].dat", name + "_*"])
        keys = files.read_keys(fmt)
        for _ in range(ch.between(1, 2)):
            how = ch.n(7)
            if how < 5:
                got, what = files.read(ch, fmt, pattern, names, how)
                files.check_same(sim, want, got, keys, "%s by %s" % (fmt, what))
            else:
                key = ch.pick(["station", "event_number", "pid"])
                if key not in files.FORMATS[fmt].keys:
                    key = "event_number"
                self.groups(sim, fmt, pattern, want, keys, key, how == 5)

    def groups(self, sim, fmt, pattern, want, keys, key, as_list):
        groups = files.grouped(want, key)
        if as_list:
            got = Bunch.new_list_from_read_builtin(fmt, pattern, key)
            order = sorted(groups)
        else:
            got = Bunch.new_dict_from_read_builtin(fmt, pattern, key)
            order = sorted(groups)
            if sorted(got) != order:
                raise Violation("groups", "%s: %s %s instead of %s" % (
                    fmt, key, sorted(got), order))
            got = [got[k] for k in order]
        if len(got) != len(order):
            raise Violation("groups", "%s: %d groups instead of %d" % (
                fmt, len(got), len(order)))
        for value, bunch in zip(order, got):
            files.check_same(sim, groups[value], bunch.hits(), keys,
                             "%s, group of %s %r" % (fmt, key, value))

    # ---- formats of the user
    def user(self, sim, name):
        ch = sim.ch
        columns, units, keys = files.user_format(ch)
        parts = files.odd_ones(
            ch, files.particles(ch, files.amount(ch), files.ANY_PID), keys)
        hits = [files.to_hit(p) for p in parts]
        path = name + ".txt"
        skip = ch.n(3)
        sep = ch.pick([" ", "\t", "  "])
        want = list(parts)
        with open(path, "w") as f:
            for i in range(skip):
                # also lines that could be particles
                f.write(ch.pick(["header 1 2 3", " ".join(["1"] * len(columns)), ""]) + "\n")
            if ch.chance(0.6):
                compare = None
                if ch.chance(0.4):
                    compare, key, sign = files.comparator(ch)
                    # sorted() keeps the order of equal ones, also when reversed
                    want.sort(key=lambda p: p[key], reverse=sign < 0)
                Bunch.new_from_hits(hits).hit_write_user(columns, units, f, sep, compare)
            else:
                for hit in hits:
                    hit.write_user_formatted(columns, units, f, sep)
        how = ch.n(3)
        full = all(k in keys for k in ("px", "py", "pz"))
        check = list(keys)
        if "ct" in keys:
            check.append("t")
        if "mass" not in keys:
            check.append("mass")
        if "charge" not in keys:
            check.append("charge")
        f = open(path)
        if how == 0:
            got = Bunch.new_from_read_user(columns, units, f, skip).hits()
        else:
            for i in range(skip):
                f.readline()
            got = []
            shell = "energy" if full and ch.chance(0.5) else ""
            if shell and "energy" not in check:
                check.append("energy")
            if how == 1:
                args = [shell] if shell or ch.chance(0.3) else []
                while True:
                    try:
                        got.append(Hit.new_from_read_user(columns, units, f, *args))
                    except EOFError:
                        break
            else:
                for hit in UserHitFactory(columns, units, f, shell).hit_generator():
                    got.append(hit)
            f.close()
        sim.summary.append("%d in columns %s, read by way %d" % (len(parts), columns, how))
        files.check_same(sim, want, got, check, "columns %s" % (columns,))


CHECK = F01()
