"""F04: damaged or unreadable input never invents or silently drops particles."""
from sim.faults import Faults
from sim.kernel import Violation, harness
from sim.runner import Check
from xboa.bunch import Bunch
from xboa.hit import Hit
from xboa.hit.factory import BuiltinHitFactory, UserHitFactory
from . import files

KINDS = ("eio", "eacces", "emfile")


class F04(Check):
    def scenario(self, sim):
        ch = sim.ch
        sim.summary = []
        sim.isolate_weights = True
        sim.fs.short = ch.chance(0.5)
        sim.fs.block = ch.pick([64, 256, 8192])
        sim.quanta = ch.pick([[1, 2, 4, 8, 16], [1, 1, 2, 3]])
        Hit.set_g4bl_unit("mm")
        self.user = ch.chance(0.3)
        self.fmt = files.TEXT[ch.n(len(files.TEXT))]
        self.cuts = 0
        names = []
        self.files = {}            # name: (complete records, particle that was cut)
        for i in range(ch.wpick([(1, 5), (2, 2)])):
            name = "/data/d%d" % i
            self.make(sim, name)
            names.append(name)
        # faults hit opening and reading; how glob takes an unreadable directory is its own
        faults = Faults(sim, ch.subset(KINDS, 0.4), 2,
                        lambda proc, op, path: op in ("open_r", "read"))
        faults.scale = ch.pick([2, 5, 15])
        faults._arm()
        self.stored = sim.fs.h_files("/data")
        together = ch.chance(0.5)
        tasks = []
        for k in range(ch.wpick([(1, 5), (2, 2)])):
            proc = sim.current.proc if together else sim.new_proc(
                "program%d" % k, None, sim.current.proc, start_task=False)
            tasks.append(sim.new_task(proc, lambda: self.program(sim, names), "client%d" % k))
        sim.wait(lambda: all(t.done for t in tasks), None, "clients")
        for t in tasks:
            if t.exc is not None:
                raise t.exc
        fired = len(faults.fired)
        faults.stop()
        self.session(sim, names)
        if sim.fs.h_files("/data") != self.stored:
            raise Violation("modified", "reading has changed the files")
        sim.nontrivial = bool(fired or self.cuts)

    # ---- the files, whole or cut
    def make(self, sim, name):
        ch = sim.ch
        n = files.amount(ch)
        spoilt = None
        if n and ch.chance(0.15):
            spoilt = ch.n(n)
            sim.count("spoilt_field")
            self.cuts += 1
        self.spoilt = spoilt
        if self.user:
            if not self.files:
                self.columns, self.units, self.keys = files.user_format(ch)
                self.columns = [c for c in self.columns if c]
                self.check = list(self.keys) + (["t"] if "ct" in self.keys else [])
            parts = files.particles(ch, n, files.ANY_PID)
            with harness(sim):
                text, ends = self.render_user(ch, parts)
            header = 0
        else:
            parts = files.particles(ch, n, files.codes(self.fmt))
            if spoilt is None and ch.chance(0.4):
                # a program that writes, and is killed
                self.crashed(sim, name, parts)
                return
            with harness(sim):
                text, ends = files.render(ch, self.fmt, parts,
                                          strays=ch.pick([0., 0., 0.2]),
                                          spoilt=spoilt)
            self.check = files.read_keys(self.fmt)
        data = text.encode()
        cut = len(data)
        if ch.chance(0.7):
            cut = ch.n(len(data) + 1)
            if ch.chance(0.3) and ends:
                # at the end of a record, more or less
                cut = max(0, ends[ch.n(len(ends))] - ch.n(12))
            sim.count("cut")
            self.cuts += 1
        with harness(sim):
            sim.fs.h_write(name, data[:cut])
        self.record(sim, name, parts, ends, data[:cut])

    def record(self, sim, name, parts, ends, data):
        done = len([e for e in ends if e <= len(data)])
        part = None
        if done < len(parts):
            words = data.decode(errors="replace").split("\n")[-1].split()
            ncols = len(self.columns if self.user else files.FORMATS[self.fmt].columns)
            # cut inside, or right after, its last column
            if len(words) == ncols:
                part = parts[done]
        self.files[name] = (parts[:done], part, self.spoilt)
        sim.summary.append("%s: %s, %d of %d records%s" % (
            name, "user format" if self.user else self.fmt, done, len(parts),
            ", last column cut" if part else ""))

    def render_user(self, ch, parts):
        alias = dict((v, k) for k, v in files.ALIAS.items())
        text, ends = "", []
        strays = ch.pick([0., 0., 0.2])
        for p in parts:
            while strays and ch.chance(strays):
                text += files.stray(ch, len(self.columns))
            words = []
            for name in self.columns:
                key = alias.get(name, name)
                if key in files.INTS:
                    words.append("%d" % p[key])
                else:
                    words.append("%r" % (p[key] / files.unit_scale(key, self.units[name])))
            if self.spoilt is not None and p is parts[self.spoilt]:
                files.spoil(ch, words, self.columns)
            text += " ".join(words) + "\n"
            ends.append(len(text))
            if "ct" in self.keys:
                p["t"] = p["ct"] / files.C_LIGHT
        return text, ends

    def crashed(self, sim, name, parts):
        ch = sim.ch
        order = files.by_station(parts)
        writer = sim.new_proc("writer", None, sim.current.proc, start_task=False)
        how = ch.n(4)
        made = []
        task = sim.new_task(writer, lambda: made.append(
            files.write(ch, self.fmt, parts, name, how)), "writer")
        block, sim.fs.block = sim.fs.block, ch.pick([64, 256, 8192])
        when = sim.now + ch.n(30 + 6 * len(parts)) * sim.tick

        def strike():
            if not writer.dead:
                sim.count("writer_killed")
                self.cuts += 1
                sim.kill(writer, -9)
        sim.at(when, strike)
        sim.wait(lambda: task.done, None, "writer")
        sim.fs.block = block
        if task.exc is not None:
            raise task.exc
        if how == 3:
            order = list(parts)
        elif how == 2:
            order = made[0] if made else None
        with harness(sim):
            data = sim.fs.h_read(name)
            if data is None:
                sim.fs.h_write(name, b"")
                data = b""
            self.check = files.read_keys(self.fmt)
            if order is None:
                # in the order of groups that the writer chose and took with it
                data = b""
                sim.fs.h_write(name, data)
                order = parts
            ends, pos = [], 0
            lines = data.decode(errors="replace").split("\n")
            skip = files.FORMATS[self.fmt].header
            for i, line in enumerate(lines):
                pos += len(line.encode()) + 1
                if i < skip or (line.startswith("#") and self.fmt.startswith("g4b")):
                    continue
                ends.append(pos)
            ends += [len(data) + 1 + i for i in range(len(order) - len(ends))]
            self.record(sim, name, order, ends[:len(order)], data)

    # ---- reading
    def program(self, sim, names):
        for _ in range(sim.ch.between(1, 3)):
            self.session(sim, names)

    def session(self, sim, names):
        ch = sim.ch
        task = sim.current
        if ch.chance(0.1):
            self.missing(sim)
            return
        chosen = names
        how = ch.n(4) if self.user else ch.n(8)
        single = self.user or how in (1, 2, 3, 6)
        if single:
            chosen = [names[ch.n(len(names))]]
        before = len(sim.faults.fired)
        want = [x for n in chosen for x in self.spans(n)]
        limit = -1
        try:
            if self.user:
                hits = self.read_user(ch, chosen[0], how)
            elif how == 5:
                limit = ch.n(6)
                hits = Bunch.new_from_read_builtin(self.fmt, "/data/d*", None, limit).hits()
                chosen, want = names, [x for n in names for x in self.spans(n)]
            elif how == 6:
                groups = Bunch.new_dict_from_read_builtin(self.fmt, chosen[0], "pid")
                hits = groups
            elif how == 7:
                groups = Bunch.new_list_from_read_builtin(self.fmt, "/data/d*",
                                                          "event_number")
                hits = dict((b[0]["event_number"], b) for b in groups)
                if len(hits) != len(groups):
                    raise Violation("groups", "two groups of the same event")
                chosen, want = names, [x for n in names for x in self.spans(n)]
            else:
                pattern = "/data/d*" if len(names) > 1 and not single else chosen[0]
                if not single:
                    chosen = names
                    want = [x for n in names for x in self.spans(n)]
                hits, _ = files.read(ch, self.fmt, pattern, chosen, how)
        except Exception as exc:
            exc.__traceback__ = None
            with harness(sim):
                fired = [f for f in sim.faults.fired[before:] if f[2] in chosen]
                cut = any(len(sim.fs.h_read(n)) < 1 or not sim.fs.h_read(n).endswith(b"\n")
                          for n in chosen)
                sim.summary.append("%s: %r" % (how, exc))
                if not (fired or cut or any(c == "spoilt" for _, c in want)):
                    raise Violation("error", "reading %s raised %r without a reason" % (
                        chosen, exc))
            return
        with harness(sim):
            mine = [f for f in sim.faults.fired[before:] if f[2] in chosen and f[4] is task]
            if mine:
                raise Violation("read error", "%s of %s failed, but reading by way %d "
                                "returned %d particles" % (
                                    mine[0][1], mine[0][2], how, len(hits)))
            good = [c for _, c in want]
            if "spoilt" in good and (limit < 0 or good.index("spoilt") + good[
                    :good.index("spoilt")].count("cut") < limit):
                raise Violation("spoilt", "record %d of %s has a field that is no number, "
                                "but reading by way %d returned %d particles" % (
                                    good.index("spoilt"), chosen, how, len(hits)))
            if isinstance(hits, dict):
                self.compare_groups(sim, want, hits, how)
            else:
                self.compare(sim, want, list(hits), how, limit)

    def spans(self, name):
        """particles, and whether they are whole (False), cut or spoilt"""
        whole, part, spoilt = self.files[name]
        return [(p, "spoilt" if i == spoilt else False) for i, p in enumerate(whole)] + \
            ([(part, "cut")] if part else [])

    def compare(self, sim, want, hits, how, limit=-1, ends=True):
        """the cut particles may be there or not"""
        i = 0
        what = "%s by way %d" % ("user format" if self.user else self.fmt, how)
        for k, hit in enumerate(hits):
            while i < len(want):
                p, cut = want[i]
                d = files.differences(p, hit, self.fields(cut))
                if not d:
                    break
                if not cut:
                    raise Violation("particles", "%s: particle %d: %s" % (
                        what, k, ", ".join(d[:4])))
                i += 1
            if i == len(want):
                raise Violation("invented", "%s: particle %d of %d is not in the file" % (
                    what, k, len(hits)))
            i += 1
        if limit >= 0 and len(hits) > limit:
            raise Violation("limit", "%s: %d particles instead of at most %d" % (
                what, len(hits), limit))
        if limit >= 0 and len(hits) == limit:
            return
        if any(not cut for _, cut in want[i:]):
            raise Violation("dropped", "%s: %d particles instead of %d" % (
                what, len(hits), len([1 for _, cut in want if not cut])))

    def compare_groups(self, sim, want, groups, how):
        key = "pid" if how == 6 else "event_number"
        for value, bunch in groups.items():
            self.compare(sim, [w for w in want if int(w[0][key]) == value],
                         bunch.hits(), how)
        for p, cut in want:
            if not cut and int(p[key]) not in groups:
                raise Violation("dropped", "there is no group of %s %r" % (key, p[key]))

    def fields(self, cut):
        """what is not affected by a cut in the last column"""
        if not cut:
            return self.check
        if self.user:
            last = self.columns[-1]
            last = {"eventNumber": "event_number",
                    "particleNumber": "particle_number"}.get(last, last)
        else:
            last = files.FORMATS[self.fmt].columns[-1][0]
        out = {"ct": ("ct", "t")}.get(last, (last,))
        if last in ("px", "py", "pz", "mass", "pid"):
            out += ("energy", "mass", "charge")
        return [k for k in self.check if k not in out]

    def read_user(self, ch, name, how):
        f = open(name)
        try:
            if how == 0:
                return Bunch.new_from_read_user(self.columns, self.units, f, 0).hits()
            out = []
            if how == 1:
                for hit in UserHitFactory(self.columns, self.units, f, "").hit_generator():
                    out.append(hit)
                return out
            from xboa.hit import BadEventError
            while True:
                try:
                    if how == 2:
                        out.append(Hit.new_from_read_user(self.columns, self.units, f))
                    else:
                        out.append(UserHitFactory(self.columns, self.units, f,
                                                  "").make_hit())
                except EOFError:
                    return out
                except BadEventError:
                    continue
        finally:
            f.close()

    def missing(self, sim):
        ch = sim.ch
        name = ch.pick(["/data/nothing", "/data/nothing*", "/nowhere/d0", "/data/d0/d0"])
        way = ch.n(5)
        try:
            if way == 0:
                got = Bunch.new_from_read_builtin(self.fmt, name)
            elif way == 1:
                got = Bunch.new_dict_from_read_builtin(self.fmt, name)
            elif way == 2:
                got = Bunch.new_list_from_read_builtin(self.fmt, name)
            elif way == 3:
                got = Bunch.setup_file(self.fmt, name.rstrip("*"))
            else:
                got = Bunch.read_maus_json_file(name.rstrip("*"))
        except Exception as exc:
            exc.__traceback__ = None
            return
        raise Violation("missing", "%s is missing, but reading it returned %r" % (name, got))


CHECK = F04()
