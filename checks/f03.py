"""F03: writing never alters the particles."""
from sim import gen
from sim.faults import Faults
from sim.kernel import Violation, harness
from sim.runner import Check
from xboa.bunch import Bunch
from xboa.hit import Hit
from . import files


class Refused(Exception):
    pass


class Handle(object):
    """a caller's own file object that fails at some time"""
    def __init__(self, f, sim, left):
        self.f = f
        self.sim = sim
        self.left = left

    def write(self, text):
        self.left -= 1
        if self.left == 0:
            self.sim.count("handle_failed")
            raise Refused("no more")
        self.sim.point("handle")
        return self.f.write(text)


def state(hit):
    return gen.plain(hit) + (hit["global_weight"], hit["weight"])


class F03(Check):
    def scenario(self, sim):
        ch = sim.ch
        sim.summary = []
        sim.isolate_weights = True
        sim.trace_lines = ch.chance(0.7)
        sim.fs.short = ch.chance(0.3)
        sim.fs.block = ch.pick([64, 256, 8192])
        sim.quanta = ch.pick([[1, 2, 4, 8, 16], [1, 1, 2, 3], [8, 32]])
        Hit.set_g4bl_unit("mm")
        faults = Faults(sim, ch.subset(("enospc", "eio", "eacces"), 0.4), 3)
        faults.scale = ch.pick([4, 10, 30])
        faults._arm()
        # the particles, shared by all
        n = ch.wpick([(1, 2), (2, 3), (4, 3), (7, 2)])
        self.parts = files.particles(ch, n, ch.pick([
            files.ANY_PID, files.codes("icool_for009"), files.codes("mars_1"),
            [-13], [211, 13]]))
        self.hits = [files.to_hit(p) for p in self.parts]
        for h in self.hits:
            if ch.chance(0.3):
                h["global_weight"] = ch.n(5) / 2.
        self.groups = {}
        for h in self.hits:
            self.groups.setdefault(ch.n(3), []).append(h)
        self.bunch = Bunch()
        self.bunches = {}
        for h in self.hits:
            self.bunch.append(h)
        for k, v in self.groups.items():
            self.bunches[k] = Bunch()
            for h in v:
                self.bunches[k].append(h)
        with harness(sim):
            self.before = [state(h) for h in self.hits]
        self.order = list(self.hits)
        tasks = []
        self.running = 0
        self.writing = set()
        for k in range(ch.wpick([(1, 4), (2, 3)])):
            self.running += 1
            tasks.append(sim.new_task(sim.current.proc,
                                      lambda k=k: self.writer(sim, k), "writer%d" % k))
        writers = list(tasks)
        for k in range(ch.n(3)):
            tasks.append(sim.new_task(sim.current.proc, lambda: self.reader(sim),
                                      "reader%d" % k))
        if ch.chance(0.4):
            victim = writers[ch.n(len(writers))]

            def strike():
                if not victim.done and victim in self.writing:
                    sim.count("interrupt")
                    victim.interrupt = KeyboardInterrupt()
            sim.at(sim.now + ch.n(120) * sim.tick, strike)
        sim.wait(lambda: all(t.done for t in tasks), None, "clients")
        for t in tasks:
            if t.exc is not None:
                raise t.exc
        sim.nontrivial = sim.switches > 6

    def reader(self, sim):
        ch = sim.ch
        while self.running:
            self.look(sim, "during a write", ch.n(len(self.hits)))
            sim.point("look")
            sim.sleep(sim.tick * 2)

    def look(self, sim, when, i=None):
        with harness(sim):
            for k in (range(len(self.hits)) if i is None else [i]):
                now = state(self.hits[k])
                if now != self.before[k]:
                    names = list(gen.stored()) + ["global_weight", "weight"]
                    raise Violation("altered", "%s, particle %d has %s" % (when, k, ", ".join(
                        "%s %r instead of %r" % (n, b, a) for n, a, b in
                        zip(names, self.before[k], now) if a != b)))
            if len(self.order) != len(self.hits) or \
                    any(a is not b for a, b in zip(self.order, self.hits)):
                raise Violation("order", "%s, the list has been altered" % when)
            self.same(self.bunch, self.hits, when)
            if sorted(self.bunches) != sorted(self.groups):
                raise Violation("order", "%s, the dict of groups has been altered" % when)
            for k in self.groups:
                self.same(self.bunches[k], self.groups[k], when)

    def same(self, bunch, hits, when):
        got = bunch.hits()
        if len(got) != len(hits) or any(a is not b for a, b in zip(got, hits)):
            raise Violation("order", "%s, the order in the group has been altered" % when)

    def writer(self, sim, k):
        try:
            self.session(sim, k)
        finally:
            self.running -= 1

    def session(self, sim, k):
        ch = sim.ch
        task = sim.current
        for r in range(ch.between(1, 3)):
            how = ch.n(7)
            self.writing.add(task)
            try:
                self.write(sim, how, "/data/w%d_%d" % (k, r))
                what = "written"
            except (Exception, KeyboardInterrupt) as exc:
                what = type(exc).__name__
                exc.__traceback__ = None
            finally:
                self.writing.discard(task)
            if task.interrupt is not None:
                task.interrupt = None
            sim.summary.append("%s by way %d" % (what, how))
            self.look(sim, "after a write (%s)" % what)

    def write(self, sim, how, path):
        ch = sim.ch
        fmt = (files.TEXT + ["maus_json_virtual_hit", "maus_json_primary",
                             "no_such_format"])[ch.n(len(files.TEXT) + 3)]
        if how == 0:
            self.bunch.hit_write_builtin(fmt, path)
        elif how == 1:
            Hit.write_list_builtin_formatted(self.hits, fmt, path)
        elif how == 2:
            Bunch.hit_write_builtin_from_dict(self.bunches, fmt, path)
        elif how == 3:
            with Hit.open_filehandle_for_writing(fmt, path) as f:
                h = Handle(f, sim, ch.n(60))
                for hit in self.hits:
                    hit.write_builtin_formatted(fmt, h)
        elif how == 4:
            Hit.get_maus_tree(self.hits, "maus_json_virtual_hit")
        else:
            columns, units, keys = files.user_format(ch)
            if ch.chance(0.15):
                units.pop(columns[ch.n(len(columns))], None)
            compare = None
            if ch.chance(0.5):
                good, key, sign = files.comparator(ch)
                left = ch.n(12)
                calls = [0]

                def compare(a, b):
                    calls[0] += 1
                    if calls[0] == left:
                        raise Refused("cannot compare")
                    sim.point("compare")
                    return good(a, b)
            with open(path, "w") as f:
                h = Handle(f, sim, ch.n(60))
                if how == 5:
                    self.bunch.hit_write_user(columns, units, h, " ", compare)
                else:
                    for hit in self.hits:
                        hit.write_user_formatted(columns, units, h)


CHECK = F03()
