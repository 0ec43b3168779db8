"""S01: global weights are shared by exactly the same particle's records."""
import copy
import gc
import operator
import pickle

from sim.faults import Faults
from sim.kernel import Violation, harness
from sim.runner import Check
from xboa.bunch import Bunch
from xboa.core import Hitcore, WeightContext
from xboa.hit import Hit
from .state import ALIAS, ID_KEYS, some_ids, Record, Table, close, same

COMPARE = [operator.lt, operator.gt, operator.le, operator.ge, operator.eq, operator.ne]


class World(object):
    """one program: its tables, records and groups"""
    def __init__(self, name, ids):
        self.name = name
        self.ids = ids
        self.tables = [Table([Hitcore.get_weight_context()], name + "'s first table")]
        self.now = self.tables[0]
        self.records = []
        self.groups = []           # (Bunch, records)
        self.count = 0
        self.restoring = []        # {identity: values} being restored
        self.pause = None          # lets other clients run
        self.together = True       # one client sees the others' particles

    def restored(self):
        """weights that unfinished restores may have set in the table in force"""
        for pairs in self.restoring:
            for ident, value in pairs:
                self.now.maybe(ident, value)

    def own(self, name, client):
        self.count += 1
        return "%s%d of %s" % (name, self.count, client)


class Client(object):
    def __init__(self, check, sim, world, name, ids):
        self.check = check
        self.sim = sim
        self.ch = sim.ch
        self.w = world
        self.name = name
        self.ids = ids             # may touch these
        self.alone = world.together
        self.records = world.records if world.together else []
        self.groups = world.groups if world.together else []

    # ------------------------------------------------------------- checks
    def look(self, how):
        """the weights of all particles in all tables, and all records"""
        w = self.w
        with harness(self.sim):
            for table in w.tables:
                if not table.handle:
                    continue
                if self.alone and not same(table.handle[0].get_default_weight(),
                                           table.default):
                    raise Violation("wrong default", "%s: default of %s is %r instead of "
                                    "%r" % (how, table.name,
                                            table.handle[0].get_default_weight(),
                                            table.default))
                for ident in self.ids:
                    table.see(ident, table.handle[-1].get_weight(*ident), how)
            for r in self.records:
                r.check(how)
                w.now.see(r.ident, r.hit["global_weight"], how + " (by record)")
            w.restored()

    def weight_now(self, ident):
        """the weight in the table in force, which the model allows"""
        with harness(self.sim):
            hit = Hit()
            for k, v in zip(ID_KEYS, ident):
                hit[k] = v
            value = hit["global_weight"]
            self.w.now.see(ident, value, "a new record")
            self.w.restored()
        return value

    def value(self):
        ch = self.ch
        self.check.values += 1
        return ch.wpick([(self.check.values / 7., 6), (0., 1), (1., 1), (-2.5, 1),
                         (1e-12 * self.check.values, 0.5)])

    def ident(self):
        return self.ch.pick(self.ids)

    def record(self):
        return self.ch.pick(self.records) if self.records else self.make()

    # ------------------------------------------------------------- operations
    def make(self):
        ch = self.ch
        ident = self.ident()
        x = ch.between(-8, 8) / 4.
        local = ch.wpick([(1., 3), (0.5, 1), (0., 1), (2.25, 1)])
        r = Record(None, ident, local, x, self.w.own("r", self.name))
        items = [(ch.pick(ALIAS[k]), v) for k, v in zip(ID_KEYS, ident)]
        items += [("x", x), ("local_weight", local), ("pz", 200.), ("mass", 105.)]
        value = self.value() if ch.chance(0.4) else None
        if value is not None:
            items.append(("global_weight", value))
        items = ch.shuffled(items)
        if ch.chance(0.6):
            r.hit = Hit.new_from_dict(dict(items), ch.pick(["", "energy"]))
        else:
            r.hit = Hit()
            for k, v in items:
                if k != "global_weight":
                    r.hit.set(k, v)
            if value is not None:
                r.hit.set("global_weight", value)
        if value is not None:
            self.w.now.set(ident, value)
        self.records.append(r)
        return r

    def set_by_record(self):
        r = self.record()
        value = self.value()
        way = self.ch.n(3)
        if way == 0:
            r.hit["global_weight"] = value
        elif way == 1:
            r.hit.set("global_weight", value)
        else:
            r.hit.set_global_weight(value)
        self.w.now.set(r.ident, value)

    def set_by_table(self):
        ch = self.ch
        held = [t for t in self.w.tables if t.handle]
        if not held:
            return
        table = ch.pick(held)
        ident = self.ident()
        value = self.value()
        spill, event, particle = ident
        handle = ch.pick(table.handle)
        way = ch.n(3)
        if way == 0:
            handle.set_weight(value, spill, event, particle)
        elif way == 1:
            handle.set_weight(weight=value, particle_number=particle, event_number=event,
                              spill=spill)
        else:
            handle.set_weight(value, eventNumber=event, spill=spill,
                              particleNumber=particle)
        table.set(ident, value)

    def read(self):
        ch = self.ch
        r = self.record()
        total = ch.pick([lambda: r.hit["weight"], lambda: r.hit.get_weight()])()
        each = r.hit.get_global_weight()
        self.w.now.see(r.ident, each, "reading")
        if not close(total, each * r.local, abs(each * r.local), 1e-13):
            raise Violation("wrong total weight", "the total weight of %s is %r instead of "
                            "%r times %r" % (r.name, total, each, r.local))

    def set_local(self):
        r = self.record()
        r.local = self.value()
        if self.ch.chance(0.5):
            r.hit["local_weight"] = r.local
        else:
            r.hit.set_local_weight(r.local)

    def renumber(self):
        ch = self.ch
        r = self.record()
        ident = self.ident()
        for i in ch.shuffled(range(3)):
            r.hit[ch.pick(ALIAS[ID_KEYS[i]])] = ident[i]
        r.ident = ident

    def copies(self):
        ch = self.ch
        r = self.record()
        how = ch.n(4)
        saved = self.weight_now(r.ident)
        if how == 0:
            other = Record(r.hit.deepcopy(), r.ident, r.local, r.x,
                           self.w.own("copy", self.name))
        elif how == 1:
            other = Record(copy.deepcopy(r.hit), r.ident, r.local, r.x,
                           self.w.own("copy", self.name))
        elif how == 2:
            other = Record(Hit.new_from_dict(r.hit.dict_from_hit()), r.ident, r.local, r.x,
                           self.w.own("copy", self.name))
        else:
            saved = None
            other = r
            if r.hit.copy() is not r.hit:
                other = Record(r.hit.copy(), r.ident, r.local, r.x,
                               self.w.own("copy", self.name))
        if saved is not None:
            self.w.now.maybe(r.ident, saved)
        if other is not r:
            self.records.append(other)

    def destroy(self):
        if not self.records:
            return
        r = self.ch.pick(self.records)
        self.records.remove(r)
        # groups go on using the record
        if self.ch.chance(0.2):
            gc.collect()

    def save(self):
        """some records to a file"""
        ch = self.ch
        chosen = ch.subset(self.records, 0.5) or self.records[:1]
        self.check.files += 1
        name = "/data/%d" % self.check.files
        pairs = [(r.ident, self.weight_now(r.ident)) for r in chosen]
        data = pickle.dumps([r.hit for r in chosen], ch.pick([0, 2, 4]))
        facts = [(r.ident, r.local, r.x) for r in chosen]
        try:
            with open(name, "wb") as fout:
                fout.write(data)
        except OSError:
            return
        self.check.saved[name] = (pairs, facts)

    def restore(self):
        ch = self.ch
        names = sorted(n for n, (pairs, facts) in self.check.saved.items()
                       if all(p[0] in self.ids for p in pairs))
        if not names:
            return
        name = ch.pick(names)
        pairs, facts = self.check.saved[name]
        self.w.restoring.append(pairs)
        self.w.restored()
        try:
            with open(name, "rb") as fin:
                hits = pickle.load(fin)
        except Exception:
            self.w.restoring.remove(pairs)
            if not self.check.faults.fired:
                raise
            return
        self.w.restoring.remove(pairs)
        for hit, (ident, local, x) in zip(hits, facts):
            self.records.append(Record(hit, ident, local, x,
                                       self.w.own("restored", self.name)))

    def group(self):
        ch = self.ch
        chosen = ch.subset(self.records, 0.6)
        if not chosen:
            return
        how = ch.n(3)
        if how < 2:
            bunch = Bunch()
            for r in chosen:
                bunch.append(r.hit)
        if how > 0:
            saved = [(r.ident, self.weight_now(r.ident)) for r in chosen]
            if how == 1:
                bunch = bunch.deepcopy()
            else:
                bunch = Bunch.new_from_hits([r.hit for r in chosen])
            for ident, value in saved:
                self.w.now.maybe(ident, value)
            chosen = [Record(hit, r.ident, r.local, r.x, self.w.own("member", self.name))
                      for hit, r in zip(bunch.hits(), chosen)]
            self.records += chosen
        self.groups.append((bunch, chosen))
        if len(self.groups) > 3:
            self.groups.pop(0)

    def group_read(self):
        """totals and means use the table in force"""
        if not self.groups:
            return
        bunch, members = self.ch.pick(self.groups)
        weights = [r.local * self.weight_now(r.ident) for r in members]
        total = bunch.bunch_weight()
        scale = sum(map(abs, weights))
        if not scale < 1e100:
            return                  # too large for sums
        if not close(total, sum(weights), scale):
            raise Violation("wrong total of a group", "the weight of a group is %r instead "
                            "of %r" % (total, sum(weights)))
        if scale > 1e-6 and abs(sum(weights)) > 1e-3 * scale:
            mean = bunch.mean(["x"])["x"]
            mine = sum(w * r.x for w, r in zip(weights, members)) / sum(weights)
            if not close(mean, mine, 2000., 1e-9):
                raise Violation("wrong mean of a group", "the mean of x is %r instead of "
                                "%r with weights %r" % (mean, mine, weights))

    def group_cut(self):
        ch = self.ch
        if not self.groups:
            return
        bunch, members = ch.pick(self.groups)
        if not self.alone and any(r.ident not in self.ids for r in members):
            return
        compare = ch.pick(COMPARE)
        limit = ch.between(-8, 8) / 4.
        variable = ch.pick(["x", "spill"])
        if variable == "spill":
            limit = ch.n(4)
        everywhere = ch.chance(0.7)
        hit = [r for r in members
               if compare(r.x if variable == "x" else r.ident[0], limit)]
        bunch.cut({variable: limit}, compare, global_cut=everywhere)
        for r in hit:
            if everywhere:
                self.w.now.set(r.ident, 0.)
            else:
                r.local = 0.

    def group_match(self):
        """transmission cut between two groups"""
        ch = self.ch
        if not self.groups:
            return
        bunch, members = ch.pick(self.groups)
        other, others = ch.pick(self.groups)
        idents = set(r.ident for r in others)
        saved = [(r, self.weight_now(r.ident)) for r in members]
        everywhere = ch.chance(0.7)
        bunch.transmission_cut(other, everywhere)
        for r, value in saved:
            if r.ident not in idents:
                if everywhere:
                    self.w.now.set(r.ident, 0.)
                else:
                    r.local = 0.
            elif everywhere:
                self.w.now.maybe(r.ident, value)

    def fail(self):
        """an operation that sets nothing"""
        ch = self.ch
        r = self.record()
        held = [t for t in self.w.tables if t.handle]
        handle = held[0].handle[0] if held else Hitcore.get_weight_context()
        way = ch.n(5)
        try:
            if way == 0:
                handle.set_weight("heavy", *self.ident())
            elif way == 1:
                handle.set_weight(1., 2, 3, "four")
            elif way == 2:
                Hitcore.set_weight_context(ch.pick([None, 1., "table", r.hit]))
            elif way == 3:
                handle.set_weight(3., spil=1)
            else:
                handle.get_weight("one")
        except (TypeError, KeyError, ValueError, SystemError):
            return
        raise Violation("no error", "an operation that cannot work (%d) raised no error"
                        % way)

    # only one client, or between rounds
    def new_table(self):
        ch = self.ch
        w = self.w
        if len(w.tables) > 3:
            return
        table = Table([WeightContext()], w.own("table", self.name))
        w.tables.append(table)
        if ch.chance(0.3):
            table.default = self.value()
            table.handle[0].set_default_weight(table.default)
        if ch.chance(0.7):
            self.use(table)

    def use(self, table):
        handle = self.ch.pick(table.handle)
        Hitcore.set_weight_context(handle)
        if not self.w.now.handle and self.w.now is not table:
            self.w.tables.remove(self.w.now)
        self.w.now = table

    def switch(self):
        held = [t for t in self.w.tables if t.handle]
        if held:
            self.use(self.ch.pick(held))

    def handle(self):
        """a further handle of the table in force"""
        now = self.w.now
        if len(now.handle) < 3:
            now.handle.append(Hitcore.get_weight_context())

    def drop(self):
        """drop a handle of a table; the table goes with the last unless in force"""
        ch = self.ch
        w = self.w
        table = ch.pick(w.tables)
        if table.handle:
            table.handle.pop(ch.n(len(table.handle)))
        if not table.handle and table is not w.now:
            w.tables.remove(table)
        if ch.chance(0.3):
            gc.collect()

    def default(self):
        held = [t for t in self.w.tables if t.handle]
        if held:
            table = self.ch.pick(held)
            value = self.value()
            table.handle[0].set_default_weight(value)
            table.default = value

    def clear(self):
        ch = self.ch
        way = ch.n(4)
        if way == 0:
            Hit.clear_global_weights()
        elif way == 1:
            Bunch.clear_global_weights()
        elif way == 2:
            Hitcore.clear_global_weights()
        else:
            if not self.groups:
                return
            bunch, members = ch.pick(self.groups)
            bunch.clear_weights()
            for r in members:
                r.local = 1.
        self.w.now.clear()

    def clear_local(self):
        if self.groups:
            bunch, members = self.ch.pick(self.groups)
            bunch.clear_local_weights()
            for r in members:
                r.local = 1.

    OWN = [("make", 4), ("set_by_record", 5), ("set_by_table", 3), ("read", 2),
           ("set_local", 1), ("renumber", 3), ("copies", 3), ("destroy", 2), ("save", 1),
           ("restore", 2), ("group", 2), ("group_read", 2), ("group_cut", 2),
           ("group_match", 1), ("fail", 1), ("clear_local", 0.5)]
    SHARED = [("new_table", 1.5), ("switch", 2), ("handle", 1), ("drop", 1),
              ("default", 0.7), ("clear", 1)]

    def step(self, ops):
        name = self.ch.wpick(ops)
        self.sim.log("OP %s %s" % (self.name, name))
        self.w.restored()
        getattr(self, name)()
        self.w.restored()
        self.check.done.add(name)
        self.sim.point("do " + name)
        self.look("after " + name)

    def work(self, steps, ops):
        for _ in range(steps):
            self.step(ops)


class S01(Check):
    client = Client

    def scenario(self, sim):
        ch = sim.ch
        sim.summary = []
        sim.isolate_weights = True
        sim.fs.short = ch.chance(0.4)
        sim.fs.block = ch.pick([64, 256, 8192])
        sim.quanta = ch.pick([[1, 2, 4, 8, 16], [1, 1, 2, 3]])
        self.values = self.files = 0
        self.saved = {}
        self.done = set()
        sim.fs.h_mkdir("/data")
        self.faults = Faults(sim, ch.subset(("eio", "enospc", "eacces"), 0.2), 2)
        ids = some_ids(ch, 2, 8)
        if ch.chance(0.6):
            self.by_operation(sim, ids)
        else:
            self.by_line(sim, ids)
        self.faults.stop()
        sim.nontrivial = len(self.done & set(["renumber", "copies", "restore", "switch",
                                              "clear", "group_cut", "drop"])) > 1

    def by_operation(self, sim, ids):
        """programs with several clients that share records and tables"""
        ch = sim.ch
        for life in range(ch.wpick([(1, 3), (2, 2)])):
            tasks = []
            for k in range(ch.wpick([(1, 3), (2, 1)])):
                proc = sim.new_proc("program%d%d" % (life, k), None, sim.current.proc,
                                    start_task=False)
                tasks.append(sim.new_task(proc, lambda k=k: self.program(sim, life, k, ids),
                                          "main"))
                if ch.chance(0.2):
                    sim.at(sim.now + ch.n(40) * sim.tick, lambda p=proc: sim.kill(p, -9))
            sim.wait(lambda: all(t.done for t in tasks), None, "programs")
            self.raised(tasks)

    def raised(self, tasks):
        for t in tasks:
            if t.exc is not None and type(t.exc).__name__ != "SimKilled":
                raise t.exc

    def program(self, sim, life, k, ids):
        ch = sim.ch
        world = World("program%d%d" % (life, k), ids)
        tasks = []
        for c in range(ch.wpick([(1, 2), (2, 2), (3, 1)])):
            client = self.client(self, sim, world, "p%d%dc%d" % (life, k, c), ids)
            steps = ch.many(3, 14, 80)
            tasks.append(sim.new_task(sim.current.proc, lambda client=client, steps=steps:
                                      client.work(steps, client.OWN + client.SHARED),
                                      client.name))
        sim.wait(lambda: all(t.done for t in tasks), None, "clients")
        self.raised(tasks)
        Client(self, sim, world, "end", ids).look("at the end")

    def by_line(self, sim, ids):
        """clients with their own particles that are preempted at any line"""
        ch = sim.ch
        world = World("program", ids)
        world.together = False
        n = min(len(ids), ch.wpick([(2, 3), (3, 1)]))
        parts = [ids[i::n] for i in range(n)]
        clients = [Client(self, sim, world, "c%d" % i, part)
                   for i, part in enumerate(parts)]
        sim.max_steps = 400000
        for round_ in range(ch.between(1, 3)):
            tasks = []
            sim.trace_lines = True
            for client in clients:
                tasks.append(sim.new_task(
                    sim.current.proc, lambda client=client, steps=ch.between(2, 7):
                    client.work(steps, Client.OWN), client.name))
            sim.wait(lambda: all(t.done for t in tasks), None, "clients")
            sim.trace_lines = False
            self.raised(tasks)
            for client in clients:
                client.look("after the round")
            boss = ch.pick(clients)
            for _ in range(ch.n(4)):
                name = ch.wpick(Client.SHARED)
                getattr(boss, name)()
                self.done.add(name)
                for client in clients:
                    client.look("after " + name)


CHECK = S01()
