"""
The simulator kernel: simulated processes and their tasks, one of which runs at
a time, the simulated clock, signals, timed events and the scheduler.

Tasks are real threads parked on locks; which one runs next is always decided
here, from the Choices of the run.  Control can pass from one task to another
only in Sim.point(), sleep() and wait(), which every seam calls.
"""
import _thread
import io
import sys
import zlib

get_ident = _thread.get_ident

# operations that change nothing: a task that does only these is polling
POLLS = frozenset(["poll", "clock", "is_alive", "exitcode", "sleep", "yield", "waitpid",
                   "waitid", "ready", "stat", "queue.empty", "queue.get", "queue.qsize",
                   "wait", "spin"])


class SimKilled(BaseException):
    """The simulated process that runs this code was killed"""


class Violation(BaseException):
    """The property does not hold; raised by the oracles"""
    def __init__(self, kind, message):
        BaseException.__init__(self, kind, message)
        self.kind = kind
        self.message = message


class HarnessError(BaseException):
    """The harness is broken; never a verdict on the code under test"""


ACTIVE = None  # the Sim that is running, if any


def current_sim():
    """the running Sim if this code is run by its current task, outside of
    harness sections; else None"""
    s = ACTIVE
    if s is None or s.harness_depth or get_ident() != s.current.ident:
        return None
    return s


class Proc(object):
    def __init__(self, sim, pid, name, parent=None):
        self.sim = sim
        self.pid = pid
        self.name = name
        self.parent = parent
        self.cwd = "/home"
        self.argv = [name]
        self.tasks = []
        self.killed = False     # no more side effects
        self.dead = False
        self.reaped = False
        self.exitcode = None
        self.ignore_term = False
        self.stdout = io.StringIO()
        self.stderr = io.StringIO()
        self.modules = None      # private modules, if any
        self.main_module = None
        self.wctx = None
        self.exit_hooks = []
        self.role = name
        self.start_time = sim.now
        self.end_time = None
        self.umask = 0o22
        self.tags = {}

    def __repr__(self):
        return "%s[%d]" % (self.name, self.pid)


class Task(object):
    __slots__ = ["proc", "fn", "gate", "ident", "done", "wake", "pred",
                 "stale", "unwinder", "interrupt", "exc", "result", "index", "started",
                 "name"]

    def __init__(self, proc, fn, index, name):
        self.proc = proc
        self.fn = fn
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.ident = None
        self.done = False
        self.stale = 0
        self.wake = None
        self.pred = None
        self.unwinder = None
        self.interrupt = None
        self.exc = None
        self.result = None
        self.index = index
        self.started = False
        self.name = name


_crc = {}


def _hash(op):
    v = _crc.get(op)
    if v is None:
        v = _crc[op] = zlib.crc32(op.encode())
    return v


class Sim(object):
    def __init__(self, ch, record=False):
        self.ch = ch
        self.record = record
        self.events_log = []       # for the replay file
        self.now = 0.0
        self.wall0 = 1.5e9
        self.wall_offset = 0.0
        self.tick = 0.001
        self.steps = 0
        self.max_steps = 60000
        self.procs = {}
        self.next_pid = 1000
        self.pid_apart = False      # not for another child of the same program
        self.pid_limit = None       # reuse numbers above this one
        self.tasks = []
        self.ntasks = 0
        self.current = None
        self.main = None
        self.harness_depth = 0
        self.timed = []             # (time, seq, fn)
        self.seq = 0
        self.sig = 0
        self.switches = 0
        self.quantum = 0
        self.quanta = [1, 2, 4, 8, 16]
        self.idle = 0
        self.poll_step = 0.5
        self.fault_counts = {}
        self.probes = {}
        self.trace_lines = False
        self.limit_hit = None
        self.installed = None
        self.base_stdout = sys.stdout
        self.base_argv = sys.argv
        self.finished = _thread.allocate_lock()
        self.finished.acquire()
        self.unwound = 0
        self.noise_state = 12345
        self.fs = None
        self.faults = None
        self.signal_delay = 0
        self.commands = {}
        self.isolate_weights = False
        self.spawn_hooks = []
        self.signals = []           # (sender, receiver, number) sent by programs
        self.on_idle = None
        self.components = set()
        self.teardown_done = False

    # ------------------------------------------------------------- bookkeeping
    def noise(self, n):
        """cheap derived numbers that need no entry of their own in the log"""
        self.noise_state = (self.noise_state * 6364136223846793005 +
                            1442695040888963407) & 0xffffffffffffffff
        return (self.noise_state >> 33) % n

    def count(self, kind):
        self.fault_counts[kind] = self.fault_counts.get(kind, 0) + 1

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def log(self, what):
        if self.record:
            t = self.current
            if len(self.events_log) < 4000:
                self.events_log.append("%6d %10.4f %s/%s: %s" % (
                    self.steps, self.now, t.proc if t else "-",
                    t.name if t else "-", what))

    def time(self):
        return self.wall0 + self.now + self.wall_offset

    # ------------------------------------------------------------- processes
    def new_pid(self, parent=None):
        if self.pid_limit is not None and self.next_pid >= self.pid_limit:
            for p in sorted(self.procs):
                if self.procs[p].dead and self.procs[p].reaped and \
                        (parent is None or self.procs[p].parent is not parent or
                         not self.pid_apart):
                    self.probe("pid_reused")
                    return p
        self.next_pid += 1
        return self.next_pid

    def new_proc(self, name, fn, parent=None, start_task=True):
        pid = self.new_pid(parent)
        proc = Proc(self, pid, name, parent)
        if parent is not None:
            proc.cwd = parent.cwd
            proc.stdout = parent.stdout
            proc.wctx = None
        self.procs[pid] = proc
        if start_task:
            self.new_task(proc, fn, name)
        return proc

    def new_task(self, proc, fn, name):
        self.ntasks += 1
        t = Task(proc, fn, self.ntasks, name)
        proc.tasks.append(t)
        self.tasks.append(t)
        _thread.start_new_thread(self._body, (t,))
        return t

    def _body(self, t):
        t.ident = get_ident()
        t.gate.acquire()
        try:
            if not (t.proc.killed or t.interrupt):
                t.started = True
                if self.trace_lines:
                    sys.settrace(self._tracer)
                t.result = t.fn()
        except SimKilled:
            pass
        except BaseException as exc:
            t.exc = exc
        finally:
            sys.settrace(None)
        self._ended(t)

    def _ended(self, t):
        t.done = True
        t.fn = None
        self.tasks.remove(t)
        if t.unwinder is not None:
            back = t.unwinder
            t.unwinder = None
            self._hand_over(back)
            return
        if t is self.main:
            self._teardown()
            self.finished.release()
            return
        proc = t.proc
        if not proc.dead and not proc.killed and all(x.done for x in proc.tasks):
            self._exit(proc, proc.exitcode if proc.exitcode is not None else 0)
        nxt = self._choose()
        self._hand_over(nxt)

    def _hand_over(self, t):
        self.current = t
        self._install(t.proc)
        t.gate.release()

    def _exit(self, proc, code):
        proc.exitcode = code
        proc.dead = True
        proc.end_time = self.now
        self.log("process %s ends with exit code %s" % (proc, code))
        for hook in proc.exit_hooks:
            hook(proc)

    def kill(self, proc, code):
        """end proc immediately; does not return if it is the caller's own"""
        if proc.dead or proc.killed:
            return
        self.log("process %s is killed (%s)" % (proc, code))
        proc.killed = True
        me = self.current
        for t in list(proc.tasks):
            if not t.done and t is not me:
                self._unwind(t)
        self._exit(proc, code)
        if me.proc is proc and me is not self.main:
            raise SimKilled()
        if me.proc is proc:
            raise SimKilled()

    def _unwind(self, t):
        me = self.current
        t.unwinder = me
        self.unwound += 1
        self._hand_over(t)
        me.gate.acquire()
        # back: current and installed are restored by _ended

    def signal(self, proc, signum):
        """as kill(2)"""
        if proc.dead:
            return
        def deliver(proc=proc, signum=signum):
            if proc.dead:
                return
            if signum == 9:
                self.kill(proc, -9)
            elif signum == 15:
                if proc.ignore_term:
                    self.count("sigterm_ignored")
                else:
                    self.kill(proc, -15)
            elif signum in (2, 1, 3, 6, 11, 14, 10, 12, 13):
                self.kill(proc, -signum)
        if self.signal_delay:
            self.at(self.now + self.signal_delay, deliver)
        else:
            deliver()

    # ------------------------------------------------------------- time
    def at(self, when, fn):
        self.seq += 1
        self.timed.append((when, self.seq, fn))
        self.timed.sort(key=lambda x: x[:2])

    def _due(self):
        while self.timed and self.timed[0][0] <= self.now:
            _, _, fn = self.timed.pop(0)
            fn()

    # ------------------------------------------------------------- scheduling
    def _check(self, t):
        if t.proc.killed:
            raise SimKilled()
        if t.interrupt is not None:
            exc = t.interrupt
            t.interrupt = None
            raise exc

    def point(self, op):
        """a place where other tasks may run; every seam comes through here"""
        if self.harness_depth:
            return
        t = self.current
        if t.proc.killed:
            raise SimKilled()
        self.steps += 1
        self.now += self.tick
        self.sig = ((self.sig * 1000003) ^ _hash(op) ^ t.index) & 0xffffffffffffffff
        if self.record:
            self.log(op)
        if self.steps > self.max_steps:
            self._limit("more than %d steps" % self.max_steps)
            self._check(t)
        if op in POLLS:
            t.stale += 1
            if t.stale > 24 and t.stale & 3 == 0 and self._all_poll(t):
                # everybody sleeps or polls: let time pass ever faster, so that
                # they need not poll very often
                self.idle += 1
                self.now += min(self.poll_step, self.tick * 2 ** min(20, self.idle))
        else:
            t.stale = 0
            self.idle = 0
        if self.timed:
            self._due()
            self._check(t)
        self.quantum -= 1
        if self.quantum <= 0 and len(self.tasks) > 1:
            if self._others(t):
                self.quantum = self.quanta[self.ch.n(len(self.quanta))]
                nxt = self._choose()
                self._to(nxt)
            else:
                self.quantum = 4
        if t.interrupt is not None or t.proc.killed:
            self._check(t)

    def _all_poll(self, me):
        for x in self.tasks:
            if x is me or x.stale > 8:
                continue
            if x.pred is not None:
                if x.pred():
                    return False
            elif x.wake is None or x.interrupt is not None:
                return False
        return True

    def _others(self, t):
        for x in self.tasks:
            if x is not t and self._ready(x):
                return True
        return False

    def _limit(self, what):
        if self.limit_hit is None:
            self.limit_hit = what
        violation = Violation("liveness", "no end in sight: " + what)
        if self.current is self.main:
            raise violation
        self.main.interrupt = violation
        self._to(self.main)
        raise SimKilled()

    def _ready(self, t):
        if t.interrupt is not None:
            return True
        if t.wake is not None and t.wake <= self.now:
            return True
        if t.pred is not None:
            return bool(t.pred())
        return t.wake is None

    def _choose(self):
        """the next task to run; moves the clock if all are asleep"""
        while True:
            if self.timed:
                self._due()
            ready = [t for t in self.tasks if t.unwinder is None and self._ready(t)]
            if ready:
                if len(ready) == 1:
                    return ready[0]
                # in rotation, starting after the current task
                cur = self.current.index
                ready.sort(key=lambda t: (t.index <= cur, t.index))
                self.probe("choice_of_%d" % min(len(ready), 5))
                return ready[self.ch.n(len(ready))]
            times = [t.wake for t in self.tasks if t.wake is not None]
            if self.timed:
                times.append(self.timed[0][0])
            if not times:
                if self.main.interrupt is None:
                    self.limit_hit = "deadlock"
                    self.main.interrupt = Violation(
                        "liveness", "deadlock: every task waits for another")
                continue
            self.now = max(self.now, min(times))

    def _to(self, nxt):
        me = self.current
        if nxt is me:
            return
        self.switches += 1
        self.sig = ((self.sig * 1000003) ^ nxt.index) & 0xffffffffffffffff
        self._hand_over(nxt)
        me.gate.acquire()

    def sleep(self, dt, op="sleep"):
        self.point(op)
        t = self.current
        t.wake = self.now + max(0.0, dt)
        try:
            self._to(self._choose())
        finally:
            t.wake = None
        self._check(t)

    def wait(self, pred, timeout=None, op="wait"):
        """block until pred() or timeout; returns pred()"""
        self.point(op)
        t = self.current
        if pred():
            return True
        if timeout is not None:
            t.wake = self.now + max(0.0, timeout)
        t.pred = pred
        try:
            self._to(self._choose())
        finally:
            t.wake = None
            t.pred = None
        self._check(t)
        return bool(pred())

    def yield_all(self, seconds=0.0):
        """let other tasks run (harness)"""
        self.sleep(seconds, "yield")

    # ------------------------------------------------------------- contexts
    def _install(self, proc):
        old = self.installed
        if old is proc:
            return
        self.installed = proc
        sys.stdout = proc.stdout
        sys.stderr = proc.stderr
        sys.argv = proc.argv
        om = old.modules if old is not None else None
        if proc.modules is not om:
            if om is not None:
                om.save()
                om.remove()
            if proc.modules is not None:
                proc.modules.install()
        if self.isolate_weights:
            from xboa.core import Hitcore
            if old is not None:
                old.wctx = Hitcore.get_weight_context()
            if proc.wctx is None:
                proc.wctx = self.new_weight_context()
            Hitcore.set_weight_context(proc.wctx)

    def new_weight_context(self):
        from xboa.core import WeightContext
        return WeightContext()

    def _teardown(self):
        """main has ended: end everything else"""
        me = self.main
        # a dead 'main' still has to be able to drive the unwinding
        for proc in sorted(self.procs.values(), key=lambda p: p.pid):
            proc.killed = True
        for t in list(self.tasks):
            if not t.done:
                self._unwind(t)
        self.teardown_done = True
        base = self.base
        self._install(base)

    def _tracer(self, frame, event, arg):
        code = frame.f_code
        fn = code.co_filename
        if not fn.startswith("/repo/xboa") or code.co_name == "<module>":
            return None
        return self._local

    def _local(self, frame, event, arg):
        if event == "line" and self.harness_depth == 0 and \
                self.current.ident == get_ident() and not self.current.proc.killed:
            self.point("line")
        return self._local

    # ------------------------------------------------------------- running
    def run(self, fn):
        """run fn as the main task of the first process; returns its result"""
        global ACTIVE
        if ACTIVE is not None:
            raise HarnessError("nested simulation")
        self.base = Proc(self, 1, "base")
        self.base.stdout = sys.stdout
        self.base.stderr = sys.stderr
        self.base.argv = sys.argv
        self.installed = self.base
        if self.isolate_weights:
            from xboa.core import Hitcore
            self.base.wctx = Hitcore.get_weight_context()
        client = Proc(self, self.new_pid(), "client")
        self.procs[client.pid] = client
        self.client = client
        ACTIVE = self
        try:
            self.main = self.new_task(client, fn, "main")
            self._hand_over(self.main)
            self.finished.acquire()
        finally:
            ACTIVE = None
        if self.main.exc is not None:
            raise self.main.exc
        return self.main.result


class harness(object):
    """with harness(sim): code in here bypasses the seams"""
    __slots__ = ["sim"]

    def __init__(self, sim):
        self.sim = sim

    def __enter__(self):
        self.sim.harness_depth += 1

    def __exit__(self, *args):
        self.sim.harness_depth -= 1
