"""P02: background processes are tracked and all killed on request and at exit."""
import os
import subprocess
import sys
import time

from sim import isolate, procs, seams
from sim.faults import Faults
from sim.kernel import SimKilled, Violation, current_sim, harness
from sim.runner import Check

SOON = 5.0


class Started(object):
    """a launch that succeeded"""
    def __init__(self, proc, token, handle, seconds, fails):
        self.proc = proc
        self.token = token
        self.handle = handle
        self.seconds = seconds
        self.fails = fails


def background(token, seconds, fails, *rest):
    sim = current_sim()
    proc = sim.current.proc
    sim.ran.append((proc.pid, proc, token, rest))
    sim.point("background")
    end = sim.now + seconds
    while sim.now < end:
        time.sleep(min(20., end - sim.now))
    if fails:
        raise ValueError("background function failed")


def stranger(sim, proc, argv):
    seconds = float(argv[1])
    end = sim.now + seconds
    while sim.now < end:
        time.sleep(min(20., end - sim.now))


class P02(Check):
    def prepare(self):
        import xboa.common
        self.ours_first = seams.mp_exits_last("xboa.")

    def scenario(self, sim):
        ch = sim.ch
        sim.summary = []
        sim.ran = []
        self.launched = {}
        self.nlaunch = 0
        self.tokens = 0
        self.expected = []
        sim.commands["stranger"] = stranger
        sim.tick = ch.pick([0.001, 0.0001, 0.01])
        sim.quanta = ch.pick([[1, 2, 4, 8, 16], [1, 1, 2, 3], [8, 32, 64]])
        if ch.chance(0.5):
            sim.pid_apart = True
            sim.pid_limit = sim.next_pid + ch.between(2, 8)
        sim.signal_delay = ch.pick([0, 0, 0, 0.3])
        self.new = []
        sim.spawn_hooks.append(lambda proc, args: self.new.append(proc))
        Faults(sim, ch.subset(("spawn",), 0.4), 3)
        tasks = []
        for k in range(ch.wpick([(1, 3), (2, 2)])):
            proc = sim.new_proc("program%d" % k, None, sim.current.proc, start_task=False)
            with harness(sim):
                seams.CAPTURE = []
                overlay = isolate.Overlay("xboa.common")
                overlay.install()
                try:
                    import xboa.common
                    overlay.save()
                finally:
                    overlay.remove()
                    proc.tags["atexit"] = seams.CAPTURE
                    seams.CAPTURE = None
                proc.modules = overlay
            tasks.append((proc, sim.new_task(
                proc, lambda proc=proc: self.whole(sim, proc), proc.name)))
        sim.wait(lambda: all(t.done for p, t in tasks), None, "programs")
        for p, t in tasks:
            if t.exc is not None and not isinstance(t.exc, SimKilled):
                raise t.exc
        self.check_ran(sim)
        for p, t in tasks:
            p.modules.drop()
            p.tags.clear()
        sim.nontrivial = self.nlaunch > 1

    def check_ran(self, sim):
        for p in self.new:
            if p.tags.get("child_returned"):
                raise Violation("once", "%s goes on in the caller's program after the "
                                "function has ended" % p)
        for e in self.expected:
            runs = [r for r in sim.ran if r[1] is e.proc]
            if len(runs) > 1 or (not runs and not e.killed_early):
                raise Violation("once", "the function of %s was executed %d times" % (
                    e.proc, len(runs)))
            if runs and (runs[0][2] is not e.token or runs[0][3] != e.rest):
                raise Violation("once", "%s got other arguments" % e.proc)
        if len([r for r in sim.ran if r[1] not in [e.proc for e in self.expected]]):
            raise Violation("once", "the function was executed in a process that was "
                            "not launched for it")

    # ------------------------------------------------------------- a program
    def whole(self, sim, proc):
        ch = sim.ch
        common = sys.modules["xboa.common"]
        packages = common.config.PACKAGES
        me = proc
        style = ch.pick(["mp", "mp", "fork", "none"])
        packages["multiprocessing"] = style == "mp"
        packages["root"] = style == "none" or (style == "mp" and ch.chance(0.5))
        self.mine = getattr(self, "mine", {})
        mine = []
        strangers = []
        for step in range(ch.many(1, 9, 40)):
            op = ch.wpick([("launch", 6), ("pass", 2), ("collect", 2), ("kill_all", 2),
                           ("stranger", 1), ("look", 1), ("external", 0.5)])
            if op == "launch":
                self.launch(sim, common, mine, style, packages)
            elif op == "pass":
                time.sleep(ch.pick([0.1, 1., 4.]))
            elif op == "collect" and mine:
                self.collect(sim, ch.pick(mine))
            elif op == "kill_all":
                self.kill_all(sim, common, mine, strangers)
            elif op == "stranger":
                self.stranger(sim, strangers, packages)
            elif op == "look" and mine:
                self.look(sim, ch.pick(mine))
            elif op == "external" and mine:
                e = ch.pick(mine)
                if not e.proc.dead:
                    e.killed_early = True
                    sim.count("external_kill")
                    sim.signal(e.proc, 9)
        self.leave(sim, common, mine, strangers)

    def launch(self, sim, common, mine, style, packages):
        ch = sim.ch
        me = sim.current.proc
        seconds = ch.pick([0., 0.5, 2., 1e6, 1e6])
        fails = ch.chance(0.2)
        self.tokens += 1
        token = "token%d" % self.tokens
        rest = tuple(range(ch.n(3)))
        self.nlaunch += 1
        nfaults = len(sim.faults.fired)
        nproc = len(self.new)
        try:
            handle = procs.forkable(sim, lambda: common.subprocess(
                background, (token, seconds, fails) + rest))
        except Exception as exc:
            exc.__traceback__ = None
            handle = None
            error = exc
        made = [p for p in self.new[nproc:] if p.parent is me]
        faulted = any(f[3] is me for f in sim.faults.fired[nfaults:])
        sim.log("launch: %r" % (handle,))
        with harness(sim):
            sim.summary.append("%s: launch by %s for %g s: %s" % (
                me, style, seconds, handle if handle is not None else repr(error)))
            if handle is None:
                if made:
                    raise Violation("launch", "%r was raised, but %s is running" % (
                        error, made))
                if style == "none":
                    if not isinstance(error, ImportError):
                        raise Violation("refused", "%r instead of ImportError" % error)
                elif not faulted:
                    raise Violation("launch", "failed without a cause: %r" % error)
                return
            if style == "none":
                raise Violation("refused", "forked by hand with ROOT loaded")
            if len(made) != 1:
                raise Violation("launch", "%d processes were made" % len(made))
            proc = made[0]
            if proc.role == "forked" and packages["root"]:
                raise Violation("refused", "forked by hand with ROOT loaded")
            pid = handle if isinstance(handle, int) else handle.pid
            if pid != proc.pid:
                raise Violation("launch", "the handle is for process %s, not %s" % (
                    pid, proc))
            e = Started(proc, token, handle, seconds, fails)
            e.rest = rest
            e.killed_early = False
            mine.append(e)
            self.expected.append(e)

    def look(self, sim, e):
        if isinstance(e.handle, int):
            return
        try:
            alive = e.handle.is_alive()
        except ValueError:
            return                       # closed
        if alive and e.proc.dead:
            raise Violation("launch", "a dead process is reported as running")

    def collect(self, sim, e):
        """the caller waits for the process to end, or asks whether it has"""
        patience = sim.ch.pick([None, 3.])
        if isinstance(e.handle, int):
            if e.seconds > 100. or patience is not None:
                try:
                    os.waitpid(e.handle, os.WNOHANG)
                except OSError:
                    pass
            else:
                try:
                    os.waitpid(e.handle, 0)
                except OSError:
                    pass
        else:
            try:
                e.handle.join(3. if e.seconds > 100. else patience)
                if e.proc.dead and sim.ch.chance(0.6):
                    e.handle.close()
            except ValueError:
                pass

    def stranger(self, sim, strangers, packages):
        ch = sim.ch
        try:
            p = subprocess.Popen(["stranger", "1e6" if ch.chance(0.7) else "1"])
        except OSError:
            return
        strangers.append(p)

    def kill_all(self, sim, common, mine, strangers):
        live = [e for e in mine if not e.proc.dead]
        ran = [r[1] for r in sim.ran]
        for e in live:
            if e.proc not in ran:
                e.killed_early = True
        before = len(sim.signals)
        n = sim.ch.pick([1, 1, 2])
        for k in range(n):
            common.kill_all_subprocesses()
        end = sim.now + SOON
        sim.wait(lambda: all(e.proc.dead for e in mine), SOON, "settle")
        with harness(sim):
            sim.summary.append("%s: kill all: %d were running" % (
                sim.current.proc, len(live)))
            for e in mine:
                if not e.proc.dead:
                    raise Violation("survivor", "%s is still running after "
                                    "kill_all_subprocesses()" % e.proc)
            self.check_strangers(sim, before, mine)

    def check_strangers(self, sim, before, mine):
        me = sim.current.proc
        ours = [e.proc for e in mine]
        for sender, receiver, number in sim.signals[before:]:
            if sender is me and receiver not in ours:
                raise Violation("stranger", "%s got signal %d, though it was not "
                                "launched through the library" % (receiver, number))

    def leave(self, sim, common, mine, strangers):
        """the program ends in the ordinary way"""
        ch = sim.ch
        me = sim.current.proc
        keep = ch.chance(0.25)
        if keep:
            common.kill_subprocesses_at_exit = False
            if any(e.seconds > 100. and not e.proc.dead for e in mine):
                # multiprocessing would wait for them
                self.kill_all(sim, common, mine, strangers)
        live = [e for e in mine if not e.proc.dead]
        ran = [r[1] for r in sim.ran]
        for e in live:
            if e.proc not in ran:
                e.killed_early = True
        before = len(sim.signals)
        hooks = list(reversed(me.tags.get("atexit", [])))
        done = [False]
        start = sim.now

        def mp_hook():
            procs.mp_exit(sim, me)
        sequence = [lambda h=h: h[0](*h[1], **h[2]) for h in hooks]
        if self.ours_first:
            sequence.append(mp_hook)
        else:
            sequence.insert(0, mp_hook)

        if not keep:
            sim.at(sim.now + SOON * 4, lambda: self.late(sim, done, me))
        for fn in sequence:
            try:
                fn()
            except Exception as exc:         # is printed, the next one runs
                exc.__traceback__ = None
                raise Violation("exit", "%r at exit" % exc)
        done[0] = True
        if not keep:
            sim.wait(lambda: all(e.proc.dead for e in mine), SOON, "settle")
        with harness(sim):
            sim.summary.append("%s: exit%s: %d were running" % (
                me, " without killing" if keep else "", len(live)))
            if keep:
                for e in live:
                    if e.proc.dead and e.proc.exitcode < 0 and not e.killed_early:
                        raise Violation("exit", "%s was killed though kill_subprocesses_"
                                        "at_exit is off" % e.proc)
            else:
                for e in mine:
                    if not e.proc.dead:
                        raise Violation("survivor", "%s is still running after exit" %
                                        e.proc)
            self.check_strangers(sim, before, mine)

    def late(self, sim, done, me):
        if not done[0] and not me.dead:
            sim._limit("the program has not ended %g s after it was to exit" % (SOON * 4))


CHECK = P02()
