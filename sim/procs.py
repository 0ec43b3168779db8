"""
Simulated processes: subprocess.Popen, multiprocessing (Process, Pool, Manager,
Queue), os.fork and friends.  The functions and scripts they run are the real
ones; the operating system's part is played by the kernel.
"""
import errno
import io
import os
import pickle
import signal
import subprocess
import sys
import traceback
import weakref

from . import kernel
from .kernel import current_sim, SimKilled, HarnessError, Violation


def spawn_point(sim, what):
    """seam: launching a process, which may fail"""
    sim.point("spawn")
    if sim.faults is not None:
        sim.faults.at_op("spawn", what, ("spawn",))


def run_program(sim, proc, fn):
    """body of a simulated program: exit codes and tracebacks as usual"""
    try:
        r = fn()
        code = 0
    except SystemExit as exc:
        if exc.code is None:
            code = 0
        elif isinstance(exc.code, int):
            code = exc.code & 0xff
        else:
            code = 1
    except SimKilled:
        raise
    except (Violation, HarnessError):
        raise
    except BaseException as exc:
        if proc.killed:
            raise SimKilled()
        proc.tags["traceback"] = traceback.format_exc()
        exc.__traceback__ = None
        exc.__context__ = None
        exc.__cause__ = None
        del exc
        code = 1
    if proc.exitcode is None:
        proc.exitcode = code


# ---------------------------------------------------------------- subprocess
class Pipe(object):
    def __init__(self, data=b""):
        self.data = data


class SimPopen(object):
    """stands for subprocess.Popen in a simulation"""

    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None,
                 stderr=None, preexec_fn=None, close_fds=True, shell=False,
                 cwd=None, env=None, universal_newlines=None, startupinfo=None,
                 creationflags=0, restore_signals=True, start_new_session=False,
                 pass_fds=(), **kw):
        sim = self.sim = current_sim()
        self.returncode = None
        self.stdin = self.stdout = self.stderr = None
        text = kw.pop("text", None) or universal_newlines or kw.get("encoding")
        self.text = bool(text)
        if isinstance(args, (str, bytes)):
            args = [args] if not shell else os.fsdecode(args).split()
        args = [os.fspath(a) for a in args]
        args = [a.decode() if isinstance(a, bytes) else a for a in args]
        self.args = args
        for a in args:
            if not isinstance(a, str):
                raise TypeError("expected str, bytes or os.PathLike object, not " +
                                type(a).__name__)
        prog = args[0]
        rest = args[1:]
        base = os.path.basename(prog)
        if base.startswith("python") or prog == sys.executable:
            # an interpreter running a script
            while rest and rest[0].startswith("-") and rest[0] != "-m":
                rest = rest[1:]
            if rest and rest[0] == "-m":
                base = rest[1].split(".")[-1] + ".py"
                rest = rest[2:]
            elif rest:
                base = os.path.basename(rest[0])
                rest = rest[1:]
        spawn_point(sim, base)
        command = sim.commands.get(base)
        if command is None:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", prog)
        parent = sim.current.proc
        if cwd is not None:
            d = sim.fs.norm(cwd)
            if sim.fs.lookup(d).kind != "d":
                raise NotADirectoryError(errno.ENOTDIR, "Not a directory", cwd)
        proc = self.proc = sim.new_proc(base, None, parent, start_task=False)
        proc.role = base
        proc.argv = [prog] + rest
        if cwd is not None:
            proc.cwd = d
        proc.stdout = io.StringIO()
        self.pid = proc.pid
        self.out_to = stdout
        self.err_to = stderr
        sim.log("spawn %s as %s" % (args, proc))
        sim.probe("spawned_" + base)
        for hook in sim.spawn_hooks:
            hook(proc, args)
        sim.new_task(proc, lambda: run_program(
            sim, proc, lambda: command(sim, proc, proc.argv)), base)
        if stdout == subprocess.PIPE:
            self.stdout = _PipeReader(self)
        if stderr == subprocess.PIPE:
            self.stderr = _PipeReader(self, empty=True)
        if stdin == subprocess.PIPE:
            self.stdin = io.BytesIO()

    def _reap(self):
        if self.returncode is None and self.proc.dead and not self.proc.reaped:
            self.proc.reaped = True
            self.returncode = self.proc.exitcode
            self._deliver()
        elif self.returncode is None and self.proc.dead:
            self.returncode = self.proc.exitcode   # somebody else waited for it

    def _deliver(self):
        out = self.out_to
        if out not in (None, subprocess.PIPE, subprocess.DEVNULL) and \
                hasattr(out, "write"):
            pass

    def poll(self):
        self.sim.point("poll")
        if self.returncode is None:
            self._reap()
        return self.returncode

    def wait(self, timeout=None):
        if self.returncode is None:
            if not self.sim.wait(lambda: self.proc.dead, timeout, "waitpid"):
                raise subprocess.TimeoutExpired(self.args, timeout)
            self._reap()
        return self.returncode

    def communicate(self, input=None, timeout=None):
        self.wait(timeout)
        out = err = None
        if self.out_to == subprocess.PIPE:
            out = self.proc.stdout.getvalue()
            if not self.text:
                out = out.encode()
        if self.err_to == subprocess.PIPE:
            err = "" if self.text else b""
        return out, err

    def send_signal(self, sig):
        self.poll()
        if self.returncode is None:
            self.sim.signals.append((self.sim.current.proc, self.proc, int(sig)))
            self.sim.signal(self.proc, int(sig))

    def terminate(self):
        self.send_signal(signal.SIGTERM)

    def kill(self):
        self.send_signal(signal.SIGKILL)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.wait()

    def __repr__(self):
        return "<Popen: returncode: %r args: %r>" % (self.returncode, self.args)


class _PipeReader(object):
    def __init__(self, popen, empty=False):
        self.popen = popen
        self.empty = empty
        self.closed = False

    def read(self, n=-1):
        self.popen.sim.wait(lambda: self.popen.proc.dead, None, "pipe")
        text = "" if self.empty else self.popen.proc.stdout.getvalue()
        return text if self.popen.text else text.encode()

    def readline(self):
        data = self.read()
        return data

    def __iter__(self):
        return iter(self.read().splitlines(True))

    def close(self):
        self.closed = True

    def fileno(self):
        return 99999


# ---------------------------------------------------------------- fork
class ForkCall(object):
    """
    os.fork in a simulation.  The child is a new task that repeats the call made
    with forkable() from its start; what the parent did through the process
    seams before the fork is not repeated but answered from the record.
    """
    def __init__(self, sim, fn):
        self.sim = sim
        self.fn = fn
        self.record = []
        self.replay = None
        self.child = None


def forkable(sim, fn):
    call = ForkCall(sim, fn)
    old = sim.current.proc.tags.get("fork")
    sim.current.proc.tags["fork"] = call
    try:
        return fn()
    finally:
        sim.current.proc.tags["fork"] = old


def _forked(sim, what, do):
    """process seams go through here, so that they are not repeated in a child"""
    call = sim.current.proc.tags.get("fork")
    if call is None:
        return do()
    if call.replay is not None:
        kind, kept, value = call.replay.pop(0)
        if kept != what:
            raise HarnessError("fork replay: %s is not %s" % (kept, what))
        if kind == "raise":
            raise value
        return value
    try:
        r = do()
    except Exception as exc:
        call.record.append(("raise", what, exc))
        raise
    call.record.append(("return", what, r))
    return r


def sim_fork(sim):
    proc = sim.current.proc
    call = proc.tags.get("fork")
    if call is None:
        raise HarnessError("os.fork outside of forkable()")
    if call.replay is not None and call.child == "pending":
        call.child = "forked"
        return 0

    def do():
        spawn_point(sim, "fork")
        child = sim.new_proc("forked", None, proc, start_task=False)
        child.role = "forked"
        ccall = ForkCall(sim, call.fn)
        ccall.replay = list(call.record)
        ccall.child = "pending"
        child.tags["fork"] = ccall

        def body():
            def program():
                try:
                    call.fn()
                except SimKilled:
                    raise
                except BaseException:
                    child.tags["child_returned"] = True
                    raise
                # a real child would return into the caller's program here
                sim.probe("child_returned")
                child.tags["child_returned"] = True
            run_program(sim, child, program)
        for hook in sim.spawn_hooks:
            hook(child, ["fork"])
        sim.new_task(child, body, "forked")
        return child.pid
    return _forked(sim, "fork", do)


# ---------------------------------------------------------------- multiprocessing
class SimProcess(object):
    """stands for multiprocessing.Process"""
    def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, *,
                 daemon=None):
        self.sim = current_sim() or kernel.ACTIVE
        self._target = target
        self._args = tuple(args)
        self._kwargs = dict(kwargs)
        self.name = name or "Process"
        self.daemon = bool(daemon)
        self._proc = None
        self._closed = False
        self._parent = self.sim.current.proc

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def _check(self):
        if self._closed:
            raise ValueError("process object is closed")

    def start(self):
        self._check()
        sim = self.sim
        assert self._proc is None, "cannot start a process twice"

        def do():
            spawn_point(sim, "Process")
            proc = sim.new_proc(self.name, None, sim.current.proc, start_task=False)
            proc.role = "mp"
            for hook in sim.spawn_hooks:
                hook(proc, [self.name])
            sim.new_task(proc, lambda: run_program(sim, proc, self.run), self.name)
            return proc
        self._proc = _forked(sim, "Process.start", do)
        self._parent.tags.setdefault("mp_children", []).append(self)

    def _reap(self):
        if self._proc is not None and self._proc.dead:
            self._proc.reaped = True

    def is_alive(self):
        self._check()
        self.sim.point("is_alive")
        if self._proc is None:
            return False
        self._reap()
        return not self._proc.dead

    def join(self, timeout=None):
        self._check()
        assert self._proc is not None, "can only join a started process"
        self.sim.wait(lambda: self._proc.dead, timeout, "join")
        self._reap()

    @property
    def exitcode(self):
        self._check()
        self.sim.point("exitcode")
        if self._proc is None or not self._proc.dead:
            return None
        self._reap()
        return self._proc.exitcode

    @property
    def pid(self):
        self._check()
        return self._proc.pid if self._proc is not None else None
    ident = pid

    def _signal(self, signum):
        self._check()
        self.sim.point("signal")
        if self._proc is None:
            raise AttributeError("'NoneType' object has no attribute 'terminate'")
        if not self._proc.reaped:
            self._reap()
            self.sim.signals.append((self.sim.current.proc, self._proc, signum))
            self.sim.signal(self._proc, signum)

    def terminate(self):
        self._signal(15)

    def kill(self):
        self._signal(9)

    def close(self):
        if self._proc is not None and not self._proc.dead:
            raise ValueError("Cannot close a process while it is still running. "
                             "You should first call join() or terminate().")
        self._reap()
        self._closed = True

    def __repr__(self):
        return "<SimProcess %s>" % (self._proc,)


def mp_exit(sim, proc):
    """what multiprocessing does when a program ends: terminate the daemons,
    wait for the others"""
    children = proc.tags.get("mp_children", [])
    for c in children:
        if not c._closed and c.daemon and not c._proc.dead:
            sim.signal(c._proc, 15)
    for c in children:
        if not c._closed:
            sim.wait(lambda: c._proc.dead, None, "exit join")
            c._proc.reaped = True


class SimQueue(object):
    """stands for a multiprocessing or manager queue"""
    registry = weakref.WeakValueDictionary()
    made = 0

    def __init__(self, maxsize=0, manager=None):
        self.sim = current_sim()
        self.items = []
        self.manager = manager
        SimQueue.made += 1
        self.key = SimQueue.made
        SimQueue.registry[self.key] = self

    def __reduce__(self):
        return (_find_queue, (self.key,))

    def _op(self, op):
        self.sim.point(op)
        if self.manager is not None and self.manager._proc.dead:
            raise EOFError() if self.sim.noise(2) else \
                ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")

    def put(self, item, block=True, timeout=None):
        data = pickle.dumps(item)
        self._op("queue.put")
        self.items.append(data)

    put_nowait = put

    def get(self, block=True, timeout=None):
        import queue
        self._op("queue.get")
        if not self.items:
            if not block:
                raise queue.Empty()
            if not self.sim.wait(lambda: bool(self.items), timeout, "queue.wait"):
                raise queue.Empty()
        return pickle.loads(self.items.pop(0))

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        self._op("queue.empty")
        return not self.items

    def qsize(self):
        self._op("queue.qsize")
        return len(self.items)

    def full(self):
        return False

    def close(self):
        pass

    join_thread = cancel_join_thread = close


def _find_queue(key):
    return SimQueue.registry[key]


class SimManager(object):
    """stands for multiprocessing.Manager()"""
    def __init__(self):
        self.sim = sim = current_sim()
        spawn_point(sim, "Manager")
        proc = sim.new_proc("manager", None, sim.current.proc, start_task=False)
        proc.role = "manager"
        self._proc = proc
        for hook in sim.spawn_hooks:
            hook(proc, ["manager"])
        sim.new_task(proc, lambda: sim.wait(lambda: False, None, "serve"), "manager")
        wself = weakref.finalize(self, _finish, sim, [proc])
        wself.atexit = False

    def Queue(self, maxsize=0):
        if self._proc.dead:
            raise ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")
        self.sim.point("manager.Queue")
        if self.sim.faults is not None:
            self.sim.faults.at_op("manager.Queue", None, ("spawn",))
        return SimQueue(maxsize, self)

    JoinableQueue = Queue

    def list(self, *a):
        return SharedList(*a)

    def dict(self, *a, **k):
        return SharedDict(*a, **k)

    def shutdown(self):
        self.sim.point("manager.shutdown")
        self.sim.kill(self._proc, 0)
        self._proc.reaped = True

    def start(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.shutdown()


_shared = {}


class SharedList(list):
    def __init__(self, *a):
        list.__init__(self, *a)
        self.key = len(_shared)
        _shared[self.key] = self

    def __reduce__(self):
        return (_shared.__getitem__, (self.key,))


class SharedDict(dict):
    def __init__(self, *a, **k):
        dict.__init__(self, *a, **k)
        self.key = len(_shared)
        _shared[self.key] = self

    def __reduce__(self):
        return (_shared.__getitem__, (self.key,))


def _finish(sim, procs):
    """helper processes whose owner object has gone are ended"""
    if kernel.ACTIVE is not sim or sim.teardown_done:
        return
    for p in procs:
        if not p.dead and not p.killed and sim.current.proc is not p:
            sim.kill(p, -15)
            p.reaped = True


class _Result(object):
    def __init__(self, pool, n, single, callback, error_callback):
        self.pool = pool
        self.left = n
        self.values = [None] * n
        self.error = None
        self.single = single
        self.callback = callback
        self.error_callback = error_callback

    def ready(self):
        self.pool.sim.point("ready")
        return self.left == 0

    def successful(self):
        if self.left:
            raise ValueError("not ready")
        return self.error is None

    def wait(self, timeout=None):
        self.pool.sim.wait(lambda: self.left == 0, timeout, "result.wait")

    def get(self, timeout=None):
        import multiprocessing
        if not self.pool.sim.wait(lambda: self.left == 0, timeout, "result.get"):
            raise multiprocessing.TimeoutError
        if self.error is not None:
            raise self.error
        if self.single:
            return self.values[0][0]
        return [v for chunk in self.values for v in chunk]

    def set(self, i, ok, value):
        self.left -= 1
        if ok:
            self.values[i] = value
        elif self.error is None:
            self.error = value


class SimPool(object):
    """stands for multiprocessing.Pool"""
    def __init__(self, processes=None, initializer=None, initargs=(),
                 maxtasksperchild=None, context=None):
        self.sim = sim = current_sim()
        if processes is None:
            processes = 4
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        if not isinstance(processes, int):
            raise TypeError("integer argument expected")
        self._n = processes
        self._state = "RUN"
        self._inbox = []
        self._workers = []
        self._running = 0
        state = {"inbox": self._inbox, "running": 0, "most": 0, "closed": False}
        self._shared = state
        try:
            for i in range(processes):
                spawn_point(sim, "Pool")
                proc = sim.new_proc("pool%d" % i, None, sim.current.proc,
                                    start_task=False)
                proc.role = "pool"
                proc.tags["pool"] = state
                self._workers.append(proc)
                for hook in sim.spawn_hooks:
                    hook(proc, ["pool"])
                sim.new_task(proc, lambda proc=proc: run_program(
                    sim, proc, lambda: _pool_worker(sim, state, initializer, initargs)),
                    "pool%d" % i)
        except Exception:
            for p in self._workers:
                sim.signal(p, 15)
            for p in self._workers:
                sim.wait(lambda: p.dead, None, "pool cleanup")
                p.reaped = True
            raise
        fin = weakref.finalize(self, _finish, sim, self._workers)
        fin.atexit = False

    def _check(self):
        if self._state != "RUN":
            raise ValueError("Pool not running")

    def _submit(self, fn, chunks, star, single=False, callback=None,
                error_callback=None):
        self._check()
        res = _Result(self, len(chunks), single, callback, error_callback)
        for i, chunk in enumerate(chunks):
            try:
                data = pickle.dumps((fn, chunk))
            except Exception as exc:
                res.set(i, False, exc)
                continue
            self._inbox.append((res, i, data, star))
        self.sim.point("pool.submit")
        return res

    def map_async(self, func, iterable, chunksize=None, callback=None,
                  error_callback=None, star=False):
        items = list(iterable)
        if chunksize is None:
            chunksize, extra = divmod(len(items), self._n * 4)
            if extra:
                chunksize += 1
        chunksize = max(1, chunksize)
        chunks = [items[i:i + chunksize] for i in range(0, len(items), chunksize)]
        return self._submit(func, chunks, "star" if star else "plain", False,
                            callback, error_callback)

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable, chunksize).get()

    def starmap(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable, chunksize, star=True).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None,
                      error_callback=None):
        return self.map_async(func, iterable, chunksize, callback, error_callback, True)

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        return self._submit(func, [[(tuple(args), dict(kwds))]], "call", True,
                            callback, error_callback)

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def imap(self, func, iterable, chunksize=1):
        results = [self._submit(func, [[x]], "plain", True) for x in iterable]
        for r in results:
            yield r.get()

    def imap_unordered(self, func, iterable, chunksize=1):
        results = [self._submit(func, [[x]], "plain", True) for x in iterable]
        while results:
            self.sim.wait(lambda: any(r.left == 0 for r in results), None, "imap")
            for r in results:
                if r.left == 0:
                    results.remove(r)
                    yield r.get()
                    break

    def close(self):
        if self._state == "RUN":
            self._state = "CLOSE"
            self._shared["closed"] = True
        self.sim.point("pool.close")

    def terminate(self):
        self._state = "TERMINATE"
        self.sim.point("pool.terminate")
        for p in self._workers:
            if not p.dead:
                self.sim.kill(p, -15)
            p.reaped = True

    def join(self):
        if self._state == "RUN":
            raise ValueError("Pool is still running")
        for p in self._workers:
            self.sim.wait(lambda: p.dead, None, "pool.join")
            p.reaped = True

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *args):
        self.terminate()

    def __reduce__(self):
        raise NotImplementedError("pool objects cannot be passed between "
                                  "processes or pickled")


def _pool_worker(sim, state, initializer, initargs):
    if initializer is not None:
        initializer(*initargs)
    inbox = state["inbox"]
    while True:
        sim.wait(lambda: bool(inbox) or state["closed"], None, "pool.take")
        if not inbox:
            return
        res, i, data, star = inbox.pop(sim.noise(len(inbox))
                                       if sim.noise(4) == 0 else 0)
        ok = True
        try:
            func, chunk = pickle.loads(data)
            if star == "plain":
                value = [func(x) for x in chunk]
            elif star == "star":
                value = [func(*x) for x in chunk]
            else:
                value = [func(*a, **k) for a, k in chunk]
        except Exception as exc:
            ok, value = False, exc
        try:
            data = pickle.dumps(value)
        except Exception as exc:
            from multiprocessing.pool import MaybeEncodingError
            ok, data = False, pickle.dumps(MaybeEncodingError(exc, repr(value)))
        sim.point("pool.done")
        value = pickle.loads(data)
        res.set(i, ok, value)
        res = value = data = None


# ---------------------------------------------------------------- installation
def install(_wrap):
    real_popen = subprocess.Popen

    class Popen(real_popen):
        def __new__(cls, *args, **kw):
            if current_sim() is None:
                return real_popen.__new__(cls)
            return SimPopen(*args, **kw)
    Popen.__name__ = "Popen"
    Popen.__qualname__ = "Popen"
    subprocess.Popen = Popen

    import multiprocessing

    def mk(cls):
        def make(real):
            def fn(*args, **kw):
                if current_sim() is None:
                    return real(*args, **kw)
                return cls(*args, **kw)
            return fn
        return make
    _wrap(multiprocessing, "Pool", mk(SimPool))
    _wrap(multiprocessing, "Manager", mk(SimManager))
    _wrap(multiprocessing, "Process", mk(SimProcess))
    _wrap(multiprocessing, "Queue", mk(SimQueue))
    _wrap(multiprocessing, "SimpleQueue", mk(SimQueue))

    def mk_cpu(real):
        def fn():
            return real() if current_sim() is None else 4
        return fn
    _wrap(multiprocessing, "cpu_count", mk_cpu)

    def mk_children(real):
        def fn():
            s = current_sim()
            if s is None:
                return real()
            return [c for c in s.current.proc.tags.get("mp_children", [])
                    if not c._proc.dead]
        return fn
    _wrap(multiprocessing, "active_children", mk_children)

    def mk_fork(real):
        def fn():
            s = current_sim()
            return real() if s is None else sim_fork(s)
        return fn
    _wrap(os, "fork", mk_fork)

    def mk_exit(real):
        def fn(code):
            s = current_sim()
            if s is None:
                return real(code)
            s.point("_exit")
            s.kill(s.current.proc, code & 0xff)
        return fn
    _wrap(os, "_exit", mk_exit)

    def mk_kill(real):
        def fn(pid, sig):
            s = current_sim()
            if s is None:
                return real(pid, sig)
            s.point("kill")
            p = s.procs.get(pid)
            if p is None or (p.dead and p.reaped):
                raise ProcessLookupError(errno.ESRCH, "No such process")
            s.log("kill(%d, %d)" % (pid, sig))
            if sig:
                s.signals.append((s.current.proc, p, int(sig)))
                s.signal(p, int(sig))
        return fn
    _wrap(os, "kill", mk_kill)

    def child(s, pid):
        me = s.current.proc
        p = s.procs.get(pid)
        if p is None or p.parent is not me or p.reaped:
            raise ChildProcessError(errno.ECHILD, "No child processes")
        return p

    def children(s):
        me = s.current.proc
        return [p for p in s.procs.values() if p.parent is me and not p.reaped]

    def mk_waitpid(real):
        def fn(pid, options):
            s = current_sim()
            if s is None:
                return real(pid, options)
            s.point("waitpid")
            if pid > 0:
                cands = [child(s, pid)]
            else:
                cands = children(s)
                if not cands:
                    raise ChildProcessError(errno.ECHILD, "No child processes")
            if options & os.WNOHANG:
                if not any(p.dead for p in cands):
                    return (0, 0)
            else:
                s.wait(lambda: any(p.dead for p in cands), None, "waitpid")
            p = [p for p in cands if p.dead][0]
            p.reaped = True
            code = p.exitcode
            return (p.pid, -code if code < 0 else code << 8)
        return fn
    _wrap(os, "waitpid", mk_waitpid)

    def mk_waitid(real):
        def fn(idtype, id, options):
            s = current_sim()
            if s is None:
                return real(idtype, id, options)
            s.point("waitid")
            cands = [child(s, id)] if idtype == os.P_PID else children(s)
            if not cands:
                raise ChildProcessError(errno.ECHILD, "No child processes")
            if options & os.WNOHANG:
                if not any(p.dead for p in cands):
                    return None
            else:
                s.wait(lambda: any(p.dead for p in cands), None, "waitid")
            p = [p for p in cands if p.dead][0]
            if not options & os.WNOWAIT:
                p.reaped = True

            class R(object):
                si_pid = p.pid
                si_uid = 0
                si_signo = signal.SIGCHLD
                si_status = abs(p.exitcode)
                si_code = os.CLD_KILLED if p.exitcode < 0 else os.CLD_EXITED
            return R()
        return fn
    _wrap(os, "waitid", mk_waitid)

    def mk_wait(real):
        def fn():
            s = current_sim()
            if s is None:
                return real()
            return os.waitpid(-1, 0)
        return fn
    _wrap(os, "wait", mk_wait)
