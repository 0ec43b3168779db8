"""
Permanent wrappers around the standard library's doors to the outside world.
Outside of a simulation (and in harness sections) they call the real thing.
install() has to run before xboa is imported.
"""
import atexit
import builtins
import errno
import io
import os
import sys
import tempfile
import time

from . import kernel
from .kernel import current_sim
from . import simfs

REAL = {}
ATEXIT = []            # (function, args, kwargs) in order of registration
CAPTURE = None         # list that takes registrations for a simulated program
installed = False


def _wrap(obj, name, make):
    real = getattr(obj, name)
    REAL[(getattr(obj, "__name__", str(obj)), name)] = real
    w = make(real)
    try:
        w.__name__ = name
        w.__doc__ = getattr(real, "__doc__", None)
    except (AttributeError, TypeError):
        pass
    setattr(obj, name, w)


def _path_fn(method):
    """os function whose first argument is a path"""
    def make(real):
        def fn(path, *args, **kw):
            s = current_sim()
            if s is None or isinstance(path, int):
                return real(path, *args, **kw)
            if s.fs.is_real(path):
                if method != "stat":
                    raise PermissionError(errno.EACCES, "read only in the simulation", path)
                return real(path, *args, **kw)
            kw.pop("dir_fd", None)
            return getattr(s.fs, method)(path, *args, **kw)
        return fn
    return make


def install(real_prefixes):
    global installed
    if installed:
        return
    installed = True
    simfs.REAL_PREFIXES = tuple(real_prefixes)

    # ---- files
    def mk_open(real):
        def fn(file, mode="r", *args, **kw):
            s = current_sim()
            if s is None:
                return real(file, mode, *args, **kw)
            if isinstance(file, int):
                if file < 100000:
                    return real(file, mode, *args, **kw)
            elif s.fs.is_real(file):
                if set(mode) & set("wax+"):
                    raise PermissionError(errno.EACCES, "read only in the simulation", file)
                return real(file, mode, *args, **kw)
            return s.fs.open(file, mode, *args, **kw)
        return fn
    _wrap(builtins, "open", mk_open)
    REAL[("io", "open")] = io.open
    io.open = builtins.open

    def mk_osopen(real):
        def fn(path, flags, mode=0o777, **kw):
            s = current_sim()
            if s is None:
                return real(path, flags, mode, **kw)
            if s.fs.is_real(path):
                if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
                    raise PermissionError(errno.EACCES, "read only in the simulation", path)
                return real(path, flags, mode, **kw)
            return s.fs.open_fd(path, flags, mode).fd
        return fn
    _wrap(os, "open", mk_osopen)

    def mk_close(real):
        def fn(fd):
            s = current_sim()
            if s is None or fd < 100000:
                return real(fd)
            f = s.fs.get_fd(fd)
            return s.fs.close(f)
        return fn
    _wrap(os, "close", mk_close)

    def mk_read(real):
        def fn(fd, n):
            s = current_sim()
            if s is None or fd < 100000:
                return real(fd, n)
            return s.fs.read(s.fs.get_fd(fd), n)
        return fn
    _wrap(os, "read", mk_read)

    def mk_write(real):
        def fn(fd, data):
            s = current_sim()
            if s is None or fd < 100000:
                return real(fd, data)
            return s.fs.write(s.fs.get_fd(fd), bytes(data))
        return fn
    _wrap(os, "write", mk_write)

    def mk_fsync(real):
        def fn(fd):
            s = current_sim()
            if not isinstance(fd, int):
                fd = fd.fileno()
            if s is None or fd < 100000:
                return real(fd)
            return s.fs.fsync(fd)
        return fn
    _wrap(os, "fsync", mk_fsync)
    _wrap(os, "fdatasync", mk_fsync)

    def mk_fstat(real):
        def fn(fd):
            s = current_sim()
            if s is None or fd < 100000:
                return real(fd)
            return simfs.StatResult(s.fs.get_fd(fd).node)
        return fn
    _wrap(os, "fstat", mk_fstat)

    def mk_isatty(real):
        def fn(fd):
            if isinstance(fd, int) and fd >= 100000:
                return False
            return real(fd)
        return fn
    _wrap(os, "isatty", mk_isatty)

    for name, method in (("stat", "stat"), ("lstat", "stat"),
                         ("remove", "remove"), ("unlink", "remove"),
                         ("rmdir", "rmdir"), ("mkdir", "mkdir")):
        _wrap(os, name, _path_fn(method))

    def mk_ls(method):
        def make(real):
            def fn(path=".", *args):
                s = current_sim()
                if s is None or isinstance(path, int) or s.fs.is_real(path):
                    return real(path, *args)
                return getattr(s.fs, method)(path)
            return fn
        return make
    _wrap(os, "listdir", mk_ls("listdir"))
    _wrap(os, "scandir", mk_ls("scandir"))

    def mk_rename(real):
        def fn(src, dst, **kw):
            s = current_sim()
            if s is None:
                return real(src, dst, **kw)
            return s.fs.rename(src, dst)
        return fn
    _wrap(os, "rename", mk_rename)
    _wrap(os, "replace", mk_rename)

    def mk_access(real):
        def fn(path, mode, **kw):
            s = current_sim()
            if s is None or s.fs.is_real(path):
                return real(path, mode, **kw)
            try:
                s.fs.stat(path)
                return True
            except OSError:
                return False
        return fn
    _wrap(os, "access", mk_access)

    def mk_chmod(real):
        def fn(path, mode, **kw):
            s = current_sim()
            if s is None:
                return real(path, mode, **kw)
            s.fs.lookup(s.fs.norm(path)).mode = mode
        return fn
    _wrap(os, "chmod", mk_chmod)

    def mk_readlink(real):
        def fn(path, **kw):
            s = current_sim()
            if s is None or s.fs.is_real(path):
                return real(path, **kw)
            s.fs.stat(path)
            raise OSError(errno.EINVAL, "Invalid argument", path)
        return fn
    _wrap(os, "readlink", mk_readlink)

    def mk_refuse(real):
        def fn(*args, **kw):
            s = current_sim()
            if s is None:
                return real(*args, **kw)
            raise OSError(errno.ENOSYS, "not available in the simulation")
        return fn
    for name in ("link", "symlink", "system", "popen", "execv", "execve",
                 "execvp", "spawnv", "truncate", "chown", "utime", "posix_spawn",
                 "killpg", "setsid", "setpgid", "openpty", "forkpty", "mkfifo"):
        if hasattr(os, name):
            _wrap(os, name, mk_refuse)
    # os.path has C accelerators on some versions; make sure ours are used
    import genericpath
    import posixpath
    for mod in (genericpath, posixpath, os.path):
        for name in ("exists", "isfile", "isdir", "lexists"):
            if hasattr(mod, name):
                setattr(mod, name, _pathtest(name))

    def mk_getcwd(real):
        def fn():
            s = current_sim()
            return real() if s is None else s.current.proc.cwd
        return fn
    _wrap(os, "getcwd", mk_getcwd)

    def mk_chdir(real):
        def fn(path):
            s = current_sim()
            if s is None:
                return real(path)
            p = s.fs.norm(path)
            if s.fs.lookup(p).kind != "d":
                raise NotADirectoryError(errno.ENOTDIR, "Not a directory", p)
            s.current.proc.cwd = p
        return fn
    _wrap(os, "chdir", mk_chdir)

    import shutil

    def mk_rmtree(real):
        def fn(path, *args, **kw):
            s = current_sim()
            if s is None:
                return real(path, *args, **kw)
            return s.fs.rmtree(path, *args, **kw)
        return fn
    _wrap(shutil, "rmtree", mk_rmtree)

    # ---- temporary names
    class Names(object):
        def __init__(self):
            self.real = tempfile._RandomNameSequence()

        def __iter__(self):
            return self

        def __next__(self):
            s = current_sim()
            if s is None:
                return next(self.real)
            s.probe("temp_name")
            return "t%02d" % s.noise(getattr(s, "temp_names", 60))
    tempfile._name_sequence = Names()

    def mk_tempdir(real):
        def fn():
            return real() if current_sim() is None else "/tmp"
        return fn
    _wrap(tempfile, "_gettempdir", mk_tempdir)
    tempfile.gettempdir = tempfile._gettempdir

    # ---- time
    def mk_clock(what):
        def make(real):
            def fn():
                s = current_sim()
                if s is None:
                    return real()
                s.point("clock")
                return what(s)
            return fn
        return make
    _wrap(time, "time", mk_clock(lambda s: s.time()))
    _wrap(time, "time_ns", mk_clock(lambda s: int(s.time() * 1e9)))
    for name in ("monotonic", "perf_counter"):
        _wrap(time, name, mk_clock(lambda s: s.now + 5000.0))
        _wrap(time, name + "_ns", mk_clock(lambda s: int((s.now + 5000.0) * 1e9)))
    for name in ("process_time", "thread_time"):
        _wrap(time, name, mk_clock(lambda s: s.now * 0.5))

    def mk_sleep(real):
        def fn(seconds):
            s = current_sim()
            if s is None:
                return real(seconds)
            if seconds < 0:
                raise ValueError("sleep length must be non-negative")
            if s.faults is not None:
                s.faults.at_op("sleep", None, ())
            s.sleep(seconds)
        return fn
    _wrap(time, "sleep", mk_sleep)

    # ---- processes
    def mk_getpid(real):
        def fn():
            s = current_sim()
            return real() if s is None else s.current.proc.pid
        return fn
    _wrap(os, "getpid", mk_getpid)

    def mk_getppid(real):
        def fn():
            s = current_sim()
            if s is None:
                return real()
            p = s.current.proc.parent
            return p.pid if p is not None else 1
        return fn
    _wrap(os, "getppid", mk_getppid)

    from . import procs
    procs.install(_wrap)

    # ---- exit
    def mk_register(real):
        def fn(func, *args, **kw):
            s = current_sim()
            if CAPTURE is not None:
                CAPTURE.append((func, args, kw))
            elif s is not None:
                s.current.proc.tags.setdefault("atexit", []).append((func, args, kw))
            else:
                ATEXIT.append((func, args, kw))
                return real(func, *args, **kw)
            return func
        return fn
    _wrap(atexit, "register", mk_register)

    def mk_unregister(real):
        def fn(func):
            s = current_sim()
            if s is None:
                return real(func)
            hooks = s.current.proc.tags.get("atexit", [])
            hooks[:] = [h for h in hooks if h[0] != func]
        return fn
    _wrap(atexit, "unregister", mk_unregister)


def mp_exits_last(prefix="xboa."):
    """in a program that imports the code under test first: do its exit functions
    run before the one that multiprocessing registers?  (They run in reverse order.)"""
    hooks = list(ATEXIT)
    seen = [i for i, h in enumerate(hooks)
            if getattr(h[0], "__module__", "") == "multiprocessing.util"]
    ours = [i for i, h in enumerate(hooks)
            if str(getattr(h[0], "__module__", "")).startswith(prefix)]
    return bool(seen) and bool(ours) and seen[0] < ours[0]


def _pathtest(name):
    import stat as st

    def fn(path):
        try:
            r = os.lstat(path) if name == "lexists" else os.stat(path)
        except (OSError, ValueError):
            return False
        if name == "isfile":
            return st.S_ISREG(r.st_mode)
        if name == "isdir":
            return st.S_ISDIR(r.st_mode)
        return True
    fn.__name__ = name
    return fn
