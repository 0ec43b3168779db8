"""
The simulated disk: an in-memory tree of files below the standard library's own
buffering and text layers.  A process that is killed loses what it has not yet
handed to the (simulated) operating system; everything handed over survives.
"""
import errno
import io
import os
import stat as stat_module

from .kernel import SimKilled

REAL_PREFIXES = None


def _oserror(code, path=None):
    if path is None:
        return OSError(code, os.strerror(code))
    return OSError(code, os.strerror(code), path)


class Inode(object):
    __slots__ = ["kind", "data", "entries", "ino", "mtime", "mode", "version"]

    def __init__(self, kind, ino, mode=0o644):
        self.kind = kind
        self.data = bytearray() if kind == "f" else None
        self.entries = {} if kind == "d" else None
        self.ino = ino
        self.mtime = 0.0
        self.mode = mode
        self.version = 0


class StatResult(object):
    def __init__(self, node):
        self.st_mode = (stat_module.S_IFDIR if node.kind == "d"
                        else stat_module.S_IFREG) | node.mode
        self.st_ino = node.ino
        self.st_dev = 99
        self.st_nlink = 1
        self.st_uid = self.st_gid = 0
        self.st_size = len(node.data) if node.kind == "f" else 4096
        self.st_atime = self.st_mtime = self.st_ctime = node.mtime
        self.st_mtime_ns = self.st_atime_ns = self.st_ctime_ns = int(node.mtime * 1e9)
        self.st_blksize = 4096
        self.st_blocks = 8


class DirEntry(object):
    def __init__(self, name, path, node):
        self.name = name
        self.path = path
        self._node = node

    def is_dir(self, follow_symlinks=True):
        return self._node.kind == "d"

    def is_file(self, follow_symlinks=True):
        return self._node.kind == "f"

    def is_symlink(self):
        return False

    def stat(self, follow_symlinks=True):
        return StatResult(self._node)

    def inode(self):
        return self._node.ino

    def __fspath__(self):
        return self.path


class ScanDir(object):
    def __init__(self, items):
        self.items = iter(items)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.items)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass

    def close(self):
        self.items = iter(())


class OpenFile(object):
    """what a file descriptor stands for"""
    __slots__ = ["fs", "node", "path", "pos", "readable", "writable", "append",
                 "proc", "broken", "refs", "is_dir", "fd"]


class SimFS(object):
    def __init__(self, sim):
        self.sim = sim
        sim.fs = self
        self.next_ino = 10
        self.root = self._node("d", 0o755)
        self.fds = {}
        self.next_fd = 100000
        self.block = 8192
        self.short = False         # raw reads and writes may be partial
        self.shuffle = False       # directories list in any order
        self.writes = []           # (proc, op, path)
        self.open_files = 0
        for d in ("/tmp", "/home", "/work", "/data", "/dev"):
            self.h_mkdir(d)
        self.real_prefixes = REAL_PREFIXES or ()
        self.full = None           # errno of a disk that stays broken

    # ------------------------------------------------------------- helpers
    def _node(self, kind, mode=0o644):
        self.next_ino += 1
        n = Inode(kind, self.next_ino, mode)
        n.mtime = self.sim.time()
        return n

    def norm(self, path):
        path = os.fspath(path)
        if isinstance(path, bytes):
            path = path.decode()
        if "\0" in path:
            raise ValueError("embedded null byte")
        if not path:
            raise _oserror(errno.ENOENT, path)
        if not path.startswith("/"):
            path = self.sim.current.proc.cwd + "/" + path
        path = os.path.normpath(path)
        if path.startswith("//"):
            path = path[1:]
        return path

    def is_real(self, path):
        try:
            path = self.norm(path)
        except (TypeError, ValueError, OSError):
            return False
        for p in self.real_prefixes:
            if path == p or path.startswith(p + "/"):
                return True
        return False

    def lookup(self, path):
        node = self.root
        for part in path.split("/"):
            if not part:
                continue
            if node.kind != "d":
                raise _oserror(errno.ENOTDIR, path)
            node = node.entries.get(part)
            if node is None:
                raise _oserror(errno.ENOENT, path)
        return node

    def parent(self, path):
        d, name = os.path.split(path)
        node = self.lookup(d)
        if node.kind != "d":
            raise _oserror(errno.ENOTDIR, path)
        return node, name

    # -------------------------------------------------- harness side (no faults)
    def h_mkdir(self, path):
        node = self.root
        for part in path.split("/"):
            if part:
                if part not in node.entries:
                    node.entries[part] = self._node("d", 0o755)
                node = node.entries[part]
        return node

    def h_write(self, path, data):
        if isinstance(data, str):
            data = data.encode()
        d = self.h_mkdir(os.path.dirname(path))
        n = self._node("f")
        n.data[:] = data
        d.entries[os.path.basename(path)] = n
        return n

    def h_read(self, path):
        """bytes, or None if there is no such file"""
        try:
            n = self.lookup(path)
        except OSError:
            return None
        return bytes(n.data) if n.kind == "f" else None

    def h_exists(self, path):
        try:
            self.lookup(path)
            return True
        except OSError:
            return False

    def h_files(self, path="/"):
        """all files below path: {path: bytes}"""
        out = {}

        def walk(node, p):
            for name in sorted(node.entries):
                x = node.entries[name]
                q = p + "/" + name
                if x.kind == "f":
                    out[q] = bytes(x.data)
                else:
                    walk(x, q)
        try:
            top = self.lookup(path)
        except OSError:
            return out
        walk(top, path.rstrip("/"))
        return out

    def h_dirs(self, path):
        try:
            top = self.lookup(path)
        except OSError:
            return []
        return sorted(n for n, x in top.entries.items() if x.kind == "d")

    def h_open_by(self, proc):
        return [f for f in self.fds.values() if f.proc is proc]

    # ------------------------------------------------------------- operations
    def enter(self, op, path, kinds):
        """seam: scheduling point, then maybe a fault"""
        self.sim.point(op)
        f = self.sim.faults
        if f is not None:
            f.at_op(op, path, kinds)

    def note(self, op, path):
        self.writes.append((self.sim.current.proc, op, path))

    def open_fd(self, path, flags, mode=0o666):
        path = self.norm(path)
        acc = flags & os.O_ACCMODE
        writing = acc in (os.O_WRONLY, os.O_RDWR)
        self.enter("open_w" if writing else "open_r", path,
                   ("enospc", "eacces", "emfile") if writing
                   else ("eacces", "emfile"))
        if path == "/dev/null":
            node = self._node("f")
        else:
            try:
                node = self.lookup(path)
                if flags & os.O_CREAT and flags & os.O_EXCL:
                    raise _oserror(errno.EEXIST, path)
                if node.kind == "d" and writing:
                    raise _oserror(errno.EISDIR, path)
            except OSError as exc:
                if exc.errno != errno.ENOENT or not flags & os.O_CREAT:
                    raise
                parent, name = self.parent(path)
                if self.full is not None:
                    raise _oserror(self.full, path)
                node = self._node("f", mode & ~0o22)
                parent.entries[name] = node
                self.note("create", path)
            if writing and flags & os.O_TRUNC and node.kind == "f":
                del node.data[:]
                node.version += 1
                self.note("truncate", path)
        f = OpenFile()
        f.fs = self
        f.node = node
        f.path = path
        f.pos = 0
        f.readable = acc in (os.O_RDONLY, os.O_RDWR)
        f.writable = writing
        f.append = bool(flags & os.O_APPEND)
        f.proc = self.sim.current.proc
        f.broken = None
        f.is_dir = node.kind == "d"
        self.next_fd += 1
        f.fd = self.next_fd
        self.fds[f.fd] = f
        return f

    def get_fd(self, fd):
        f = self.fds.get(fd)
        if f is None:
            raise _oserror(errno.EBADF)
        return f

    def read(self, f, n):
        self.enter("read", f.path, ("eio",))
        if f.is_dir:
            raise _oserror(errno.EISDIR, f.path)
        if not f.readable:
            raise _oserror(errno.EBADF)
        if self.short and n > 1:
            m = 1 + self.sim.noise(min(n, self.block))
            if m < n:
                self.sim.count("short_read")
            n = min(n, m)
        data = bytes(f.node.data[f.pos:f.pos + n])
        f.pos += len(data)
        return data

    def write(self, f, data):
        if not f.writable:
            raise _oserror(errno.EBADF)
        n = len(data)
        torn = None
        try:
            if self.full is not None and f.path != "/dev/null":
                self.sim.point("write")
                raise _oserror(self.full, f.path)
            self.enter("write", f.path, ("enospc", "eio"))
        except (OSError, SimKilled) as exc:
            # part of the data may have got through
            if n > 1 and getattr(self.sim.faults, "last_torn", 0):
                torn = exc
            else:
                raise
        if torn is not None:
            k = self.sim.noise(n)
            self._put(f, data[:k])
            raise torn
        if self.short and n > 1:
            m = 1 + self.sim.noise(min(n, self.block))
            if m < n:
                self.sim.count("short_write")
            n = min(n, m)
        self._put(f, data[:n])
        return n

    def _put(self, f, data):
        if f.path == "/dev/null":
            return
        node = f.node
        if f.append:
            f.pos = len(node.data)
        if f.pos > len(node.data):
            node.data.extend(b"\0" * (f.pos - len(node.data)))
        node.data[f.pos:f.pos + len(data)] = data
        f.pos += len(data)
        node.mtime = self.sim.time()
        node.version += 1
        self.note("write", f.path)

    def close(self, f):
        """the descriptor is gone in any case"""
        if self.fds.pop(f.fd, None) is None:
            return
        if f.proc.killed:
            return
        self.enter("close", f.path, ("eio",) if f.writable else ())

    def mkdir(self, path, mode=0o777):
        path = self.norm(path)
        self.enter("mkdir", path, ("enospc", "eacces"))
        parent, name = self.parent(path)
        if name in parent.entries or path == "/":
            raise _oserror(errno.EEXIST, path)
        parent.entries[name] = self._node("d", mode & ~0o22)
        self.note("mkdir", path)

    def stat(self, path):
        path = self.norm(path)
        self.enter("stat", path, ())
        return StatResult(self.lookup(path))

    def listdir(self, path):
        p = self.norm(path)
        self.enter("listdir", p, ("eio", "eacces"))
        node = self.lookup(p)
        if node.kind != "d":
            raise _oserror(errno.ENOTDIR, p)
        names = sorted(node.entries)
        if self.shuffle and len(names) > 1:
            self.sim.count("shuffled_directory")
            out = []
            while names:
                out.append(names.pop(self.sim.noise(len(names))))
            names = out
        return names

    def scandir(self, path):
        names = self.listdir(path)
        node = self.lookup(self.norm(path))
        base = os.fspath(path)
        return ScanDir([DirEntry(n, os.path.join(base, n), node.entries[n])
                        for n in names if n in node.entries])

    def remove(self, path):
        path = self.norm(path)
        self.enter("unlink", path, ("eio", "eacces"))
        parent, name = self.parent(path)
        node = parent.entries.get(name)
        if node is None:
            raise _oserror(errno.ENOENT, path)
        if node.kind == "d":
            raise _oserror(errno.EISDIR, path)
        del parent.entries[name]
        self.note("unlink", path)

    def rmdir(self, path):
        path = self.norm(path)
        self.enter("rmdir", path, ("eio",))
        parent, name = self.parent(path)
        node = parent.entries.get(name)
        if node is None:
            raise _oserror(errno.ENOENT, path)
        if node.kind != "d":
            raise _oserror(errno.ENOTDIR, path)
        if node.entries:
            raise _oserror(errno.ENOTEMPTY, path)
        del parent.entries[name]
        self.note("rmdir", path)

    def rename(self, src, dst):
        src, dst = self.norm(src), self.norm(dst)
        self.enter("rename", src, ("eio", "eacces"))
        sp, sn = self.parent(src)
        if sn not in sp.entries:
            raise _oserror(errno.ENOENT, src)
        dp, dn = self.parent(dst)
        old = dp.entries.get(dn)
        node = sp.entries[sn]
        if old is not None and old.kind == "d":
            if node.kind != "d":
                raise _oserror(errno.EISDIR, dst)
            if old.entries:
                raise _oserror(errno.ENOTEMPTY, dst)
        del sp.entries[sn]
        dp.entries[dn] = node
        self.note("rename", src)
        self.note("rename_to", dst)

    def rmtree(self, path, ignore_errors=False, onerror=None, **kw):
        path = self.norm(path)
        try:
            self.enter("rmtree", path, ("eio",))
            parent, name = self.parent(path)
            node = parent.entries.get(name)
            if node is None:
                raise _oserror(errno.ENOENT, path)
            if node.kind != "d":
                raise _oserror(errno.ENOTDIR, path)
            del parent.entries[name]
            self.note("rmtree", path)
        except OSError:
            if not ignore_errors:
                raise

    def fsync(self, fd):
        f = self.get_fd(fd)
        self.enter("fsync", f.path, ("eio",))

    # ------------------------------------------------------------- open()
    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
        if not isinstance(mode, str):
            raise TypeError("invalid mode: %r" % mode)
        modes = set(mode)
        if modes - set("axrwb+tU") or len(mode) > len(modes):
            raise ValueError("invalid mode: %r" % mode)
        creating = "x" in modes
        reading = "r" in modes
        writing = "w" in modes
        appending = "a" in modes
        updating = "+" in modes
        text = "t" in modes
        binary = "b" in modes
        if text and binary:
            raise ValueError("can't have text and binary mode at once")
        if creating + reading + writing + appending != 1:
            raise ValueError("must have exactly one of create/read/write/append mode")
        if binary and (encoding or errors or newline is not None):
            raise ValueError("binary mode doesn't take these arguments")
        if isinstance(file, int):
            of = self.get_fd(file)
            of.append = of.append or appending
        else:
            flags = 0
            if reading:
                flags = os.O_RDWR if updating else os.O_RDONLY
            elif writing:
                flags = os.O_CREAT | os.O_TRUNC
            elif appending:
                flags = os.O_CREAT | os.O_APPEND
            elif creating:
                flags = os.O_CREAT | os.O_EXCL
            if not reading:
                flags |= os.O_RDWR if updating else os.O_WRONLY
            if opener is not None:
                of = self.get_fd(opener(file, flags))
            else:
                of = self.open_fd(file, flags)
            if of.is_dir:
                self.fds.pop(of.fd, None)
                raise _oserror(errno.EISDIR, of.path)
        raw = SimRaw(of, file, closefd)
        if appending:
            raw.seek(0, 2)
        line_buffering = False
        if buffering == 1 and not binary:
            line_buffering = True
            buffering = -1
        if buffering < 0 or buffering == 1:
            buffering = self.block if self.block in (64, 256, 512) else 8192
        if buffering == 0:
            if binary:
                return raw
            raise ValueError("can't have unbuffered text I/O")
        if updating:
            buffer = io.BufferedRandom(raw, buffering)
        elif reading:
            buffer = io.BufferedReader(raw, buffering)
        else:
            buffer = io.BufferedWriter(raw, buffering)
        if binary:
            return buffer
        wrapper = io.TextIOWrapper(buffer, encoding or "utf-8", errors, newline,
                                   line_buffering)
        wrapper.mode = mode
        if buffering < 8192:
            wrapper._CHUNK_SIZE = buffering   # the text layer buffers as little
        return wrapper


class SimRaw(io.RawIOBase):
    """the raw file below the real buffered and text layers"""
    def __init__(self, of, name, closefd=True):
        self._of = of
        self.name = name
        self._closefd = closefd
        self.mode = "rb+" if of.readable and of.writable else \
            "rb" if of.readable else "wb"

    def _dead(self):
        # whatever a dead process or a finished run still does has no effect
        sim = self._of.fs.sim
        return self._of.proc.killed or sim.teardown_done

    def readable(self):
        return self._of.readable

    def writable(self):
        return self._of.writable

    def seekable(self):
        return True

    def fileno(self):
        return self._of.fd

    def isatty(self):
        return False

    def readinto(self, b):
        if self._dead():
            raise SimKilled()
        data = self._of.fs.read(self._of, len(b))
        b[:len(data)] = data
        return len(data)

    def readall(self):
        out = b""
        while True:
            data = self._of.fs.read(self._of, 65536) if not self._dead() else b""
            if not data:
                return out
            out += data

    def write(self, b):
        if self._dead():
            return len(b)
        return self._of.fs.write(self._of, bytes(b))

    def seek(self, offset, whence=0):
        of = self._of
        if whence == 0:
            of.pos = offset
        elif whence == 1:
            of.pos += offset
        else:
            of.pos = len(of.node.data) + offset
        return of.pos

    def tell(self):
        return self._of.pos

    def truncate(self, size=None):
        of = self._of
        if self._dead():
            return 0
        if size is None:
            size = of.pos
        if not of.writable:
            raise _oserror(errno.EBADF)
        of.fs.enter("truncate", of.path, ("eio",))
        if size < len(of.node.data):
            del of.node.data[size:]
        else:
            of.node.data.extend(b"\0" * (size - len(of.node.data)))
        of.node.version += 1
        of.fs.note("truncate", of.path)
        return size

    def close(self):
        if self.closed:
            return
        try:
            io.RawIOBase.close(self)
        finally:
            if self._closefd:
                if self._dead():
                    self._of.fs.fds.pop(self._of.fd, None)
                else:
                    self._of.fs.close(self._of)
