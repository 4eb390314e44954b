"""An in-memory disk with a page cache, and the patches that route the Python file interfaces to it.

Only paths under ROOT (and relative paths while a disk is active) are simulated; everything else goes to the real system.
The durable state is separate from the visible one: written data becomes durable on fsync of the file, names become
durable on fsync of the directory; at a crash a PRNG decides which of the pending effects survived (a prefix of the
journal of names; every un-synced write completely, partly or not at all).
"""
import builtins
import errno
import io
import os
import stat as _stat
import types

from .core import SimCrash

ROOT = "/simdisk"
FD0 = 1 << 20


class Inode:
    __slots__ = ("data", "durable", "pending", "ino", "mode")

    def __init__(self, ino):
        self.data = bytearray()
        self.durable = b""
        self.pending = []          # list of ("w", offset, bytes) | ("t", size) since the last fsync
        self.ino = ino
        self.mode = 0o644


class Disk:
    """One simulated disk. `decide(op, path)` is called before each system call and may return a fault."""

    def __init__(self, rng, decide=None, on_event=None):
        self.rng = rng
        self.decide = decide or (lambda op, path, n: None)
        self.on_event = on_event or (lambda *a: None)
        self.names = {}            # absolute path -> Inode (visible)
        self.durable_names = {}
        self.journal = []          # pending ("set", path, inode) | ("del", path)
        self.dirs = {ROOT}
        self.fds = {}
        self.next_fd = FD0
        self.next_ino = 1
        self.cwd = ROOT
        self.dead = False
        self.nops = 0
        self.faults = {}

    # -- helpers
    def owns(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = p.decode("utf-8", "surrogateescape")
        if not p.startswith("/"):
            return True
        return p == ROOT or p.startswith(ROOT + "/")

    def norm(self, path):
        p = os.fspath(path)
        if isinstance(p, bytes):
            p = p.decode("utf-8", "surrogateescape")
        if not p.startswith("/"):
            p = self.cwd + "/" + p
        return os.path.normpath(p)

    def count(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1

    def step(self, op, path, n=0):
        """One system call: returns None or a fault the call has to apply"""
        if self.dead:
            raise SimCrash("disk is gone")
        self.nops += 1
        f = self.decide(op, path, n)
        self.on_event(op, path, n, f)
        if f is None:
            return None
        kind = f if isinstance(f, str) else f[0]
        if kind == "crash":
            self.count("crash_before_" + op)
            self.dead = True
            raise SimCrash("crash before %s" % op)
        if kind in ("EIO", "ENOSPC", "EACCES", "EMFILE", "EROFS", "EINTR"):
            self.count(kind + "_on_" + op)
            raise OSError(getattr(errno, kind), os.strerror(getattr(errno, kind)), path)
        if kind == "raise":
            self.count(type(f[1]).__name__ + "_on_" + op)
            raise f[1]
        return f

    def after(self, f):
        if f is not None and f[0] == "crash_after":
            self.count("crash_after")
            self.dead = True
            raise SimCrash("crash after call")

    # -- system calls
    def open(self, path, flags, mode=0o644):
        p = self.norm(path)
        wr = flags & (os.O_WRONLY | os.O_RDWR)
        f = self.step("open_w" if wr else "open_r", p)
        if p in self.dirs:
            if wr:
                raise IsADirectoryError(errno.EISDIR, "Is a directory", p)
            fd = self._fd({"dir": p, "path": p, "pos": 0, "flags": flags})
            self.after(f)
            return fd
        if os.path.dirname(p) not in self.dirs:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", p)
        ino = self.names.get(p)
        if ino is None:
            if not flags & os.O_CREAT:
                raise FileNotFoundError(errno.ENOENT, "No such file or directory", p)
            ino = Inode(self.next_ino)
            self.next_ino += 1
            self.names[p] = ino
            self.journal.append(("set", p, ino))
        elif flags & os.O_CREAT and flags & os.O_EXCL:
            raise FileExistsError(errno.EEXIST, "File exists", p)
        if wr and flags & os.O_TRUNC and len(ino.data):
            del ino.data[:]
            ino.pending.append(("t", 0))
        fd = self._fd({"ino": ino, "path": p, "pos": len(ino.data) if flags & os.O_APPEND else 0, "flags": flags})
        self.after(f)
        return fd

    def _fd(self, d):
        fd = self.next_fd
        self.next_fd += 1
        self.fds[fd] = d
        return fd

    def _get(self, fd):
        d = self.fds.get(fd)
        if d is None:
            raise OSError(errno.EBADF, "Bad file descriptor")
        return d

    def write(self, fd, data):
        d = self._get(fd)
        data = bytes(data)
        f = self.step("write", d["path"], len(data))
        n = len(data)
        if f is not None and f[0] == "short":
            n = max(1, min(n, int(n * f[1]))) if n else 0
            if n < len(data):
                self.count("short_write")
        if f is not None and f[0] == "partial_error":
            n = min(n, int(n * f[1]))
            self._apply(d, data[:n])
            self.count("partial_write_then_" + f[2])
            raise OSError(getattr(errno, f[2]), os.strerror(getattr(errno, f[2])), d["path"])
        if f is not None and f[0] == "torn_crash":
            n = min(n, int(n * f[1]))
            self._apply(d, data[:n])
            self.count("torn_write_at_crash")
            self.dead = True
            raise SimCrash("crash in write")
        self._apply(d, data[:n])
        self.after(f)
        return n

    def _apply(self, d, data):
        ino = d["ino"]
        pos = len(ino.data) if d["flags"] & os.O_APPEND else d["pos"]
        if pos > len(ino.data):
            ino.data.extend(b"\0" * (pos - len(ino.data)))
        ino.data[pos:pos + len(data)] = data
        d["pos"] = pos + len(data)
        if data:
            ino.pending.append(("w", pos, data))

    def read(self, fd, n):
        d = self._get(fd)
        f = self.step("read", d["path"], n)
        ino = d["ino"]
        if f is not None and f[0] == "short_read":
            n = max(1, min(n, f[1]))
            self.count("short_read")
        out = bytes(ino.data[d["pos"]:d["pos"] + n])
        d["pos"] += len(out)
        return out

    def lseek(self, fd, off, whence):
        d = self._get(fd)
        base = {0: 0, 1: d["pos"], 2: len(d["ino"].data)}[whence]
        d["pos"] = base + off
        return d["pos"]

    def ftruncate(self, fd, size):
        d = self._get(fd)
        f = self.step("truncate", d["path"])
        ino = d["ino"]
        if size < len(ino.data):
            del ino.data[size:]
        else:
            ino.data.extend(b"\0" * (size - len(ino.data)))
        ino.pending.append(("t", size))
        self.after(f)

    def fsync(self, fd):
        d = self._get(fd)
        f = self.step("fsync_dir" if "dir" in d else "fsync", d["path"])
        if "dir" in d:
            for e in self.journal:
                self._replay(self.durable_names, e)
            self.journal = []
        else:
            ino = d["ino"]
            ino.durable = bytes(ino.data)
            ino.pending = []
        self.after(f)

    @staticmethod
    def _replay(names, e):
        if e[0] == "set":
            names[e[1]] = e[2]
        elif e[0] == "del":
            names.pop(e[1], None)
        elif e[0] == "mv":
            i = names.pop(e[1], None)
            names[e[2]] = e[3]

    def close(self, fd):
        d = self._get(fd)
        f = None
        try:
            f = self.step("close", d["path"])
        finally:
            if not self.dead:
                self.fds.pop(fd, None)
        self.after(f)

    def rename(self, a, b, op="rename"):
        pa, pb = self.norm(a), self.norm(b)
        f = self.step(op, pb)
        if pa not in self.names:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", pa)
        ino = self.names.pop(pa)
        self.names[pb] = ino
        self.journal.append(("mv", pa, pb, ino))
        self.after(f)

    def link(self, a, b):
        pa, pb = self.norm(a), self.norm(b)
        f = self.step("link", pb)
        if pb in self.names:
            raise FileExistsError(errno.EEXIST, "File exists", pb)
        self.names[pb] = self.names[pa]
        self.journal.append(("set", pb, self.names[pa]))
        self.after(f)

    def unlink(self, path):
        p = self.norm(path)
        f = self.step("unlink", p)
        if p not in self.names:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", p)
        del self.names[p]
        self.journal.append(("del", p))
        self.after(f)

    def stat(self, path):
        if isinstance(path, int):
            d = self._get(path)
            if "dir" in d:
                return self._st(True, 0, 0)
            return self._st(False, len(d["ino"].data), d["ino"].ino)
        p = self.norm(path)
        if self.dead:
            raise SimCrash("disk is gone")
        if p in self.dirs:
            return self._st(True, 0, 0)
        ino = self.names.get(p)
        if ino is None:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", p)
        return self._st(False, len(ino.data), ino.ino)

    @staticmethod
    def _st(isdir, size, ino):
        mode = (_stat.S_IFDIR | 0o755) if isdir else (_stat.S_IFREG | 0o644)
        return os.stat_result((mode, ino, 7, 1, 0, 0, size, 0, 0, 0))

    # -- machine-level events
    def snapshot(self):
        return {p: bytes(i.data) for p, i in self.names.items()}

    def reboot(self, mode=None):
        """The state after power loss: chosen among those the pending effects allow. Returns a description."""
        k = self.rng.randint(0, len(self.journal)) if mode is None else (0 if mode == "none" else len(self.journal))
        names = dict(self.durable_names)
        for e in self.journal[:k]:
            self._replay(names, e)
        lost = len(self.journal) - k
        if lost:
            self.count("directory_update_lost")
        out = {}
        seen = {}
        for p, ino in names.items():
            if ino.ino not in seen:
                seen[ino.ino] = self._survive(ino, mode)
            out[p] = seen[ino.ino]
        self.names = {}
        self.durable_names = {}
        self.journal = []
        self.fds = {}
        self.dead = False
        for p, data in out.items():
            i = Inode(self.next_ino)
            self.next_ino += 1
            i.data = bytearray(data)
            i.durable = bytes(data)
            self.names[p] = i
            self.durable_names[p] = i
        return lost

    def _survive(self, ino, mode):
        data = bytearray(ino.durable)
        for e in ino.pending:
            u = self.rng.random() if mode is None else (1.0 if mode == "none" else 0.0)
            if e[0] == "t":
                if u < 0.6:
                    data = data[:e[1]] if e[1] < len(data) else data + b"\0" * (e[1] - len(data))
                continue
            _, off, w = e
            if u < 0.45:
                pass
            elif u < 0.7:
                w = w[:self.rng.randint(0, len(w))]
                self.count("torn_write")
            else:
                self.count("lost_write")
                continue
            if off > len(data):
                data.extend(b"\0" * (off - len(data)))
            data[off:off + len(w)] = w
        return bytes(data)

    def settle(self):
        """Everything written so far is durable (used to set up a case)"""
        for i in self.names.values():
            i.durable = bytes(i.data)
            i.pending = []
        self.durable_names = dict(self.names)
        self.journal = []

    def put(self, path, data):
        p = self.norm(path)
        i = Inode(self.next_ino)
        self.next_ino += 1
        i.data = bytearray(data)
        i.durable = bytes(data)
        self.names[p] = i
        self.durable_names[p] = i

    def peek(self, path):
        i = self.names.get(self.norm(path))
        return None if i is None else bytes(i.data)


class _Raw(io.RawIOBase):
    def __init__(self, disk, fd, flags, name, closefd=True):
        self._disk = disk
        self._fd = fd
        self._flags = flags
        self.name = name
        self._closefd = closefd
        self.mode = "rb+"

    def fileno(self):
        return self._fd

    def readable(self):
        return not (self._flags & os.O_WRONLY)

    def writable(self):
        return bool(self._flags & (os.O_WRONLY | os.O_RDWR))

    def seekable(self):
        return True

    def isatty(self):
        return False

    def readinto(self, b):
        data = self._disk.read(self._fd, len(b))
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        return self._disk.write(self._fd, b)

    def seek(self, off, whence=0):
        return self._disk.lseek(self._fd, off, whence)

    def tell(self):
        return self._disk.lseek(self._fd, 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        self._disk.ftruncate(self._fd, size)
        return size

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                if self._closefd and self._fd in self._disk.fds:
                    if self._disk.dead:
                        self._disk.fds.pop(self._fd, None)
                    else:
                        self._disk.close(self._fd)


def _flags(mode):
    m = mode.replace("b", "").replace("t", "")
    plus = "+" in m
    c = m.replace("+", "")
    if c == "r":
        return os.O_RDWR if plus else os.O_RDONLY
    base = os.O_CREAT | (os.O_RDWR if plus else os.O_WRONLY)
    if c == "w":
        return base | os.O_TRUNC
    if c == "a":
        return base | os.O_APPEND
    if c == "x":
        return base | os.O_EXCL
    raise ValueError("invalid mode: %r" % mode)


def install():
    from . import seams
    SIM = seams.SIM
    R = types.SimpleNamespace(**{k: getattr(os, k) for k in (
        "open", "write", "read", "fsync", "close", "rename", "replace", "unlink", "remove", "stat", "lstat", "fstat",
        "ftruncate", "lseek", "getcwd", "fdopen", "mkdir", "access", "link", "chmod", "fchmod", "listdir", "truncate", "utime")})
    R.fdatasync = getattr(os, "fdatasync", None)
    real_open = builtins.open

    def simulated(path):
        d = SIM.disk
        if d is None:
            return None
        if isinstance(path, int):
            return d if path >= FD0 else None
        return d if d.owns(path) else None

    def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        d = simulated(file)
        if d is None and not (SIM.disk is not None and opener is not None):
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        flags = _flags(mode)
        if isinstance(file, int):
            fd = file
        elif opener is not None:
            fd = opener(file, flags)
            if fd < FD0:
                R.close(fd)
                return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            d = SIM.disk
        else:
            fd = d.open(file, flags)
        name = file
        if isinstance(file, int):
            flags = d.fds[fd]["flags"]
        raw = _Raw(d, fd, flags, name, closefd)
        if buffering == 0:
            return raw
        size = 8192 if buffering in (-1, 1) else buffering
        plus = "+" in mode
        if plus:
            buf = io.BufferedRandom(raw, size)
        elif raw.writable() and not raw.readable():
            buf = io.BufferedWriter(raw, size)
        elif "r" in mode:
            buf = io.BufferedReader(raw, size)
        else:
            buf = io.BufferedWriter(raw, size)
        if "b" in mode:
            return buf
        text = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, line_buffering=(buffering == 1))
        text.mode = mode
        return text

    def route1(name, method=None):
        real = getattr(R, name)

        def f(path, *a, **kw):
            d = simulated(path)
            if d is None:
                return real(path, *a, **kw)
            return method(d, path, *a, **kw)
        f.__name__ = name
        setattr(os, name, f)

    def o_open(d, path, flags, mode=0o777, *, dir_fd=None):
        return d.open(path, flags, mode)

    route1("open", o_open)
    route1("write", lambda d, fd, data: d.write(fd, data))
    route1("read", lambda d, fd, n: d.read(fd, n))
    route1("fsync", lambda d, fd: d.fsync(fd))
    if R.fdatasync:
        route1("fdatasync", lambda d, fd: d.fsync(fd))
    route1("close", lambda d, fd: d.close(fd))
    route1("unlink", lambda d, p, **kw: d.unlink(p))
    route1("remove", lambda d, p, **kw: d.unlink(p))
    route1("stat", lambda d, p, **kw: d.stat(p))
    route1("lstat", lambda d, p, **kw: d.stat(p))
    route1("fstat", lambda d, p: d.stat(p))
    route1("ftruncate", lambda d, fd, n: d.ftruncate(fd, n))
    route1("lseek", lambda d, fd, o, w: d.lseek(fd, o, w))
    route1("mkdir", lambda d, p, *a, **kw: d.dirs.add(d.norm(p)))
    route1("access", lambda d, p, *a, **kw: d.norm(p) in d.names or d.norm(p) in d.dirs)
    route1("chmod", lambda d, p, *a, **kw: None)
    route1("fchmod", lambda d, p, *a, **kw: None)
    route1("utime", lambda d, p, *a, **kw: None)
    route1("listdir", lambda d, p=".": sorted(os.path.basename(x) for x in d.names if os.path.dirname(x) == d.norm(p)))

    def two(name):
        real = getattr(R, name)

        def f(a, b, **kw):
            d = SIM.disk
            if d is None or not (d.owns(a) or d.owns(b)):
                return real(a, b, **kw)
            if not (d.owns(a) and d.owns(b)):
                raise OSError(errno.EXDEV, "Invalid cross-device link", a, None, b)
            if name == "link":
                return d.link(a, b)
            return d.rename(a, b, name)
        setattr(os, name, f)
    for n in ("rename", "replace", "link"):
        two(n)

    def fdopen(fd, mode="r", buffering=-1, encoding=None, *a, **kw):
        if isinstance(fd, int) and fd >= FD0 and SIM.disk is not None:
            return sim_open(fd, mode, buffering, encoding, *a, **kw)
        return R.fdopen(fd, mode, buffering, encoding, *a, **kw)
    os.fdopen = fdopen

    def getcwd():
        return SIM.disk.cwd if SIM.disk is not None else R.getcwd()
    os.getcwd = getcwd

    # os.path looks names up through os.stat at call time in genericpath
    import genericpath
    import posixpath

    def exists(path):
        try:
            os.stat(path)
        except (OSError, ValueError):
            return False
        return True

    def isfile(path):
        try:
            return _stat.S_ISREG(os.stat(path).st_mode)
        except (OSError, ValueError):
            return False

    def isdir(path):
        try:
            return _stat.S_ISDIR(os.stat(path).st_mode)
        except (OSError, ValueError):
            return False
    for mod in (genericpath, posixpath):
        mod.exists = exists
        mod.isfile = isfile
        mod.isdir = isdir
    builtins.open = sim_open
    io.open = sim_open
