"""Simulated disk: every file call below a scratch directory, by anyone in the process.

The calls act on a real directory (so that calls that are not simulated, like stat,
agree with them) and are recorded in a journal of events. From the journal the disk
can be rebuilt as a crash at any event leaves it:

* a crash of the process keeps the effect of every completed call;
* a loss of power keeps, of the calls not yet made durable by fsync, some prefix of
  those on names (create, rename, unlink, ...) in their order, at least those before
  the last fsync, and an arbitrary part of the writes: each may be kept, lost, torn
  or read back as zeros.
"""
import contextlib
import ctypes
import errno
import os
import random
import shutil
import stat
import sys
import threading

OPS = {1: "open", 2: "read", 3: "write", 4: "close", 5: "fsync", 6: "rename",
       7: "unlink", 8: "rmdir", 9: "mkdir", 10: "trunc", 11: "link", 12: "symlink",
       13: "dup", 14: "other", 15: "chmod"}
HANDLER = ctypes.CFUNCTYPE(ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_char_p,
                           ctypes.c_char_p, ctypes.c_long, ctypes.c_long, ctypes.c_void_p)

# Errors that the calls may return in practice.
ERRORS = {
    "open": ["EIO", "ENOSPC", "EACCES", "EMFILE", "EDQUOT", "EROFS"],
    "opendir": ["EIO", "EMFILE"],
    "read": ["EIO"],
    "write": ["EIO", "ENOSPC", "EDQUOT", "EFBIG"],
    "close": ["EIO", "EDQUOT"],
    "fsync": ["EIO", "ENOSPC", "EDQUOT"],
    "rename": ["EIO", "ENOSPC", "EACCES", "EROFS"],
    "unlink": ["EIO", "EACCES", "EROFS"],
    "rmdir": ["EIO", "EACCES"],
    "mkdir": ["EIO", "ENOSPC", "EACCES", "EROFS"],
    "trunc": ["EIO", "ENOSPC"],
    "link": ["EPERM"],
    "symlink": ["EPERM"],
    "other": ["ENOSPC"],
    "chmod": ["EPERM", "EIO"],
}
AT_FDCWD = -100

_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(None)
        _lib.shim_files.argtypes = [ctypes.c_char_p, ctypes.c_void_p]
        _lib.shim_files.restype = None
        _lib.shim_bypass.argtypes = [ctypes.c_int]
        _lib.shim_clock_start.argtypes = [ctypes.c_int64, ctypes.c_int64, ctypes.c_long,
                                          ctypes.c_void_p, ctypes.c_void_p]
        _lib.shim_clock_add.argtypes = [ctypes.c_int64]
        _lib.shim_clock_step.argtypes = [ctypes.c_int64]
        _lib.shim_clock_stop.argtypes = [ctypes.c_void_p]
    return _lib


class Crashed(BaseException):
    """Unwinds the stack of a simulated process that is no more."""


class Faults:
    """Decides, deterministically, which calls fail. Subclasses override `decide`."""

    def __init__(self, plan, stats):
        self.plan = [dict(f) for f in plan]
        self.stats = stats
        self.count = 0
        self.used = 0
        self.rngs = [random.Random(f.get("seed", 0)) for f in self.plan]
        self.fired = []
        self.eintr = 0

    def _fire(self, kind, what):
        self.stats.fault(kind)
        self.fired.append(what)

    def decide(self, op, path, n):
        """None, ('errno', e) or ('short', m) for a call that moves n bytes."""
        k = self.count
        self.count += 1
        out = None
        for f, rng in zip(self.plan, self.rngs):
            kind = f["kind"]
            if kind == "errno":
                hit = f["at"] == k or (f.get("sticky") and k > f["at"] and op == f.get("_op")
                                       and op != "unlink" and op != "rmdir")
                if hit and out is None:
                    names = ERRORS.get(op)
                    if names:
                        f["_op"] = op
                        e = names[f.get("err", 0) % len(names)]
                        self._fire(f"{op}:{e}", f"{op}:{e}@{k}")
                        out = ("errno", getattr(errno, e))
            elif kind == "short":
                if op in ("read", "write") and n > 1 and rng.random() < f["p"]:
                    m = rng.choice([1, max(1, n // 2), n - 1, rng.randint(1, n)])
                    if m < n and out is None:
                        self.stats.fault("short_" + op)
                        out = ("short", m)
            elif kind == "eintr":
                if op in ("read", "write") and rng.random() < f["p"] and self.eintr < 1000:
                    self.eintr += 1
                    if out is None:
                        self.stats.fault("EINTR_" + op)
                        out = ("errno", errno.EINTR)
            elif kind == "capacity" and op == "write":
                left = f["bytes"] - self.used
                if n > left and out is None:
                    self._fire("disk_full", f"disk_full@{k}")
                    out = ("short", left) if left > 0 else ("errno", errno.ENOSPC)
        if op == "write":
            if out is None:
                self.used += n
            elif out[0] == "short":
                self.used += out[1]
        return out


class Disk:
    """A scratch directory whose file calls are simulated while `running()`."""

    def __init__(self, root, stats):
        self.root = os.path.realpath(root)
        self.stats = stats
        self.faults = None
        self.on_call = None  # hook(op, path) before each call, e.g. a thread switch
        self.dead = set()  # idents of threads whose process has crashed
        self.errors = []
        self.calls = 0
        self._cb = HANDLER(self._handle)
        self.reset()

    # ------------------------------------------------------------------ journal
    def reset(self):
        """Start a journal from the present content, which counts as durable."""
        self.fds = {}  # descriptors left open before are no longer part of the simulation
        self.inodes = {}
        self.names = {}
        self.events = []
        self.initial = self.content()
        self.next = 0
        for name, data in self.initial.items():
            self.names[name] = self._inode(name, data)
        self.initial_names = dict(self.names)
        self.initial_data = dict(self.inodes)

    def _inode(self, name, data):
        ino = self.next
        self.next += 1
        self.inodes[ino] = data
        return ino

    def content(self, root=None):
        """{relative name: bytes | None for a directory | ('link', target)}."""
        out = {}
        root = root or self.root
        with bypass():
            for d, dirs, files in os.walk(root):
                dirs.sort()
                for name in list(dirs):
                    p = os.path.join(d, name)
                    if os.path.islink(p):
                        out[os.path.relpath(p, root)] = ("link", os.readlink(p))
                    else:
                        out[os.path.relpath(p, root)] = None
                for name in sorted(files):
                    p = os.path.join(d, name)
                    if os.path.islink(p):
                        out[os.path.relpath(p, root)] = ("link", os.readlink(p))
                    else:
                        with open(p, "rb") as f:
                            out[os.path.relpath(p, root)] = f.read()
        return dict(sorted(out.items()))

    def restore(self, content):
        """Make the directory hold exactly `content`."""
        with bypass():
            for name in os.listdir(self.root):
                p = os.path.join(self.root, name)
                if os.path.isdir(p) and not os.path.islink(p):
                    shutil.rmtree(p)
                else:
                    os.unlink(p)
            for name, data in sorted(content.items()):
                p = os.path.join(self.root, name)
                if data is None:
                    os.makedirs(p, exist_ok=True)
                    continue
                os.makedirs(os.path.dirname(p), exist_ok=True)
                if isinstance(data, tuple):
                    os.symlink(data[1], p)
                else:
                    with open(p, "wb") as f:
                        f.write(data)
        self.reset()

    def after_crash(self, at, seed, power):
        """Content of the disk after a crash just before event number `at`.

        `power` tells a loss of power from a crash of the process; `seed` decides what
        is kept of the calls that may be lost, and of a write under way.
        """
        events = self.events[:at]
        torn = None
        if at < len(self.events) and self.events[at][0] == "write":
            torn = self.events[at]
        rng = random.Random(seed)
        cut, data_from = len(events), {}
        if power:
            last = 0
            for i, e in enumerate(events):
                if e[0] in ("sync", "dirsync"):
                    last = i + 1
                if e[0] == "sync":
                    data_from[e[1]] = i
            cut = rng.randint(last, len(events)) if rng.random() < 0.6 else rng.choice([last, len(events)])
        names = dict(self.initial_names)
        data = {i: bytearray(d) if isinstance(d, (bytes, bytearray)) else d
                for i, d in self.initial_data.items()}
        for i, e in enumerate(events):
            kind = e[0]
            if kind == "write":
                ino, off, blob = e[1:]
                if power and i > data_from.get(ino, -1):
                    fate = rng.choice(["keep", "lose", "tear", "zero"])
                    if fate == "lose":
                        continue
                    if fate == "tear":
                        blob = blob[:rng.randint(0, len(blob))]
                    elif fate == "zero":
                        blob = bytes(len(blob))
                _put(data.setdefault(ino, bytearray()), off, blob)
            elif kind in ("sync", "dirsync"):
                continue
            elif i < cut or (kind == "size" and i <= data_from.get(e[1], -1)):
                self._apply(names, data, e)
        if torn is not None and rng.random() < 0.5:
            ino, off, blob = torn[1:]
            _put(data.setdefault(ino, bytearray()), off, blob[:rng.randint(0, len(blob))])
        out = {}
        for name, ino in names.items():
            d = data.get(ino, b"")
            out[name] = bytes(d) if isinstance(d, (bytes, bytearray)) else d
        return dict(sorted(out.items()))

    @staticmethod
    def _apply(names, data, e):
        kind = e[0]
        if kind == "create":
            names[e[1]] = e[2]
            data.setdefault(e[2], bytearray())
        elif kind == "mkdir":
            names[e[1]] = e[2]
            data[e[2]] = None
        elif kind == "symlink":
            names[e[1]] = e[2]
            data[e[2]] = ("link", e[3])
        elif kind == "size":
            d = data.setdefault(e[1], bytearray())
            if len(d) > e[2]:
                del d[e[2]:]
            else:
                d.extend(bytes(e[2] - len(d)))
        elif kind == "rename":
            a, b = e[1:]
            moved = {n: i for n, i in names.items() if n == a or n.startswith(a + "/")}
            for n in [n for n in names if n == b]:
                del names[n]
            for n, i in moved.items():
                del names[n]
                names[b + n[len(a):]] = i
        elif kind == "unlink":
            names.pop(e[1], None)
        elif kind == "link":
            if e[1] in names:
                names[e[2]] = names[e[1]]

    def _event(self, *e):
        self.events.append(e)
        if e[0] not in ("write", "sync", "dirsync", "size"):
            self._apply(self.names, {}, e)

    # ------------------------------------------------------------------ handler
    @contextlib.contextmanager
    def running(self, faults=None):
        """Simulate the file calls below the root within the block."""
        lib().shim_files(os.fsencode(self.root), ctypes.cast(self._cb, ctypes.c_void_p))
        before, self.faults = self.faults, faults
        try:
            yield self
        finally:
            self.faults = before
            lib().shim_files(None, None)

    def _path(self, dirfd, path):
        path = os.fsdecode(path)
        if not os.path.isabs(path):
            if dirfd == AT_FDCWD:
                path = os.path.join(os.getcwd(), path)
            else:
                of = self.fds.get(dirfd)
                base = os.path.join(self.root, of["name"]) if of else os.readlink(f"/proc/self/fd/{dirfd}")
                path = os.path.join(base, path)
        # resolve links in the directory part only
        head, tail = os.path.split(os.path.normpath(path))
        return os.path.join(os.path.realpath(head), tail)

    def _rel(self, path):
        return os.path.relpath(path, self.root)

    def _handle(self, op, fd, p, q, a, b, buf):
        try:
            return self._do(OPS[op], fd, p, q, a, b, buf)
        except OSError as e:
            return -(e.errno or errno.EIO)
        except BaseException as e:  # a defect of the simulator, not of the code under test
            import traceback
            self.errors.append(traceback.format_exc())
            return -errno.EIO

    def _do(self, op, fd, p, q, a, b, buf):
        if fd not in self.fds and op in ("read", "write", "close", "fsync", "trunc", "dup", "other") or \
                op == "chmod" and p is None and fd not in self.fds:
            return self._orphan(op, fd, a, b, buf)
        self.calls += 1
        self.stats.count("file_calls")
        of = self.fds.get(fd) if op not in ("open", "rename", "unlink", "rmdir", "mkdir", "link", "symlink") else None
        path = None
        if p is not None:
            path = self._path(fd, p)
        elif of:
            path = os.path.join(self.root, of["name"])
        if self.on_call is not None:
            self.on_call(op, path)
        if threading.get_ident() in self.dead and op != "close":
            return -errno.EIO
        n = a if op in ("read", "write") else 0
        kind = "opendir" if op == "open" and os.path.isdir(path) else op
        if of and of["dir"]:
            kind = op + "dir"
        verdict = self.faults.decide(kind, path, n) if self.faults is not None and op != "dup" else None
        if verdict is not None and verdict[0] == "errno" and op != "close":
            return -verdict[1]
        if verdict is not None and verdict[0] == "short":
            n = verdict[1]
        return getattr(self, "_" + op)(fd, path, q, a, b, buf, n, of, verdict)

    def _orphan(self, op, fd, a, off, buf):
        """A call on a descriptor that was opened before the last reset and never closed."""
        if op == "read":
            data = os.read(fd, a) if off < 0 else os.pread(fd, a, off)
            ctypes.memmove(buf, data, len(data))
            return len(data)
        if op == "write":
            data = ctypes.string_at(buf, a)
            return os.write(fd, data) if off < 0 else os.pwrite(fd, data, off)
        if op == "close":
            os.close(fd)
        elif op == "trunc":
            os.ftruncate(fd, a)
        return 0

    def _open(self, fd, path, q, flags, mode, buf, n, of, v):
        real = os.path.realpath(path) if not flags & os.O_NOFOLLOW else path
        existed = os.path.lexists(real)
        new = os.open(real, flags, mode)
        name = self._rel(real)
        isdir = stat.S_ISDIR(os.fstat(new).st_mode)
        if flags & getattr(os, "O_TMPFILE", 0) == getattr(os, "O_TMPFILE", -1):
            os.close(new)
            return -errno.EOPNOTSUPP
        if not isdir:
            if not existed:
                self._event("create", name, self._inode(name, b""))
            elif flags & os.O_TRUNC and (flags & os.O_ACCMODE) != os.O_RDONLY:
                self._event("size", self.names[name], 0)
        self.fds[new] = {"name": name, "ino": None if isdir else self.names.get(name),
                         "append": bool(flags & os.O_APPEND), "dir": isdir}
        return new

    def _read(self, fd, path, q, a, off, buf, n, of, v):
        data = os.read(fd, n) if off < 0 else os.pread(fd, n, off)
        ctypes.memmove(buf, data, len(data))
        return len(data)

    def _write(self, fd, path, q, a, off, buf, n, of, v):
        data = ctypes.string_at(buf, n)
        if off < 0:
            off = os.fstat(fd).st_size if of["append"] else os.lseek(fd, 0, os.SEEK_CUR)
            done = os.write(fd, data)
        else:
            done = os.pwrite(fd, data, off)
        self._event("write", of["ino"], off, data[:done])
        return done

    def _close(self, fd, path, q, a, b, buf, n, of, v):
        self.fds.pop(fd, None)
        os.close(fd)
        return -v[1] if v is not None and v[0] == "errno" else 0

    def _fsync(self, fd, path, q, a, b, buf, n, of, v):
        self._event("dirsync") if of["dir"] else self._event("sync", of["ino"])
        return 0

    def _trunc(self, fd, path, q, a, b, buf, n, of, v):
        os.ftruncate(fd, a)
        self._event("size", of["ino"], a)
        return 0

    def _dup(self, fd, path, q, a, b, buf, n, of, v):
        self.fds[a] = of
        return a

    def _other(self, fd, path, q, a, b, buf, n, of, v):
        os.posix_fallocate(fd, a, b)
        size = os.fstat(fd).st_size
        self._event("size", of["ino"], size)
        return 0

    def _chmod(self, fd, path, q, a, b, buf, n, of, v):
        os.chmod(path if path is not None else fd, a)
        return 0

    def _rename(self, fd, path, q, a, b, buf, n, of, v):
        to = self._path(a, q)
        os.rename(path, to)
        if path.startswith(self.root) and to.startswith(self.root):
            self._event("rename", self._rel(path), self._rel(to))
        elif to.startswith(self.root):
            with open(to, "rb") as f:
                data = f.read()
            name = self._rel(to)
            ino = self._inode(name, b"")
            self._event("create", name, ino)
            self._event("write", ino, 0, data)
        else:
            self._event("unlink", self._rel(path))
        return 0

    def _unlink(self, fd, path, q, a, b, buf, n, of, v):
        os.unlink(path)
        self._event("unlink", self._rel(path))
        return 0

    def _rmdir(self, fd, path, q, a, b, buf, n, of, v):
        os.rmdir(path)
        self._event("unlink", self._rel(path))
        return 0

    def _mkdir(self, fd, path, q, a, b, buf, n, of, v):
        os.mkdir(path, a)
        name = self._rel(path)
        self._event("mkdir", name, self._inode(name, None))
        return 0

    def _link(self, fd, path, q, a, b, buf, n, of, v):
        to = self._path(a, q)
        os.link(path, to)
        self._event("link", self._rel(path), self._rel(to))
        return 0

    def _symlink(self, fd, path, q, a, b, buf, n, of, v):
        to = self._path(a, q)
        os.symlink(path, to)
        name = self._rel(to)
        self._event("symlink", name, self._inode(name, b""), path)
        return 0


def _put(d, off, blob):
    if len(d) < off:
        d.extend(bytes(off - len(d)))
    d[off:off + len(blob)] = blob


@contextlib.contextmanager
def bypass():
    """File calls of this thread within the block are not simulated."""
    lib().shim_bypass(1)
    try:
        yield
    finally:
        lib().shim_bypass(0)


class Clock:
    """Virtual clocks of the whole process, C and python: a monotonic one and the wall clock."""

    def __init__(self, now, tick, jumps, stats):
        self.args = now, tick, jumps
        self.stats = stats
        self.out = None

    def __enter__(self):
        now, tick, jumps = self.args
        at = (ctypes.c_int64 * max(1, len(jumps)))(*[j[0] for j in jumps])
        by = (ctypes.c_int64 * max(1, len(jumps)))(*[j[1] for j in jumps])
        lib().shim_clock_start(now, tick, len(jumps), at, by)
        return self

    def add(self, ns):
        """Time passes; a negative time steps the wall clock back."""
        lib().shim_clock_add(ns)

    def step(self, ns):
        """The wall clock is set, time does not pass."""
        lib().shim_clock_step(ns)

    def __exit__(self, *exc):
        out = (ctypes.c_int64 * 4)()
        lib().shim_clock_stop(out)
        self.out = {"reads": out[0], "end": out[1], "low": out[2], "high": out[3]}
        self.stats.count("clock_reads", out[0])
        self.stats.count("simulated_ns", out[3] - out[2])
        return False
