"""Simulated disk: real files in a scratch directory behind a fault-injecting seam.

Every file-system operation an actor performs passes through one gate
(`Disk.op`), either from the interpreter's audit events (open, mkdir, rename,
remove, rmdir, symlink, link, chmod, utime, truncate, scandir, ...) or from
replaced functions for what has no audit event (stat, sendfile, write, read,
close).  The gate is where an actor may be descheduled, get an error, be cut
short, or be killed.  Nothing outside the scratch directory can be changed
through it: such an attempt is recorded and refused.
"""
import _io
import builtins
import errno
import io
import os
import stat as statmod
import sys
import threading

from . import sched as S


class Crash(BaseException):
    """The simulated process is killed here."""


ACTIVE = None            # the Disk of this (forked) run
_tl = threading.local()

_real = {}

MUTATING = {"create", "mkdir", "rename", "remove", "rmdir", "symlink", "link", "chmod", "chown", "utime", "truncate",
            "setxattr", "write", "sendfile"}
ERRNOS = {k: getattr(errno, k) for k in
          ("ENOSPC", "EIO", "EACCES", "EPERM", "EROFS", "EDQUOT", "EMFILE", "ENOMEM", "EINTR", "EBUSY", "ESTALE",
           "ENAMETOOLONG", "ENFILE", "ETXTBSY")}

# which errors a real disk can give for which operation
LEGAL = {
    "open": ["EIO", "EACCES", "EMFILE", "ENFILE", "ENOMEM"],
    "create": ["ENOSPC", "EIO", "EACCES", "EROFS", "EDQUOT", "EMFILE"],
    "mkdir": ["ENOSPC", "EIO", "EACCES", "EROFS", "EDQUOT"],
    "rename": ["ENOSPC", "EIO", "EACCES", "EROFS", "EBUSY"],
    "remove": ["EIO", "EACCES", "EROFS", "EBUSY"],
    "rmdir": ["EIO", "EACCES", "EROFS", "EBUSY"],
    "symlink": ["ENOSPC", "EIO", "EACCES", "EROFS", "EDQUOT"],
    "link": ["ENOSPC", "EIO", "EACCES", "EROFS"],
    "chmod": ["EIO", "EPERM", "EROFS"],
    "chown": ["EPERM"],
    "utime": ["EIO", "EPERM", "EROFS"],
    "truncate": ["EIO", "EROFS"],
    "setxattr": ["ENOSPC", "EIO"],
    "scandir": ["EIO", "EACCES", "EMFILE", "ENOMEM"],
    "stat": ["EIO", "EACCES", "ESTALE"],
    "read": ["EIO", "ESTALE"],
    "write": ["ENOSPC", "EIO", "EDQUOT"],
    "sendfile": ["ENOSPC", "EIO", "EDQUOT"],
    "close": ["EIO", "ENOSPC", "EDQUOT"],
    "readlink": ["EIO"],
}


class Disk:
    """One simulated machine's disk as seen by the actors of one run."""

    def __init__(self, root, protected, log, result):
        self.root = os.path.realpath(root)
        self.protected = [os.path.realpath(p) for p in protected]
        self.log = log
        self.result = result
        self.actors = {}          # actor idx -> per-actor fault state
        self.escapes = []
        self.source_touched = []
        self.observers = []       # called (disk, kind, path) before each mutation, and after each op
        self.no_fileno = False
        self.trace = []
        self.sched = None
        self.interesting = None   # optional path filter
        self.ops_by_kind = {}

    def actor_faults(self, idx, plan):
        self.actors[idx] = {"n": 0, "plan": {int(f["op"]): f for f in plan}, "dead": False, "mode": None,
                            "injected": [], "ops": []}

    # -- paths
    def norm(self, path, dir_fd=None):
        if isinstance(path, int):
            try:
                return _real["readlink"]("/proc/self/fd/%d" % path)
            except OSError:
                return None
        try:
            p = os.fsdecode(path)
        except TypeError:
            return None
        if dir_fd is not None and dir_fd != -1 and not os.path.isabs(p):
            try:
                p = os.path.join(_real["readlink"]("/proc/self/fd/%d" % dir_fd), p)
            except OSError:
                return None
        if not os.path.isabs(p):
            p = os.path.join(os.getcwd(), p)
        return os.path.normpath(p)

    def _where(self, p, follow):
        """Resolve links in the directory part (and the last part if follow)."""
        q = os.path.realpath(p) if follow else os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))
        if q == self.root or q.startswith(self.root + os.sep):
            return "in"
        for pr in self.protected:
            if q == pr or q.startswith(pr + os.sep):
                return "protected"
        return "out"

    def op(self, kind, path, dir_fd=None, nbytes=None, follow=False, path2=None, dir_fd2=None):
        """The gate. Returns None or a short-count limit; raises for faults and kills."""
        a = S.current_actor()
        if a is None or getattr(_tl, "inside", 0):
            return None
        st = self.actors.get(a.idx)
        if st is None:
            return None
        _tl.inside = 1
        try:
            p = self.norm(path, dir_fd)
            if p is None:
                return None
            if p.startswith(("/proc/", "/dev/", "/sys/")):
                return None
            where = self._where(p, follow)
            if where == "out" and kind not in MUTATING:
                return None
            rel = os.path.relpath(p, self.root) if where == "in" else p
            if st["dead"]:
                raise Crash()
            if self.sched is not None:
                _tl.inside = 0
                try:
                    self.sched.point()
                finally:
                    _tl.inside = 1
            n = st["n"]
            st["n"] += 1
            self.ops_by_kind[kind] = self.ops_by_kind.get(kind, 0) + 1
            st["ops"].append(kind)
            self.log.add("op", a.idx, n, kind, rel if where == "in" else os.path.basename(p), nbytes)
            if len(self.trace) < 600:
                self.trace.append("actor%d op%d %s %s%s" % (a.idx, n, kind, rel, "" if nbytes is None else " %d" % nbytes))
            if kind in MUTATING:
                if where == "out":
                    self.escapes.append((kind, p))
                    raise PermissionError(errno.EPERM, "refused: outside the scratch directory", p)
                if where == "protected":
                    self.source_touched.append((kind, p))
                    raise OSError(errno.EROFS, "refused: package directory", p)
            if path2 is not None:
                p2 = self.norm(path2, dir_fd2)
                if p2 is not None:
                    w2 = self._where(p2, False)
                    if w2 == "protected":
                        self.source_touched.append((kind, p2))
                        raise OSError(errno.EROFS, "refused: package directory", p2)
                    if w2 == "out":
                        self.escapes.append((kind, p2))
                        raise PermissionError(errno.EPERM, "refused: outside the scratch directory", p2)
            for ob in self.observers:
                ob(self, kind, p, a.idx)
            return self._fault(st, a, n, kind, p, nbytes)
        finally:
            _tl.inside = 0

    def _fault(self, st, a, n, kind, p, nbytes):
        f = st["plan"].get(n)
        if st["mode"] is not None and f is None:
            return self._mode_now(st, a, n, kind, p)
        if f is None:
            return None
        k = f["kind"]
        if k == "crash":
            self._note(st, a, n, "crash", kind)
            st["dead"] = True
            raise Crash()
        if k == "torn":
            # killed in the middle of this data transfer
            if nbytes:
                self._note(st, a, n, "crash-mid-write", kind)
                st["dead"] = "torn"
                return max(0, int(nbytes * f.get("frac", 0.5)))
            self._note(st, a, n, "crash", kind)
            st["dead"] = True
            raise Crash()
        if k == "short":
            if nbytes and nbytes > 1:
                self._note(st, a, n, "short-transfer", kind)
                return max(1, int(nbytes * f.get("frac", 0.5)))
            return None
        if k == "interrupt":
            self._note(st, a, n, "KeyboardInterrupt", kind)
            raise KeyboardInterrupt()
        if k == "memory":
            self._note(st, a, n, "MemoryError", kind)
            raise MemoryError("injected")
        if k in ("full", "readonly", "badread"):
            st["mode"] = k
            return self._mode_now(st, a, n, kind, p)
        if k == "error":
            legal = LEGAL.get(kind, ["EIO"])
            e = legal[f.get("pick", 0) % len(legal)]
            self._note(st, a, n, e, kind)
            raise OSError(ERRNOS[e], os.strerror(ERRNOS[e]), p)
        return None

    def _mode_now(self, st, a, n, kind, p):
        m = st["mode"]
        if m == "full" and kind in ("create", "mkdir", "symlink", "write", "sendfile", "link"):
            self._note(st, a, n, "ENOSPC(full)", kind)
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), p)
        if m == "readonly" and kind in MUTATING:
            self._note(st, a, n, "EROFS(readonly)", kind)
            raise OSError(errno.EROFS, os.strerror(errno.EROFS), p)
        if m == "badread" and kind in ("read", "open", "scandir"):
            self._note(st, a, n, "EIO(bad medium)", kind)
            raise OSError(errno.EIO, os.strerror(errno.EIO), p)
        return None

    def _note(self, st, a, n, what, kind):
        st["injected"].append((n, what, kind))
        self.result.fault("%s@%s" % (what, kind))
        self.log.add("fault", a.idx, n, what, kind)
        if len(self.trace) < 600:
            self.trace.append("   -> %s injected into actor%d %s" % (what, a.idx, kind))

    def heal(self, idx):
        st = self.actors.get(idx)
        if st:
            st["mode"] = None
            st["plan"] = {}

    def is_dead(self, idx):
        st = self.actors.get(idx)
        return bool(st and st["dead"])


class quiet:
    """Harness code running on an actor's thread: bypass the gate."""

    def __enter__(self):
        self.old = getattr(_tl, "inside", 0)
        _tl.inside = 1

    def __exit__(self, *a):
        _tl.inside = self.old


def _state():
    d = ACTIVE
    if d is None:
        return None, None
    a = S.current_actor()
    if a is None or getattr(_tl, "inside", 0):
        return None, None
    return d, d.actors.get(a.idx)


# ---------------------------------------------------------------- audit events

def _audit(event, args):
    d = ACTIVE
    if d is None or S.current_actor() is None:
        return
    h = _AUDIT.get(event)
    if h is not None:
        h(d, args)


def _ev_open(d, args):
    path, mode, flags = args
    if path is None:
        return
    fl = flags if isinstance(flags, int) else 0
    if isinstance(path, int):
        return
    dfd = getattr(_tl, "open_dir_fd", None)
    if fl & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND):
        if fl & os.O_DIRECTORY:
            return
        d.op("create", path, dfd, follow=True)
    else:
        d.op("open", path, dfd)


def _fd(x):
    return None if x is None or x == -1 else x


_AUDIT = {
    "open": _ev_open,
    "os.mkdir": lambda d, a: d.op("mkdir", a[0], _fd(a[2])),
    "os.rename": lambda d, a: d.op("rename", a[0], _fd(a[2]), path2=a[1], dir_fd2=_fd(a[3])),
    "os.remove": lambda d, a: d.op("remove", a[0], _fd(a[1])),
    "os.rmdir": lambda d, a: d.op("rmdir", a[0], _fd(a[1])),
    "os.symlink": lambda d, a: d.op("symlink", a[1], _fd(a[2])),
    "os.link": lambda d, a: d.op("link", a[1], _fd(a[3])),
    "os.chmod": lambda d, a: d.op("chmod", a[0], _fd(a[2])),
    "os.chown": lambda d, a: d.op("chown", a[0], _fd(a[3])),
    "os.utime": lambda d, a: d.op("utime", a[0], _fd(a[3])),
    "os.truncate": lambda d, a: d.op("truncate", a[0]),
    "os.setxattr": lambda d, a: d.op("setxattr", a[0]),
    "os.removexattr": lambda d, a: d.op("setxattr", a[0]),
    "os.scandir": lambda d, a: d.op("scandir", a[0] if a[0] is not None else "."),
    "os.listdir": lambda d, a: d.op("scandir", a[0] if a[0] is not None else "."),
    "os.system": lambda d, a: _refuse(d, "os.system"),
    "subprocess.Popen": lambda d, a: _refuse(d, "subprocess.Popen"),
    "os.posix_spawn": lambda d, a: _refuse(d, "os.posix_spawn"),
    "os.exec": lambda d, a: _refuse(d, "os.exec"),
    "os.fork": lambda d, a: _refuse(d, "os.fork"),
    "os.kill": lambda d, a: _refuse(d, "os.kill"),
}


def _refuse(d, what):
    d.escapes.append((what, ""))
    raise PermissionError(errno.EPERM, "refused in simulation: " + what)


# ---------------------------------------------------------------- replaced functions

def _wrap_stat(name, follow_default):
    real = _real[name]

    def f(path, *a, **k):
        d, st = _state()
        if d is not None and st is not None:
            d.op("stat", path, k.get("dir_fd"), follow=k.get("follow_symlinks", follow_default))
        return real(path, *a, **k)
    f.__name__ = name
    return f


def _sendfile(out_fd, in_fd, *a, **k):
    d, st = _state()
    if d is None or st is None:
        return _real["sendfile"](out_fd, in_fd, *a, **k)
    offset, count = (list(a) + [k.get("offset"), k.get("count")])[:2] if len(a) >= 2 else (
        a[0] if a else k.get("offset"), k.get("count"))
    try:
        size = _real["fstat"](in_fd).st_size
    except OSError:
        size = 0
    left = max(0, size - (offset or 0)) if offset is not None else size
    want = min(count, left)
    lim = d.op("sendfile", out_fd, nbytes=want)
    if lim is not None:
        n = _real["sendfile"](out_fd, in_fd, offset, lim) if lim > 0 else 0
        if st["dead"]:
            st["dead"] = True
            raise Crash()
        return n
    return _real["sendfile"](out_fd, in_fd, offset, count)


def _copy_file_range(src, dst, count, *a, **k):
    d, st = _state()
    if d is None or st is None:
        return _real["copy_file_range"](src, dst, count, *a, **k)
    lim = d.op("sendfile", dst, nbytes=count)
    if lim is not None:
        n = _real["copy_file_range"](src, dst, lim, *a, **k) if lim > 0 else 0
        if st["dead"]:
            st["dead"] = True
            raise Crash()
        return n
    return _real["copy_file_range"](src, dst, count, *a, **k)


def _os_write(fd, data):
    d, st = _state()
    if d is None or st is None or fd in (1, 2):
        return _real["write"](fd, data)
    lim = d.op("write", fd, nbytes=len(data))
    if lim is not None:
        n = _real["write"](fd, bytes(data)[:lim]) if lim > 0 else 0
        if st["dead"]:
            st["dead"] = True
            raise Crash()
        return n
    return _real["write"](fd, data)


def _os_open(path, flags, *a, **k):
    d, st = _state()
    if d is None or st is None:
        return _real["open"](path, flags, *a, **k)
    _tl.open_dir_fd = k.get("dir_fd")
    try:
        return _real["open"](path, flags, *a, **k)
    finally:
        _tl.open_dir_fd = None


def _os_readlink(path, *a, **k):
    d, st = _state()
    if d is not None and st is not None:
        d.op("readlink", path, k.get("dir_fd"))
    return _real["readlink"](path, *a, **k)


class RawFile(io.FileIO):
    """A file of the simulated disk."""

    def _gate(self, kind, n=None):
        d, st = _state()
        if d is None or st is None:
            return None, None
        return d.op(kind, self.fileno_real(), nbytes=n), st

    def fileno_real(self):
        return io.FileIO.fileno(self)

    def fileno(self):
        d = ACTIVE
        if d is not None and d.no_fileno and self.writable():
            raise io.UnsupportedOperation("fileno")
        return io.FileIO.fileno(self)

    def write(self, b):
        d = ACTIVE
        me = S.current_actor()
        owner = getattr(self, "sim_owner", None)
        if d is not None and owner is not None and d.is_dead(owner) and (me is None or me.idx != owner or
                                                                        d.actors[owner]["dead"] is True):
            return len(b)                 # the process is gone: buffered data is lost
        lim, st = self._gate("write", len(b))
        if lim is not None:
            n = io.FileIO.write(self, bytes(b)[:lim]) if lim > 0 else 0
            if st["dead"]:
                st["dead"] = True
                raise Crash()
            return n
        return io.FileIO.write(self, b)

    def readinto(self, buf):
        lim, _ = self._gate("read", len(buf))
        if lim is not None:
            return io.FileIO.readinto(self, memoryview(buf)[:lim])
        return io.FileIO.readinto(self, buf)

    def read(self, n=-1):
        self._gate("read", None)
        return io.FileIO.read(self, n)

    def readall(self):
        self._gate("read", None)
        return io.FileIO.readall(self)

    def close(self):
        if self.closed:
            return
        try:
            if self.writable():
                d, st = _state()
                if d is not None and st is not None and not st["dead"]:
                    d.op("close", self.fileno_real())
        finally:
            io.FileIO.close(self)


def _open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    d, st = _state()
    if d is None or st is None or opener is not None:
        return _real["io_open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    p = d.norm(file)
    inside = False
    if p is not None:
        _tl.inside = 1
        try:
            w = d._where(p, True)
        finally:
            _tl.inside = 0
        inside = w in ("in", "protected")
    if not inside:
        return _real["io_open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = "b" in mode
    rawmode = mode.replace("b", "").replace("t", "")
    raw = RawFile(file, rawmode, closefd)
    raw.sim_owner = S.current_actor().idx
    if buffering == 0:
        return raw
    bs = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    if "+" in rawmode:
        buf = io.BufferedRandom(raw, bs)
    elif rawmode[0] in "wax":
        buf = io.BufferedWriter(raw, bs)
    else:
        buf = io.BufferedReader(raw, bs)
    if binary:
        return buf
    t = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
    t.mode = mode
    return t


class _Names:
    """Seeded source of temporary names."""

    def __init__(self, rng):
        self.rng = rng

    def __iter__(self):
        return self

    def __next__(self):
        return "".join(self.rng.choice("abcdefghijklmnopqrstuvwxyz0123456789_") for _ in range(8))


def seed_process(seed):
    """Put the remaining sources of chance and time of a child behind the seed."""
    import random
    import tempfile
    import time
    r = random.Random(seed)
    tempfile._name_sequence = _Names(random.Random(seed + 1))
    random.seed(seed + 2)
    os.urandom = lambda n: bytes(r.getrandbits(8) for _ in range(n))
    clock = [1_700_000_000.0]

    def tick():
        if S.current_actor() is None:
            return None
        clock[0] += 0.001
        return clock[0]
    for name, conv in (("time", float), ("monotonic", float), ("perf_counter", float),
                       ("time_ns", lambda v: int(v * 1e9)), ("monotonic_ns", lambda v: int(v * 1e9))):
        def make(real, conv):
            def f():
                v = tick()
                return real() if v is None else conv(v)
            return f
        setattr(time, name, make(getattr(time, name), conv))
    real_pid = os.getpid

    def getpid():
        a = S.current_actor()
        return real_pid() if a is None else 4000 + a.idx
    os.getpid = getpid


def install():
    """Install the seam (once, before the library is imported)."""
    if _real:
        return
    for n in ("stat", "lstat", "sendfile", "write", "open", "readlink", "fstat", "access"):
        _real[n] = getattr(os, n)
    if hasattr(os, "copy_file_range"):
        _real["copy_file_range"] = os.copy_file_range
        os.copy_file_range = _copy_file_range
    _real["io_open"] = io.open
    sys.addaudithook(_audit)
    os.stat = _wrap_stat("stat", True)
    os.lstat = _wrap_stat("lstat", False)
    os.sendfile = _sendfile
    os.write = _os_write
    os.open = _os_open
    os.readlink = _os_readlink
    # shutil decides by membership in these sets whether it may use dir_fd
    for s in (os.supports_dir_fd, os.supports_follow_symlinks, os.supports_fd, os.supports_effective_ids):
        for name in ("stat", "open", "readlink", "write"):
            if _real.get(name) in s:
                s.add(getattr(os, name))
    builtins.open = _open
    io.open = _open
    _io.open = _open


def activate(disk):
    global ACTIVE
    ACTIVE = disk


def deactivate():
    global ACTIVE
    ACTIVE = None


# ---------------------------------------------------------------- snapshots

def snapshot(root):
    """{relative path: (type, content)} of a tree, links not followed."""
    out = {}
    if not os.path.lexists(root):
        return out
    with quiet():
        _snap(root, ".", out)
    return out


def _snap(path, rel, out):
    st = os.lstat(path)
    if statmod.S_ISLNK(st.st_mode):
        out[rel] = ("link", os.readlink(path))
    elif statmod.S_ISDIR(st.st_mode):
        out[rel] = ("dir", oct(statmod.S_IMODE(st.st_mode)))
        for n in sorted(os.listdir(path)):
            _snap(os.path.join(path, n), n if rel == "." else rel + "/" + n, out)
    else:
        with _real["io_open"](path, "rb") if _real else open(path, "rb") as f:
            out[rel] = ("file", f.read())


def content(snap):
    """Snapshot without permission bits."""
    return {k: (v if v[0] != "dir" else ("dir",)) for k, v in snap.items()}


def diff(a, b, limit=4):
    out = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            def s(v):
                if v is None:
                    return "absent"
                if v[0] == "file":
                    return "file(%d bytes)" % len(v[1])
                return "/".join(map(str, v))
            out.append("%s: %s -> %s" % (k, s(a.get(k)), s(b.get(k))))
            if len(out) >= limit:
                out.append("...")
                break
    return ", ".join(out)
