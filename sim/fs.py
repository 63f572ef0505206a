"""Simulated file system seam: real files in a scratch directory, every raw operation behind the simulator.

Files under `WATCH` prefixes are opened as SimRaw objects (an io.FileIO subclass); Python level buffering on top is
the real io module.  Operations count as yield points; faults are decided by `Faults` from the run's plan.
"""
import builtins
import errno
import io
import os
from . import core
from .core import S

_open, _io_open = builtins.open, io.open
_FileIO = io.FileIO
_os = {n: getattr(os, n) for n in ("open", "close", "read", "write", "pread", "pwrite", "readv", "writev", "preadv",
                                   "pwritev", "ftruncate", "truncate", "fsync", "fdatasync", "replace", "rename",
                                   "unlink", "remove", "lseek", "fdopen", "posix_fallocate", "sendfile", "dup", "link",
                                   "copy_file_range")
       if hasattr(os, n)}
_hash = hash


class World:
    """per-run state of the simulated disk"""
    def __init__(self):
        self.roots = []            # [(prefix, role)]
        self.open_files = {}       # fd -> info
        self.ops = {}              # (role, op) -> count
        self.faults = []
        self.fired = []
        self.capacity = None       # bytes available for output data
        self.extents = {}          # path -> list of (start, end)
        self.used = 0
        self.max_chunk = None      # every transfer limited to this many bytes
        self.split = True          # transfers happen in two halves with a yield point in between
        self.on_op = None          # callback(role, op, path, info) after every operation
        self.gate = None           # callable(role, op, path): faults marked "gated" count only the operations it lets through
        self.log = None
        self.max_read = {}         # path -> largest single read request
        self.requests = {}         # path -> [(position, bytes requested)]
        self.read_bytes = {}
        self.written = 0
        self.mutations = []        # ops that modified a path of role 'in'
        self.opened = 0
        self.stats = {}

    def role(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.abspath(p)
        for prefix, role in self.roots:
            if p == prefix or p.startswith(prefix.rstrip("/") + "/"):
                return role
        return None


W = World()


def reset():
    global W
    W = World()
    return W


class InjectedOSError(OSError):
    injected = True


_KINDS = {}


def _raise(eno, what):
    sub = type(OSError(eno, ""))      # FileNotFoundError, PermissionError, TimeoutError, ...
    if sub not in _KINDS:
        _KINDS[sub] = InjectedOSError if sub is OSError else type("Injected" + sub.__name__, (InjectedOSError, sub), {})
    e = _KINDS[sub](eno, os.strerror(eno) + " [injected]")
    W.fired.append((what, e))
    raise e


def _count(role, op):
    k = (role, op)
    n = W.ops.get(k, 0)
    W.ops[k] = n + 1
    return n


def _match(role, op, path, n):
    for f in W.faults:
        if f.get("done"):
            continue
        if f["op"] != op or f["role"] != role:
            continue
        if "file" in f and f["file"] != os.path.basename(path):
            continue
        if f.get("gated"):
            if W.gate is None or not W.gate(role, op, path):
                continue
            n = f["seen"] = f.get("seen", -1) + 1
        if f["at"] == n or (f.get("sticky") and n >= f["at"]):
            if not f.get("sticky"):
                f["done"] = True
            f["hit"] = f.get("hit", 0) + 1
            W.stats[f["kind"]] = W.stats.get(f["kind"], 0) + 1
            return f
    return None


def _stall(f):
    S.sleep(f.get("secs", 1.0))


def _simple(role, op, path):
    """faults and yield for an operation without a length"""
    n = _count(role, op)
    if S.active:
        S.point()
    f = _match(role, op, path, n)
    if f is None:
        return
    if f["kind"] == "stall":
        _stall(f)
        return
    _raise(getattr(errno, f.get("errno", "EIO")), f"{role}.{op}#{n}")


def _after(role, op, path, **info):
    if W.log is not None:
        W.log.append((S.step, role, op, os.path.basename(path), info.get("n")))
    if W.on_op is not None:
        W.on_op(role, op, path, info)
    if S.active:
        S.point()


def _alloc(path, start, n):
    """how many of n bytes at `start` fit on the disk"""
    if W.capacity is None:
        return n
    ext = W.extents.setdefault(path, [])
    # bytes of the range not yet allocated, walked in order
    free = W.capacity - W.used
    covered = sorted(ext)
    pos, fit, new = start, 0, 0
    end = start + n
    for a, b in covered + [(end, end)]:
        if b <= pos:
            continue
        if a > pos:
            gap = min(a, end) - pos
            if gap > 0:
                take = min(gap, free - new)
                new += take
                fit += take
                pos += take
                if take < gap:
                    break
        if pos >= end:
            break
        if a <= pos < b:
            step = min(b, end) - pos
            fit += step
            pos += step
        if pos >= end:
            break
    W.used += new
    if fit:
        ext.append((start, start + fit))
        ext.sort()
        merged = []
        for a, b in ext:
            if merged and a <= merged[-1][1]:
                merged[-1] = (merged[-1][0], max(b, merged[-1][1]))
            else:
                merged.append((a, b))
        W.extents[path] = merged
    return fit


def _plan_len(role, op, path, want, pos):
    """returns how many bytes this transfer moves, raising injected errors"""
    n = _count(role, op)
    f = _match(role, op, path, n)
    got = want
    if f is not None:
        k = f["kind"]
        if k == "stall":
            _stall(f)
        elif k in ("short_read", "short_write"):
            if want > 1:
                got = max(1, min(want - 1, f.get("n", 1)))
            else:
                W.stats[k] -= 1
        elif k == "zero_read":
            got = 0
        else:
            part = f.get("partial", 0)
            if part and op == "write" and want > 1:
                return -min(part, want - 1), f
            _raise(getattr(errno, f.get("errno", "EIO")), f"{role}.{op}#{n}")
    if W.max_chunk:
        if got > W.max_chunk:
            got = W.max_chunk
            W.stats["chunked"] = W.stats.get("chunked", 0) + 1
    if op == "write" and got > 0:
        fit = _alloc(path, pos, got)
        if fit == 0:
            W.stats["enospc"] = W.stats.get("enospc", 0) + 1
            _raise(errno.ENOSPC, f"{role}.{op}#{n}")
        if fit < got:
            W.stats["disk_full_short"] = W.stats.get("disk_full_short", 0) + 1
        got = fit
    return got, f


class SimRaw(io.FileIO):
    def __init__(self, path, mode="r", closefd=True, opener=None):
        role = W.role(path)
        self._sim_path = os.path.abspath(os.fspath(path))
        self._sim_role = role
        self._sim_open = False
        _simple(role, "open", self._sim_path)
        super().__init__(path, mode, closefd, opener)
        self._sim_open = True
        self._adopt()
        role = self._sim_role
        W.opened += 1
        W.open_files[id(self)] = (self._sim_path, role, mode)
        if any(c in mode for c in "wxa+"):
            if "w" in mode:
                W.used -= sum(b - a for a, b in W.extents.get(self._sim_path, []))
                W.extents[self._sim_path] = []
            if role == "in":
                W.mutations.append(("open-" + mode, self._sim_path))
        _after(role, "open", self._sim_path, mode=mode)

    def _adopt(self):
        """a descriptor that an opener got from os.open belongs to this object from now on"""
        info = _fds.pop(self.fileno(), None)
        if info is not None:
            W.open_files.pop(("fd", self.fileno()), None)
            self._sim_path, self._sim_role = info[0], info[1]

    def _live(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")

    def readinto(self, b):
        self._live()
        S.active and S.point()
        mv = memoryview(b).cast("B")
        want = len(mv)
        p = self._sim_path
        W.max_read[p] = max(W.max_read.get(p, 0), want)
        W.requests.setdefault(p, []).append((super().tell(), want))
        got, _ = _plan_len(self._sim_role, "read", p, want, None)
        self._live()
        if got <= 0 and want:
            return 0
        if W.split and got > 1:
            h = got // 2
            a = super().readinto(mv[:h])
            if a < h:
                r = a
            else:
                S.active and S.point()
                self._live()
                r = a + super().readinto(mv[h:got])
        else:
            r = super().readinto(mv[:got])
        W.read_bytes[p] = W.read_bytes.get(p, 0) + (r or 0)
        _after(self._sim_role, "read", p, n=r)
        return r

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        buf = bytearray(size)
        n = self.readinto(buf)
        return bytes(buf[:n])

    def readall(self):
        out = bytearray()
        while True:
            try:
                size = max(1, os.fstat(self.fileno()).st_size - super().tell())
            except OSError:
                size = 65536
            c = self.read(min(max(size, 1), 1 << 20))
            if not c:
                return bytes(out)
            out += c

    def write(self, b):
        self._live()
        S.active and S.point()
        mv = memoryview(b).cast("B")
        want = len(mv)
        p = self._sim_path
        if self._sim_role == "in":
            W.mutations.append(("write", p))
        pos = super().tell()
        if want == 0:
            _count(self._sim_role, "write")
            return super().write(mv)
        got, f = _plan_len(self._sim_role, "write", p, want, pos)
        self._live()
        if got < 0:          # partial transfer, then the error (torn write)
            part = _alloc(p, pos, -got)
            if part:
                super().write(mv[:part])
            W.written += part
            _after(self._sim_role, "write", p, n=part)
            _raise(getattr(errno, f.get("errno", "EIO")), f"{self._sim_role}.write")
        r = super().write(mv[:got])
        W.written += r
        _after(self._sim_role, "write", p, n=r, pos=pos, data=mv)
        return r

    def seek(self, off, whence=0):
        self._live()
        _simple(self._sim_role, "seek", self._sim_path)
        return super().seek(off, whence)

    def truncate(self, size=None):
        self._live()
        _simple(self._sim_role, "truncate", self._sim_path)
        if self._sim_role == "in":
            W.mutations.append(("truncate", self._sim_path))
        r = super().truncate(size)
        _after(self._sim_role, "truncate", self._sim_path)
        return r

    def close(self):
        if self.closed:
            return super().close()
        if getattr(self, "_sim_open", False):
            self._sim_open = False
            W.open_files.pop(id(self), None)
            try:
                _simple(self._sim_role, "close", self._sim_path)
            except InjectedOSError:
                super().close()     # the descriptor is gone even when close() fails
                raise
            super().close()
            _after(self._sim_role, "close", self._sim_path)
        else:
            super().close()

    def __del__(self):
        try:
            W.open_files.pop(id(self), None)
            self._sim_open = False
            io.FileIO.close(self)
        except Exception:
            pass


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if isinstance(file, int):
        if file in _fds and closefd:
            if "b" in mode:
                return os_fdopen(file, mode, buffering)
            return os_fdopen(file, mode, buffering, encoding, errors, newline)
        return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if not W.roots or W.role(file) is None:
        return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    modes = set(mode)
    binary = "b" in modes
    raw_mode = mode.replace("b", "").replace("t", "")
    if not binary and buffering == 0:
        raise ValueError("can't have unbuffered text I/O")
    raw = SimRaw(file, raw_mode, closefd, opener)
    try:
        if buffering == 0:
            return raw
        size = 8192 if buffering in (-1, 1) else buffering
        if "+" in modes:
            buf = io.BufferedRandom(raw, size)
        elif modes & set("wax"):
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
        return text
    except BaseException:
        raw.close()
        raise


# ---- os level: descriptors opened through os.open on watched paths

_fds = {}


def os_open(path, flags, mode=0o777, *, dir_fd=None):
    role = W.role(path) if W.roots and dir_fd is None else None
    if role is None:
        return _os["open"](path, flags, mode, dir_fd=dir_fd)
    p = os.path.abspath(os.fspath(path))
    _simple(role, "open", p)
    fd = _os["open"](path, flags, mode)
    _fds[fd] = (p, role)
    W.open_files[("fd", fd)] = (p, role, flags)
    W.opened += 1
    if flags & os.O_TRUNC:
        W.used -= sum(b - a for a, b in W.extents.get(p, []))
        W.extents[p] = []
    if role == "in" and flags & (os.O_WRONLY | os.O_RDWR | os.O_TRUNC):
        W.mutations.append(("open", p))
    _after(role, "open", p)
    return fd


def os_close(fd):
    info = _fds.pop(fd, None)
    if info is None:
        return _os["close"](fd)
    W.open_files.pop(("fd", fd), None)
    try:
        _simple(info[1], "close", info[0])
    except InjectedOSError:
        _os["close"](fd)
        raise
    _os["close"](fd)
    _after(info[1], "close", info[0])


def _info(fd):
    return _fds.get(fd) if isinstance(fd, int) else None


def os_write(fd, data):
    info = _info(fd)
    if info is None:
        return _os["write"](fd, data)
    p, role = info
    S.active and S.point()
    mv = memoryview(data).cast("B")
    pos = _os["lseek"](fd, 0, os.SEEK_CUR)
    return _do_write(p, role, mv, pos, lambda m: _os["write"](fd, m))


def os_pwrite(fd, data, offset):
    info = _info(fd)
    if info is None:
        return _os["pwrite"](fd, data, offset)
    p, role = info
    S.active and S.point()
    return _do_write(p, role, memoryview(data).cast("B"), offset, lambda m: _os["pwrite"](fd, m, offset))


def _do_write(p, role, mv, pos, fn):
    if role == "in":
        W.mutations.append(("write", p))
    got, f = _plan_len(role, "write", p, len(mv), pos) if len(mv) else (0, None)
    if got < 0:
        fn(mv[:-got])
        _after(role, "write", p, n=-got)
        _raise(getattr(errno, f.get("errno", "EIO")), f"{role}.write")
    r = fn(mv[:got])
    W.written += r
    _after(role, "write", p, n=r, pos=pos, data=mv)
    return r


def os_read(fd, n):
    info = _info(fd)
    if info is None:
        return _os["read"](fd, n)
    p, role = info
    S.active and S.point()
    got, _ = _plan_len(role, "read", p, n, None)
    r = _os["read"](fd, got)
    _after(role, "read", p, n=len(r))
    return r


def os_pread(fd, n, offset):
    info = _info(fd) or _raw_info(fd)
    if info is None:
        return _os["pread"](fd, n, offset)
    p, role = info
    S.active and S.point()
    W.max_read[p] = max(W.max_read.get(p, 0), n)
    W.requests.setdefault(p, []).append((offset, n))
    got, _ = _plan_len(role, "read", p, n, None)
    r = _os["pread"](fd, got, offset)
    W.read_bytes[p] = W.read_bytes.get(p, 0) + len(r)
    _after(role, "read", p, n=len(r))
    return r


def _raw_info(fd):
    """a descriptor that belongs to an open SimRaw"""
    if not W.roots or not isinstance(fd, int):
        return None
    try:
        p = os.readlink(f"/proc/self/fd/{fd}")
    except OSError:
        return None
    role = W.role(p)
    return (p, role) if role is not None else None


def os_preadv(fd, bufs, offset, flags=0):
    info = _info(fd) or _raw_info(fd)
    if info is None:
        return _os["preadv"](fd, bufs, offset, flags)
    total = 0
    for b in bufs:
        mv = memoryview(b).cast("B")
        d = os_pread(fd, len(mv), offset + total)
        mv[:len(d)] = d
        total += len(d)
        if len(d) < len(mv):
            break
    return total


def _two(name):
    def f(src, dst, **kw):
        role = W.role(dst) if W.roots else None
        if role is None:
            return _os[name](src, dst, **kw)
        p = os.path.abspath(os.fspath(dst))
        _simple(role, "rename", p)
        if role == "in":
            W.mutations.append((name, p))
        r = _os[name](src, dst, **kw)
        sp = os.path.abspath(os.fspath(src))
        if sp in W.extents:
            W.extents[p] = W.extents.pop(sp)
        _after(role, "rename", p)
        return r
    return f


def _one(name):
    def f(path, *a, **kw):
        role = W.role(path) if W.roots and not isinstance(path, int) else None
        if role is None:
            return _os[name](path, *a, **kw)
        p = os.path.abspath(os.fspath(path))
        _simple(role, "unlink", p)
        if role == "in":
            W.mutations.append((name, p))
        r = _os[name](path, *a, **kw)
        W.used -= sum(b - a_ for a_, b in W.extents.pop(p, []))
        _after(role, "unlink", p)
        return r
    return f


def os_fdopen(fd, mode="r", buffering=-1, *a, **kw):
    info = _info(fd)
    if info is None:
        return _os["fdopen"](fd, mode, buffering, *a, **kw)
    # adopt the descriptor into a SimRaw so that later operations stay visible
    _fds.pop(fd, None)
    W.open_files.pop(("fd", fd), None)
    m = mode.replace("b", "").replace("t", "")
    raw = SimRaw.__new__(SimRaw)
    io.FileIO.__init__(raw, fd, m)
    raw._sim_path, raw._sim_role, raw._sim_open = info[0], info[1], True
    W.open_files[id(raw)] = (info[0], info[1], m)
    if buffering == 0:
        return raw
    buf = io.BufferedRandom(raw) if "+" in m else io.BufferedWriter(raw) if set(m) & set("wax") else io.BufferedReader(raw)
    if "b" in mode:
        return buf
    return io.TextIOWrapper(buf, *a, **{k: v for k, v in kw.items() if k in ("encoding", "errors", "newline")})


def os_fsync(fd):
    info = _info(fd) or _raw_info(fd)
    if info is not None:
        _simple(info[1], "fsync", info[0])
    return None      # durability against power loss is not simulated; avoid real syncs


def install():
    builtins.open = sim_open
    io.open = sim_open
    io.FileIO_real = io.FileIO
    os.open = os_open
    os.close = os_close
    os.read = os_read
    os.write = os_write
    os.pread = os_pread
    os.pwrite = os_pwrite
    os.preadv = os_preadv
    os.replace = _two("replace")
    os.rename = _two("rename")
    os.unlink = _one("unlink")
    os.remove = _one("remove")
    os.fdopen = os_fdopen
    os.fsync = os_fsync
    os.fdatasync = os_fsync
