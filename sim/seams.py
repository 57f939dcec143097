"""Seams: routes os, io, time, datetime, locks and requests of the code under test into the World.

install_early() is called before anything else is imported, install_late() after the
third-party packages and before brel.

The simulated machine's disk is the tree /sim (home directory /sim/home, user documents
/sim/docs, temporary files /sim/tmp).  Paths under /sim are mapped to a scratch directory
by every wrapper below, so the code under test sees the same path strings in every run and
can reach nothing real: writes to any other place are refused and recorded.  Fault and
scheduling points only exist while an actor (a simulated process or thread) is running.
"""
import builtins
import errno
import io
import os
import random
import socket
import stat as _stat_mod
import sys
import threading
import time

from world import current_actor

WORLD = None          # the World of the current run
FDS = {}              # open descriptor -> path on the simulated disk
real = {}             # the original functions
ROOT = "/sim"


def set_world(w):
    global WORLD
    WORLD = w
    FDS.clear()


def vpath(p):
    """absolute path on the simulated disk, or None if p is not on it"""
    w = WORLD
    if w is None:
        return None
    if isinstance(p, int):
        return FDS.get(p)
    try:
        p = os.fsdecode(p)
    except TypeError:
        return None
    if not p.startswith("/"):
        if current_actor() is None:
            return None
        p = w.cwd + "/" + p
    if not p.startswith(ROOT):
        return None
    q = os.path.normpath(p)
    if q == ROOT or q.startswith(ROOT + "/"):
        return q
    return None


def rpath(q):
    return WORLD.root + q[len(ROOT):]


def acting():
    return WORLD is not None and current_actor() is not None


def _map(p):
    """(virtual, real) for any argument of an os function"""
    q = vpath(p)
    if q is None:
        return None, p
    if isinstance(p, int):
        return q, p
    # keep a trailing slash meaningful and symlinks unresolved
    return q, rpath(q)


def _fix(e, q):
    """errors carry the path the caller used"""
    e.filename = q
    return e


# ------------------------------------------------------------------ simulated disk

def _mutation(op, q):
    a = current_actor()
    if a is not None:
        WORLD.mutations.append((a.name, op, WORLD.rel(q)))


def _outside_write(op, p):
    """the code under test tries to change something outside the simulated machine's disk"""
    if not acting():
        return
    WORLD.flag("outside", "%s %s" % (op, p if isinstance(p, int) else os.fsdecode(p)))
    raise PermissionError(errno.EACCES, "simulated machine: outside the disk", p)


def _err(no, q):
    return OSError(no, os.strerror(no), q)


def fs_point(kind, q, options):
    """scheduling and fault point before a disk operation; raises, or returns a fault that the
    caller has to carry out"""
    if not acting():
        return None
    w = WORLD
    a, n = w.point("fs")
    w.event("fs", kind, w.rel(q))
    w.count("op.fs." + kind)
    if w.disk_dead and w.faults_on:
        w.count("fault.eio")
        if kind in ("remove", "rmdir", "listdir"):
            w.not_removed.append(q)
        raise _err(errno.EIO, q)
    if not w.faults_on:
        return None

    def dist(r):
        for name in options:
            rate = w.plan.rate("fs." + name)
            if rate and r.random() < rate:
                if name in ("torn", "enospc_at", "short"):
                    return [name, round(r.random(), 3)]
                if name == "power":
                    return [name, r.randrange(1 << 30)]
                return [name]
        return None

    f = w.plan.pick("%s:fs%d" % (a.name, n), dist)
    if f is None or f[0] not in options:
        return None
    name = f[0]
    w.fault_sites.add((kind, name))
    if name == "kill":
        w.die(a, "kill")
    if name == "power":
        w.power_seed = f[1] if len(f) > 1 else 0
        w.die(a, "power")
    if name in ("eio", "eacces", "emfile", "enospc"):
        w.count("fault." + name)
        w.event("fault", name)
        if kind in ("remove", "rmdir", "listdir"):
            w.not_removed.append(q)
        raise _err(getattr(errno, name.upper()), q)
    if name == "full":
        w.count("fault.disk_full")
        w.event("fault", "full")
        w.disk_full = True
        return None
    return f


def _read_real(r):
    try:
        fd = real["os_open"](r, os.O_RDONLY)
    except OSError:
        return None
    try:
        out = []
        while True:
            b = real["os_read"](fd, 1 << 20)
            if not b:
                return b"".join(out)
            out.append(b)
    except OSError:
        return None
    finally:
        real["os_close"](fd)


def _whole(r):
    """content and modification time"""
    b = _read_real(r)
    return None if b is None else (b, real["stat"](r).st_mtime)


def _note_dirty(q):
    """called before the data of file q changes for the first time since its last fsync"""
    if acting() and q not in WORLD.dirty:
        WORLD.dirty[q] = _read_real(rpath(q)) or b""


def _stamp(q):
    """file times follow the virtual clock"""
    w = WORLD
    if w is None:
        return
    try:
        real["utime"](rpath(q), (w.wall(), w.wall()))
    except OSError:
        pass


def _write_all(fd, data):
    view = memoryview(data)
    while len(view):
        view = view[real["os_write"](fd, view):]


class SimRaw(io.RawIOBase):
    """an open file of the simulated machine"""

    def __init__(self, fd, q, readable, writable, own=True):
        self._fd = fd
        self._q = q
        self._r = readable
        self._w = writable
        self._own = own
        self.name = q
        self._opener = current_actor()
        w = WORLD
        w.next_handle += 1
        self._h = w.next_handle
        if self._opener is not None:
            w.open_files[self._h] = w.rel(q)

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return self._fd

    def isatty(self):
        return False

    def seek(self, off, whence=0):
        return real["lseek"](self._fd, off, whence)

    def tell(self):
        return real["lseek"](self._fd, 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        fs_point("truncate", self._q, ("kill", "power", "eio"))
        _note_dirty(self._q)
        _mutation("truncate", self._q)
        real["ftruncate"](self._fd, size)
        return size

    def readinto(self, b):
        f = fs_point("read", self._q, ("kill", "power", "eio", "short"))
        n = len(b)
        if f and f[0] == "short":
            n = max(1, int(n * f[1]))
            WORLD.count("fault.short_read")
        data = real["os_read"](self._fd, n)
        b[: len(data)] = data
        return len(data)

    def write(self, b):
        data = bytes(b)
        if self._opener is not None and (current_actor() is None or self._opener.dead):
            # a finalizer of a finished or dead process: user-space buffers are lost
            return len(data)
        _fd_write(self._fd, self._q, data)
        return len(data) if _fd_write.last is None else _fd_write.last

    def close(self):
        if self.closed:
            return
        try:
            super().close()
        finally:
            w = WORLD
            if w is not None:
                w.open_files.pop(self._h, None)
            if self._own:
                _release_locks(self._fd, self._q)
                FDS.pop(self._fd, None)
                try:
                    real["os_close"](self._fd)
                except OSError:
                    pass


def _fd_write(fd, q, data):
    """write with the simulated disk's failures; _fd_write.last is the count of a short write"""
    _fd_write.last = None
    w = WORLD
    f = fs_point("write", q, ("kill", "power", "torn", "eio", "enospc_at", "full", "short"))
    if not acting():
        _write_all(fd, data)
        return
    a = current_actor()
    _note_dirty(q)
    _mutation("write", q)
    n = len(data)
    if w.disk_full and w.faults_on:
        w.count("fault.enospc")
        if f is None:
            f = ["enospc_at", 0.5]      # a full disk still takes what fits in the last block
    if f:
        k = int(n * f[1])
        if f[0] == "torn":
            w.count("fault.torn_write")
            _write_all(fd, data[:k])
            _stamp(q)
            w.die(a, "kill")
        if f[0] == "enospc_at":
            w.count("fault.enospc")
            w.event("fault", "enospc")
            _write_all(fd, data[:k])
            _stamp(q)
            raise _err(errno.ENOSPC, q)
        if f[0] == "short":
            k = max(1, k)
            w.count("fault.short_write")
            _write_all(fd, data[:k])
            _stamp(q)
            _fd_write.last = k
            return
    _write_all(fd, data)
    _stamp(q)


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    q = vpath(file)
    writing = any(c in mode for c in "wax+")
    if q is None:
        if acting() and writing and not isinstance(file, int) and os.fsdecode(file) != os.devnull:
            _outside_write("open(%s)" % mode, file)
        return real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    w = WORLD
    binary = "b" in mode
    reading = "r" in mode or "+" in mode
    if isinstance(file, int):
        raw = SimRaw(file, q, reading, writing, own=closefd)
    else:
        flags = os.O_CLOEXEC
        if "+" in mode:
            flags |= os.O_RDWR
        elif writing:
            flags |= os.O_WRONLY
        if "w" in mode:
            flags |= os.O_CREAT | os.O_TRUNC
        elif "x" in mode:
            flags |= os.O_CREAT | os.O_EXCL
        elif "a" in mode:
            flags |= os.O_CREAT | os.O_APPEND
        if opener is not None:
            fd = opener(file, flags)
            q = FDS.get(fd, q)
        else:
            fd = sim_os_open(file, flags, 0o666)
        if _stat_mod.S_ISDIR(real["fstat"](fd).st_mode):
            FDS.pop(fd, None)
            real["os_close"](fd)
            raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), file)
        raw = SimRaw(fd, q, reading, writing)
        if "a" in mode:
            raw.seek(0, 2)
    if binary and buffering == 0:
        raw.mode = mode
        return raw
    size = buffering if buffering > 1 else w.cfg.get("bufsize", 8192)
    if "+" in mode:
        buf = io.BufferedRandom(raw, size)
    elif writing:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, max(size, 1))
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, buffering == 1)
    text.mode = mode
    return text


def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    if dir_fd is not None:
        base = FDS.get(dir_fd)
        if base is not None and not os.fsdecode(path).startswith("/"):
            path, dir_fd = base + "/" + os.fsdecode(path), None
    q = vpath(path)
    writing = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
    if q is None or dir_fd is not None:
        if acting() and writing and os.fsdecode(path) != os.devnull:
            _outside_write("os.open", path)
        if dir_fd is not None:
            return real["os_open"](path, flags, mode, dir_fd=dir_fd)
        return real["os_open"](path, flags, mode)
    if flags & getattr(os, "O_TMPFILE", 0) == getattr(os, "O_TMPFILE", -1):
        raise OSError(errno.EOPNOTSUPP, os.strerror(errno.EOPNOTSUPP), path)
    r = rpath(q)
    w = WORLD
    created = False
    if not acting():
        fd = real["os_open"](r, flags, mode)
    elif writing:
        fs_point("open_w", q, ("kill", "power", "eio", "eacces", "enospc", "emfile"))
        existed = real["path_exists"](r)
        if w.disk_full and w.faults_on and not existed and flags & os.O_CREAT:
            w.count("fault.enospc")
            raise _err(errno.ENOSPC, path)
        if flags & os.O_TRUNC and existed:
            _note_dirty(q)
        try:
            fd = real["os_open"](r, flags, mode)
        except OSError as e:
            raise _fix(e, path)
        if not existed:
            created = True
            w.journal.append(("create", q))
            w.dirty[q] = b""
            _mutation("create", q)
        else:
            _mutation("open_w", q)
        if created or flags & os.O_TRUNC:
            _stamp(q)
    else:
        fs_point("open_r", q, ("kill", "power", "eio", "emfile"))
        try:
            fd = real["os_open"](r, flags, mode)
        except OSError as e:
            raise _fix(e, path)
    FDS[fd] = q
    return fd


def _w_close(fd):
    q = FDS.pop(fd, None)
    if q is not None:
        _release_locks(fd, q)
    return real["os_close"](fd)


def _w_write(fd, data):
    q = FDS.get(fd)
    if q is None or not acting():
        return real["os_write"](fd, data)
    data = bytes(data)
    _fd_write(fd, q, data)
    return len(data) if _fd_write.last is None else _fd_write.last


def _w_read(fd, n):
    q = FDS.get(fd)
    if q is not None:
        fs_point("read", q, ("kill", "power", "eio"))
    return real["os_read"](fd, n)


def _w_fsync(fd):
    if not isinstance(fd, int):
        fd = fd.fileno()
    q = FDS.get(fd)
    if q is None or not acting():
        return real["fsync"](fd)
    w = WORLD
    fs_point("fsync", q, ("kill", "power", "eio"))
    w.dirty.pop(q, None)
    w.journal.clear()   # a journaling file system makes earlier metadata durable with it


def _rename(which):
    def f(src, dst, *, src_dir_fd=None, dst_dir_fd=None):
        a, b = vpath(src), vpath(dst)
        if a is None and b is None:
            if acting():
                _outside_write(which, src)
            return real[which](src, dst)
        if a is None or b is None:
            _outside_write(which, dst if b is None else src)
        w = WORLD
        fs_point("rename", b, ("kill", "power", "eio", "enospc"))
        ra, rb = rpath(a), rpath(b)
        old = _whole(rb) if acting() and real["path_exists"](rb) else None
        isdir = real["path_isdir"](ra)
        try:
            real[which](ra, rb)
        except OSError as e:
            raise _fix(e, src)
        if acting():
            _mutation("rename", a)
            _mutation("rename", b)
            if not isdir:
                w.journal.append(("rename", a, b, old))
                if a in w.dirty:
                    w.dirty[b] = w.dirty.pop(a)
                else:
                    w.dirty.pop(b, None)
    f.__name__ = which
    return f


def _remove(which):
    def f(path, *, dir_fd=None):
        if dir_fd is not None and dir_fd in FDS:
            path, dir_fd = FDS[dir_fd] + "/" + os.fsdecode(path), None
        q = vpath(path)
        if q is None or dir_fd is not None:
            if acting():
                _outside_write(which, path)
            return real[which](path) if dir_fd is None else real[which](path, dir_fd=dir_fd)
        w = WORLD
        fs_point("remove", q, ("kill", "power", "eio"))
        old = _whole(rpath(q)) if acting() else None
        try:
            real[which](rpath(q))
        except OSError as e:
            raise _fix(e, path)
        if acting():
            _mutation("remove", q)
            w.dirty.pop(q, None)
            w.journal.append(("remove", q, old))
    f.__name__ = which
    return f


def _mutator(which, kind):
    """os functions that change one path: mkdir, rmdir, chmod, utime, truncate"""
    def f(path, *args, **kw):
        dir_fd = kw.get("dir_fd")
        if dir_fd is not None and dir_fd in FDS:
            path = FDS[dir_fd] + "/" + os.fsdecode(path)
            kw = {k: v for k, v in kw.items() if k != "dir_fd"}
        q, r = _map(path)
        if q is None:
            if acting():
                _outside_write(which, path)
            return real[which](path, *args, **kw)
        w = WORLD
        if acting():
            options = ("kill", "power", "eio", "enospc") if kind == "mkdir" else ("kill", "power", "eio")
            fs_point(kind, q, options)
            if kind == "mkdir" and w.disk_full and w.faults_on and not real["path_exists"](r):
                w.count("fault.enospc")
                raise _err(errno.ENOSPC, path)
            if kind == "utime" and (not args or args[0] is None) and not kw.get("times") and not kw.get("ns"):
                args, kw = ((w.wall(), w.wall()),), {k: v for k, v in kw.items() if k == "follow_symlinks"}
            if kind == "truncate":
                _note_dirty(q)
        try:
            result = real[which](r, *args, **kw)
        except OSError as e:
            raise _fix(e, path)
        _mutation(kind, q)
        if acting() and kind in ("mkdir", "rmdir"):
            w.journal.append((kind, q))
        return result
    f.__name__ = which
    return f


def _link(which):
    def f(src, dst, *args, **kw):
        q, r = _map(dst)
        if q is None:
            if acting():
                _outside_write(which, dst)
            return real[which](src, dst, *args, **kw)
        fs_point("link", q, ("kill", "power", "eio"))
        s, rs = _map(src)
        real[which](rs if which == "link" else src, r, **{k: v for k, v in kw.items() if k == "follow_symlinks"})
        if acting():
            _mutation("link", q)
            WORLD.journal.append(("create", q))
    f.__name__ = which
    return f


def _looker(which):
    """os functions that only look: stat, lstat, access, readlink"""
    def f(path, *args, **kw):
        dir_fd = kw.get("dir_fd")
        if dir_fd is not None and dir_fd in FDS:
            path = FDS[dir_fd] + "/" + os.fsdecode(path)
            kw = {k: v for k, v in kw.items() if k != "dir_fd"}
        q, r = _map(path)
        if q is None:
            return real[which](path, *args, **kw)
        if acting() and not isinstance(path, int):
            w = WORLD
            w.point("stat")
            w.count("op.fs.stat")
        try:
            return real[which](r, *args, **kw)
        except OSError as e:
            raise _fix(e, path)
    f.__name__ = which
    return f


def _order(names):
    """directories are listed in the order the simulated file system chooses"""
    w = WORLD
    names = sorted(names)
    seed = w.cfg.get("listing")
    if seed is not None:
        random.Random("%s %s" % (seed, names)).shuffle(names)
    return names


def _listdir(path="."):
    q, r = _map(path)
    if q is None:
        return real["listdir"](path)
    fs_point("listdir", q, ("kill", "power"))
    try:
        return _order(real["listdir"](r))
    except OSError as e:
        raise _fix(e, path)


class SimDirEntry:
    def __init__(self, name, base, entry):
        self.name = name
        self.path = base + ("" if base.endswith("/") else "/") + name if base else name
        self._e = entry

    def is_dir(self, *, follow_symlinks=True):
        return self._e.is_dir(follow_symlinks=follow_symlinks)

    def is_file(self, *, follow_symlinks=True):
        return self._e.is_file(follow_symlinks=follow_symlinks)

    def is_symlink(self):
        return self._e.is_symlink()

    def is_junction(self):
        return False

    def stat(self, *, follow_symlinks=True):
        return self._e.stat(follow_symlinks=follow_symlinks)

    def inode(self):
        return self._e.inode()

    def __fspath__(self):
        return self.path


class _Scandir:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def close(self):
        self._it = iter(())


def _scandir(path="."):
    q, r = _map(path)
    if q is None:
        return real["scandir"](path)
    fs_point("listdir", q, ("kill", "power"))
    try:
        with real["scandir"](r) as it:
            entries = {e.name: e for e in it}
    except OSError as e:
        raise _fix(e, path)
    base = os.fsdecode(path) if not isinstance(path, int) else ""
    return _Scandir([SimDirEntry(n, base, entries[n]) for n in _order(list(entries))])


def _getcwd():
    return WORLD.cwd if acting() else real["getcwd"]()


def _chdir(path):
    q, r = _map(path)
    if not acting():
        return real["chdir"](path)
    if q is None or not real["path_isdir"](r):
        raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
    WORLD.cwd = q


def power_loss(world, seed):
    """apply what a power loss does to the disk: only synced data and a prefix of the
    metadata operations since the last sync survive. Called outside any actor."""
    r = random.Random(seed)

    def rp(q):
        return world.real(q)

    def back(path, old):
        try:
            with real["open"](path, "wb") as f:
                f.write(old[0])
        except FileNotFoundError:
            return      # its folder is gone as well
        real["utime"](path, (old[1], old[1]))

    cut = r.randint(0, len(world.journal)) if world.journal else 0
    for op in reversed(world.journal[cut:]):
        world.count("fault.lost_metadata_op")
        if op[0] == "create":
            try:
                real["unlink"](rp(op[1]))
            except OSError:
                pass
            world.dirty.pop(op[1], None)
        elif op[0] in ("mkdir", "rmdir"):
            try:
                real["rmdir" if op[0] == "mkdir" else "mkdir"](rp(op[1]))
            except OSError:
                pass
        elif op[0] == "rename":
            _, a, b, old = op
            try:
                real["rename"](rp(b), rp(a))
            except OSError:
                continue
            if b in world.dirty:
                world.dirty[a] = world.dirty.pop(b)
            if old is not None:
                back(rp(b), old)
        elif op[0] == "remove" and op[2] is not None:
            back(rp(op[1]), op[2])
    for q, old in sorted(world.dirty.items()):
        if not real["path_exists"](rp(q)) or real["path_isdir"](rp(q)):
            continue
        new = _read_real(rp(q)) or b""
        how = r.choice(["kept", "torn", "empty", "old", "torn"])
        if how == "kept":
            continue
        world.count("fault.lost_write")
        data = {"torn": new[: r.randint(0, len(new))], "empty": b"", "old": old or b""}[how]
        with real["open"](rp(q), "wb") as f:
            f.write(data)
        real["utime"](rp(q), (world.clock, world.clock))
    world.journal = []
    world.dirty = {}


# ------------------------------------------------------------------ clock

def _sleep(seconds):
    if not acting():
        return real["sleep"](seconds)
    if seconds < 0:
        raise ValueError("sleep length must be non-negative")
    WORLD.count("op.sleep")
    WORLD.sleep(seconds)


def _wall():
    w = WORLD
    w.tick()
    rate = w.plan.rate("clock.jump")
    if rate and w.faults_on:
        # somebody, or NTP, sets the clock
        a = current_actor()
        jump = w.plan.pick("%s:wall%d" % (a.name, a.nth("wall")),
                           lambda r: r.choice((-7200.0, -3.0, -0.2, 0.2, 3.0, 7200.0)) if r.random() < rate else None)
        if jump is not None:
            w.wall_offset += jump
            w.count("fault.clock_jump")
            w.event("fault", "clock_jump", jump)
    return w.wall()


def _mono():
    WORLD.tick()
    return WORLD.clock - 1_600_000_000.0


def _clock(which, source):
    def f():
        return source() if acting() else real[which]()
    f.__name__ = which
    return f


def _clock_ns(which, source):
    def f():
        return int(source() * 1e9) if acting() else real[which]()
    f.__name__ = which
    return f


def _timefn(which):
    def f(secs=None):
        if secs is None and acting():
            secs = _wall()
        return real[which](secs)
    f.__name__ = which
    return f


# ------------------------------------------------------------------ locks

class SimLock:
    """a lock of each simulated process (a module global lock does not exclude other processes)"""
    _reentrant = False

    def __init__(self):
        self._real = real["RLock"]() if self._reentrant else real["Lock"]()
        self._held = {}         # process -> [actor, depth]

    def acquire(self, blocking=True, timeout=-1):
        if not acting():
            return self._real.acquire(blocking, timeout)
        a = current_actor()
        p = a.process
        h = self._held.get(p)
        if h is not None and h[0].dead and h[0] is not a:
            h = None
            del self._held[p]
        if h is not None and h[0] is a and self._reentrant:
            h[1] += 1
            return True
        if h is not None:
            if not blocking:
                return False

            def free():
                x = self._held.get(p)
                return x is None or x[0].dead
            if timeout is not None and timeout >= 0:
                deadline = WORLD.clock + timeout
                while not free():
                    if WORLD.clock >= deadline:
                        return False
                    WORLD.wait_until(min(deadline, WORLD.clock + 0.05))
            else:
                WORLD.block_until(free, "a lock")
        self._held[p] = [a, 1]
        return True

    def release(self):
        a = current_actor()
        h = self._held.get(a.process) if a is not None else None
        if h is None:
            if a is not None and a.dead:
                return
            return self._real.release()
        h[1] -= 1
        if h[1] <= 0 or not self._reentrant:
            self._held.pop(a.process, None)

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *exc):
        self.release()

    def locked(self):
        a = current_actor()
        return (a is not None and a.process in self._held) or (hasattr(self._real, "locked") and self._real.locked())

    # for threading.Condition
    def _is_owned(self):
        a = current_actor()
        if a is None:
            return self._real._is_owned() if hasattr(self._real, "_is_owned") else self._real.locked()
        h = self._held.get(a.process)
        return h is not None and h[0] is a

    def _at_fork_reinit(self):
        self._held.clear()
        self._real._at_fork_reinit()


class SimRLock(SimLock):
    _reentrant = True


def _lock_file(fd, op, posix):
    import fcntl
    n = fd if isinstance(fd, int) else fd.fileno()
    q = FDS.get(n)
    if q is None or not acting():
        return real["lockf" if posix else "flock"](fd, op)
    a = current_actor()
    holder = ("p", a.process) if posix else ("f", n)
    fs_point("lock", q, ("kill", "power"))
    table = WORLD.file_locks.setdefault(q, {})
    if op & fcntl.LOCK_UN:
        table.pop(holder, None)
        return
    shared = bool(op & fcntl.LOCK_SH)

    def free():
        for h, (sh, owner) in list(table.items()):
            if owner.dead:
                del table[h]
            elif h != holder and not (sh and shared):
                return False
        return True
    if not free():
        if op & fcntl.LOCK_NB:
            raise BlockingIOError(errno.EWOULDBLOCK, os.strerror(errno.EWOULDBLOCK))
        WORLD.block_until(free, "a file lock")
    table[holder] = (shared, a)


def _release_locks(fd, q):
    if WORLD is None:
        return
    table = WORLD.file_locks.get(q)
    if table:
        table.pop(("f", fd), None)
        a = current_actor()
        if a is not None:
            table.pop(("p", a.process), None)


# ------------------------------------------------------------------ installation

def install_early():
    real.update(
        open=builtins.open, os_open=os.open, os_read=os.read, os_write=os.write, os_close=os.close,
        lseek=os.lseek, ftruncate=os.ftruncate, fsync=os.fsync, rename=os.rename, replace=os.replace,
        remove=os.remove, unlink=os.unlink, rmdir=os.rmdir, mkdir=os.mkdir, listdir=os.listdir,
        scandir=os.scandir, stat=os.stat, lstat=os.lstat, utime=os.utime, chmod=os.chmod,
        truncate=os.truncate, link=os.link, symlink=os.symlink, fstat=os.fstat, readlink=os.readlink,
        access=os.access, getcwd=os.getcwd, chdir=os.chdir,
        sleep=time.sleep, time=time.time, monotonic=time.monotonic, perf_counter=time.perf_counter,
        time_ns=time.time_ns, monotonic_ns=time.monotonic_ns, perf_counter_ns=time.perf_counter_ns,
        localtime=time.localtime, gmtime=time.gmtime, ctime=time.ctime,
        Lock=threading.Lock, RLock=threading.RLock,
    )
    st = real["stat"]

    def path_exists(p):
        try:
            st(p)
            return True
        except (OSError, ValueError):
            return False

    def path_isdir(p):
        try:
            return _stat_mod.S_ISDIR(st(p).st_mode)
        except (OSError, ValueError):
            return False

    real["path_exists"], real["path_isdir"] = path_exists, path_isdir
    builtins.open = io.open = sim_open
    os.open = sim_os_open
    os.close = _w_close
    os.read = _w_read
    os.write = _w_write
    os.fsync = os.fdatasync = _w_fsync
    os.rename, os.replace = _rename("rename"), _rename("replace")
    os.remove, os.unlink = _remove("remove"), _remove("unlink")
    os.mkdir = _mutator("mkdir", "mkdir")
    os.rmdir = _mutator("rmdir", "rmdir")
    os.chmod = _mutator("chmod", "chmod")
    os.utime = _mutator("utime", "utime")
    os.truncate = _mutator("truncate", "truncate")
    os.link, os.symlink = _link("link"), _link("symlink")
    os.listdir = _listdir
    os.scandir = _scandir
    os.stat, os.lstat = _looker("stat"), _looker("lstat")
    os.access, os.readlink = _looker("access"), _looker("readlink")
    os.getcwd, os.chdir = _getcwd, _chdir
    pairs = ((os.stat, "stat"), (os.lstat, "lstat"), (os.scandir, "scandir"), (os.listdir, "listdir"),
             (os.unlink, "unlink"), (os.rmdir, "rmdir"), (os.open, "os_open"), (os.mkdir, "mkdir"),
             (os.utime, "utime"), (os.chmod, "chmod"), (os.rename, "rename"), (os.replace, "replace"),
             (os.remove, "remove"), (os.truncate, "truncate"), (os.access, "access"), (os.chdir, "chdir"))
    for fn, r in pairs:
        for group in (os.supports_fd, os.supports_dir_fd, os.supports_follow_symlinks, os.supports_effective_ids):
            if real[r] in group:
                group.add(fn)
    time.sleep = _sleep
    for name, src in (("time", _wall), ("monotonic", _mono), ("perf_counter", _mono)):
        setattr(time, name, _clock(name, src))
        setattr(time, name + "_ns", _clock_ns(name + "_ns", src))
    time.localtime, time.gmtime, time.ctime = _timefn("localtime"), _timefn("gmtime"), _timefn("ctime")
    import shutil
    shutil._USE_CP_SENDFILE = False
    shutil._use_fd_functions = False


def install_late():
    """after third-party imports, before brel"""
    import datetime as dt
    import fcntl
    import random as random_mod
    import uuid
    import tempfile
    import subprocess
    import lxml.etree
    import requests.adapters
    import net

    rdt, rdate = dt.datetime, dt.date

    class _MetaDate(type(rdate)):
        def __instancecheck__(cls, obj):
            return isinstance(obj, rdate)

        def __subclasscheck__(cls, sub):
            return issubclass(sub, rdate)

    class _MetaDT(type(rdt)):
        def __instancecheck__(cls, obj):
            return isinstance(obj, rdt)

        def __subclasscheck__(cls, sub):
            return issubclass(sub, rdt)

    class datetime(rdt, metaclass=_MetaDT):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(_wall(), tz) if acting() else rdt.now(tz)

        @classmethod
        def utcnow(cls):
            return cls.utcfromtimestamp(_wall()) if acting() else rdt.utcnow()

        @classmethod
        def today(cls):
            return cls.now()

    class date(rdate, metaclass=_MetaDate):
        @classmethod
        def today(cls):
            return cls.fromtimestamp(_wall()) if acting() else rdate.today()

    for c, n in ((datetime, "datetime"), (date, "date")):
        c.__name__ = c.__qualname__ = n
        c.__module__ = "datetime"
    dt.datetime = datetime
    dt.date = date

    threading.Lock = threading._allocate_lock = SimLock
    threading.RLock = SimRLock
    import queue
    queue.SimpleQueue = queue._PySimpleQueue
    import world as world_mod

    def thread_start(self):
        if acting():
            return WORLD.spawn(self)
        return world_mod.real_start(self)

    def thread_join(self, timeout=None):
        if acting() and hasattr(self, "_sim_actor"):
            return WORLD.join(self, timeout)
        return world_mod.real_join(self, timeout)

    threading.Thread.start, threading.Thread.join = thread_start, thread_join
    real["flock"], real["lockf"] = fcntl.flock, fcntl.lockf
    fcntl.flock = lambda fd, op: _lock_file(fd, op, False)
    fcntl.lockf = lambda fd, op, *a: _lock_file(fd, op, True)

    # names that would otherwise come from the operating system's entropy
    def _bits(n):
        a = current_actor()
        return random.Random("%s %s %s %s" % (WORLD.seed, WORLD.incarnation, a.name, a.nth("entropy"))).getrandbits(n)

    real.update(uuid4=uuid.uuid4, uuid1=uuid.uuid1, urandom=os.urandom, getpid=os.getpid)
    uuid.uuid4 = lambda: uuid.UUID(int=_bits(128), version=4) if acting() else real["uuid4"]()
    uuid.uuid1 = lambda *a: uuid.UUID(int=_bits(128), version=1) if acting() else real["uuid1"](*a)
    os.urandom = lambda n: _bits(8 * n).to_bytes(n, "little") if acting() and n else real["urandom"](n)

    class _Names:
        def __iter__(self):
            return self

        def __next__(self):
            return "%08x" % _bits(32) if acting() else "%08x" % random_mod.getrandbits(32)

    tempfile._name_sequence = _Names()
    tempfile.tempdir = ROOT + "/tmp"
    # process ids differ between live processes but are reused by later ones
    os.getpid = lambda: 4000 + sum(map(ord, current_actor().process)) % 1000 if acting() else real["getpid"]()
    real_getnode = uuid.getnode
    uuid.getnode = lambda: 0x020000000001 if acting() else real_getnode()

    # lxml opens paths itself, below Python: hand it an open file instead
    lxml_parse = lxml.etree.parse

    def parse(source, parser=None, **kw):
        if isinstance(source, (str, bytes, os.PathLike)) and vpath(source) is not None:
            with sim_open(source, "rb") as f:
                return lxml_parse(f, parser, **{"base_url": os.fsdecode(source), **kw})
        return lxml_parse(source, parser, **kw)

    lxml.etree.parse = parse

    real["adapter_send"] = requests.adapters.HTTPAdapter.send
    requests.adapters.HTTPAdapter.send = net.adapter_send
    import urllib3.connectionpool
    urllib3.connectionpool.HTTPConnectionPool._make_request = net.make_request
    real_connect = socket.socket.connect

    def connect(self, address):
        if acting():
            WORLD.flag("unsimulated", "a socket connection to %r" % (address,))
            raise OSError(errno.ENETUNREACH, "simulated machine: no real network")
        return real_connect(self, address)

    socket.socket.connect = connect
    real_popen = subprocess.Popen.__init__

    def popen(self, *a, **kw):
        if acting():
            WORLD.flag("unsimulated", "a subprocess %r" % (a,))
            raise PermissionError(errno.EPERM, "simulated machine: no subprocesses")
        return real_popen(self, *a, **kw)

    subprocess.Popen.__init__ = popen


# ------------------------------------------------------------------ identity hashes

def seed_identity_hashes():
    """give every brel class that hashes by address a seeded hash instead, so that the
    'memory layout' a set or dict sees is a decision of the run"""
    n = 0
    seen = set()
    for name, mod in list(sys.modules.items()):
        if not (name == "brel" or name.startswith("brel.")):
            continue
        for c in list(vars(mod).values()):
            if not isinstance(c, type) or c in seen or not str(getattr(c, "__module__", "")).startswith("brel"):
                continue
            seen.add(c)
            if c.__hash__ is not object.__hash__ or c.__eq__ is not object.__eq__ or "__slots__" in c.__dict__:
                continue

            def h(self):
                try:
                    return self.__dict__["_sim_identity_hash"]
                except KeyError:
                    pass
                v = WORLD.hash_rng.getrandbits(60) if WORLD is not None else 0
                self.__dict__["_sim_identity_hash"] = v
                return v
            try:
                c.__hash__ = h
                n += 1
            except TypeError:
                pass
    return n


# ------------------------------------------------------------------ preemption inside brel code

def install_call_preemption(repo):
    """optional scheduling points at calls of functions of the code under test"""
    mon = sys.monitoring
    tool = 4
    mon.use_tool_id(tool, "sim")
    prefix = os.path.join(repo, "brel") + os.sep

    def on_start(code, off):
        if not code.co_filename.startswith(prefix):
            return mon.DISABLE
        w = WORLD
        a = current_actor()
        if w is None or a is None or a.dead or len(w.actors) < 2 or w.running is not a:
            return
        if a.nth("callgate") % w.cfg.get("call_stride", 7):
            return
        w.maybe_switch(a)

    def on_line(code, line):
        if not code.co_filename.startswith(prefix):
            return mon.DISABLE
        w = WORLD
        a = current_actor()
        if w is None or a is None or a.dead or len(w.actors) < 2 or w.running is not a:
            return
        if a.nth("linegate") % w.cfg["line_stride"]:
            return
        w.maybe_switch(a)

    mon.register_callback(tool, mon.events.PY_START, on_start)
    events = mon.events.PY_START
    if WORLD.cfg.get("line_stride"):
        mon.register_callback(tool, mon.events.LINE, on_line)
        events |= mon.events.LINE
    mon.set_events(tool, events)
