"""Seams: every source of nondeterminism and every fault the simulator owns."""
import builtins
import errno
import gc
import io
import os
import random
import sys
import threading
import time
import types

from .core import HarnessError, SimCrash
from .env import REPO

# ------------------------------------------------------------------ code objects


def _walk(code, out):
    # By identity: code of an earlier import of the package compares equal.
    if id(code) in out:
        return
    out[id(code)] = code
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _walk(c, out)


_codes = None


def gpcm_codes():
    """All code objects of functions defined in the tree's gpcm package, in a
    deterministic order."""
    global _codes
    if _codes is None:
        import gpcm  # noqa
        import gpcm.sample, gpcm.util, gpcm.exppoly, gpcm.normal, gpcm.approx  # noqa

        prefix = os.path.realpath(os.path.join(REPO, "gpcm")) + os.sep
        found = []
        seen = set()
        for o in gc.get_objects():
            if isinstance(o, types.FunctionType):
                c = o.__code__
                if id(c) not in seen and os.path.realpath(c.co_filename).startswith(
                    prefix
                ):
                    seen.add(id(c))
                    found.append(c)
        out = {}
        for c in found:
            _walk(c, out)
        _codes = sorted(
            out.values(),
            key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname),
        )
    return _codes


def sites(files=None):
    """Names of functions and their numbers of lines, for placing interrupts."""
    res = []
    for c in gpcm_codes():
        f = os.path.basename(c.co_filename)
        if files and f not in files:
            continue
        if c.co_name in ("<module>", "<lambda>"):
            continue
        lines = sorted({ln for _, _, ln in c.co_lines() if ln})
        x = (f, c.co_qualname, len(lines))
        if x not in res:
            res.append(x)
    return res


# -------------------------------------------------------------------- monitoring

# Where CPython delivers signals, switches threads and can run out of memory: at the start
# of a function, around a call and at backward jumps. Between two such points, code of gpcm
# is atomic in reality, so the simulator does not interrupt it there either.

TOOL = 4
_mon = sys.monitoring
_handler = None
_tool_ready = False


def _on_start(code, off):
    h = _handler
    if h is not None:
        h.event(code, off)


def _on_call(code, off, f, arg):
    h = _handler
    if h is not None:
        h.event(code, off)


def _on_jump(code, off, dest):
    h = _handler
    if h is not None and dest <= off:
        h.event(code, off)


def _activate(handler):
    global _handler, _tool_ready
    ev = _mon.events
    if not _tool_ready:
        _mon.use_tool_id(TOOL, "gpcm-sim")
        _mon.register_callback(TOOL, ev.PY_START, _on_start)
        _mon.register_callback(TOOL, ev.CALL, _on_call)
        _mon.register_callback(TOOL, ev.C_RETURN, _on_call)
        _mon.register_callback(TOOL, ev.JUMP, _on_jump)
        _tool_ready = True
    files = getattr(handler, "files", None)
    for c in gpcm_codes():
        if not files or os.path.basename(c.co_filename) in files:
            _mon.set_local_events(TOOL, c, ev.PY_START | ev.CALL | ev.JUMP)
    _handler = handler


def _deactivate():
    global _handler
    if _handler is not None:
        _handler = None
        for c in gpcm_codes():
            _mon.set_local_events(TOOL, c, 0)


class Interrupter:
    """Raise an exception at a chosen point of the execution of gpcm's code.

    spec: {"mode": "count", "n": n} fires at the n-th point reached;
          {"mode": "site", "name": qualname, "occ": k} fires at the k-th point reached in
          that function.
          {"mode": "none"} only counts.
    """

    def __init__(self, spec, exc=KeyboardInterrupt, on_fire=None):
        self.spec = spec
        self.exc = exc
        self.count = 0
        self.fired = None
        self.on_fire = on_fire
        self.hits = 0
        self.thread = threading.get_ident()

    def event(self, code, off):
        if self.fired or threading.get_ident() != self.thread:
            return
        self.count += 1
        s = self.spec
        if s["mode"] == "count":
            if self.count == s["n"]:
                self.fire(code, off)
        elif s["mode"] == "site":
            if code.co_qualname == s["name"]:
                self.hits += 1
                if self.hits == s["occ"]:
                    self.fire(code, off)

    def fire(self, code, off):
        self.fired = (code.co_qualname, off)
        if self.on_fire:
            self.on_fire()
        raise self.exc("injected by the simulator")

    def __enter__(self):
        self.thread = threading.get_ident()
        _activate(self)
        return self

    def __exit__(self, *a):
        _deactivate()
        return False


class Scheduler:
    """Runs real threads one at a time, parking them at points of gpcm's code.
    Which thread runs next, and for how many events, is a pure function of the seed (or
    of an explicit schedule when replaying a minimised run)."""

    def __init__(self, seed, mean=8, schedule=None, max_switch=4000, files=None):
        # Concentrate on the code of some files: others then run without switches.
        self.files = files
        self.rng = random.Random(seed)
        self.mean = mean
        self.given = list(schedule) if schedule is not None else None
        self.schedule = []
        self.max_switch = max_switch
        self.threads = []
        self.left = 0
        self.events = 0
        self.current = None
        self.stalls = 0

    def event(self, code, where):
        t = self.by_ident.get(threading.get_ident())
        if t is None:
            return
        self.events += 1
        self.left -= 1
        if self.left <= 0:
            self.main.release()
            t.gate.acquire()

    def run(self, thunks):
        """Run all thunks to completion. Returns [("ok", value) | ("exc", e)]."""
        self.main = threading.Semaphore(0)
        self.by_ident = {}
        res = [None] * len(thunks)

        class T:
            pass

        def body(t, thunk):
            self.by_ident[threading.get_ident()] = t
            t.gate.acquire()
            try:
                res[t.i] = ("ok", thunk())
            except Exception as e:
                res[t.i] = ("exc", e)
            except BaseException as e:
                res[t.i] = ("exc", e)
            finally:
                self.by_ident.pop(threading.get_ident(), None)
                t.done = True
                self.main.release()

        ts = []
        for i, thunk in enumerate(thunks):
            t = T()
            t.i, t.done, t.gate = i, False, threading.Semaphore(0)
            t.thread = threading.Thread(target=body, args=(t, thunk), daemon=True)
            ts.append(t)
        for t in ts:
            t.thread.start()
        _activate(self)
        try:
            while True:
                live = [t for t in ts if not t.done]
                if not live:
                    break
                if self.given is not None:
                    if self.given:
                        i, q = self.given.pop(0)
                        t = ts[i % len(ts)]
                        if t.done:
                            continue
                    else:
                        t, q = live[0], 1 << 60
                elif len(self.schedule) >= self.max_switch:
                    t, q = live[0], 1 << 60
                else:
                    t = live[self.rng.randrange(len(live))]
                    r = self.rng.random()
                    if r < 0.5:
                        q = 1 + int(self.rng.expovariate(1 / self.mean))
                    elif r < 0.8:
                        q = 1 + self.rng.randrange(3)
                    else:
                        q = 1 + int(self.rng.expovariate(1 / (20 * self.mean)))
                    self.schedule.append([t.i, q])
                self.left = q
                t.gate.release()
                if not self.main.acquire(timeout=120):
                    raise HarnessError("simulated thread stalled")
        finally:
            _deactivate()
        for t in ts:
            t.thread.join(10)
        return res


# ------------------------------------------------------------------------- clock

_real_time = time.time
_real_perf = time.perf_counter


class Clock:
    """Virtual clock. Every reading advances it by a seeded amount; it may stand still
    or jump in either direction."""

    def __init__(self, seed, mode="steady"):
        self.rng = random.Random(seed)
        self.mode = mode
        self.now = 1.7e9
        self.covered = 0.0
        self.reads = 0
        self.jumps = 0

    def read(self):
        self.reads += 1
        m = self.mode
        d = 0.01
        if m == "frozen":
            d = 0.0
        elif m == "jumpy":
            r = self.rng.random()
            if r < 0.05:
                d = self.rng.choice([-1, 1]) * 10 ** self.rng.uniform(0, 7)
                self.jumps += 1
            elif r < 0.2:
                d = 0.0
            else:
                d = self.rng.expovariate(10)
        elif m == "backward":
            d = -0.5
            self.jumps += 1
        elif m == "slow":
            d = self.rng.expovariate(1 / 600.0)
        self.now += d
        self.covered += abs(d)
        return self.now


_clock = Clock(0)


def set_clock(clock):
    global _clock
    _clock = clock
    time.time = lambda: _clock.read()
    time.perf_counter = lambda: _clock.read()


def real_clock():
    time.time = _real_time
    time.perf_counter = _real_perf


# ------------------------------------------------------------------------ output


class Sink(io.TextIOBase):
    """Where the program's output goes. Can be made to fail."""

    def __init__(self):
        self.fail_at = None
        self.exc = None
        self.n = 0
        self.fired = False
        self.chars = 0

    def writable(self):
        return True

    def write(self, s):
        self.n += 1
        self.chars += len(s)
        if self.fail_at is not None and self.n >= self.fail_at and not self.fired:
            self.fired = True
            raise self.exc
        return len(s)

    def flush(self):
        pass

    def arm(self, at, exc):
        self.n, self.fail_at, self.exc, self.fired = 0, at, exc, False

    def disarm(self):
        f = self.fired
        self.fail_at, self.fired = None, False
        return f


sink = Sink()

# -------------------------------------------------------------------- randomness

_urandom = os.urandom
_ur = random.Random(0)


def seed_globals(seed):
    """Set every global random state."""
    import jax
    import lab as B
    import numpy as np

    np.random.seed(seed % (2**32))
    random.seed(seed)
    B.set_random_seed(seed % (2**31))
    B.jax_global_random_state = jax.random.PRNGKey(seed % (2**31))
    _ur.seed(seed)
    os.urandom = lambda n: _ur.randbytes(n)


def global_states():
    """Fingerprint of the global random states (NumPy, JAX)."""
    import lab as B
    import numpy as np

    s = np.random.get_state()
    return (
        (s[0], s[1].tobytes(), s[2], s[3], s[4]),
        np.asarray(B.jax_global_random_state).tobytes(),
    )


# --------------------------------------------------------------------------- jit

_real_jit = None


def set_jit(real):
    """Run jitted functions for real, or op by op (then every line of gpcm executes
    every time, and no compilation cache exists)."""
    global _real_jit
    import lab as B

    if _real_jit is None:
        _real_jit = B.jit
    if real:
        B.jit = _real_jit
    else:

        def jit(f=None, **kw):
            if f is None:
                return lambda g: g
            return f

        B.jit = jit


# -------------------------------------------------------------------------- disk


class Inode:
    __slots__ = ("durable",)

    def __init__(self, durable=b""):
        self.durable = durable


class SimRaw(io.RawIOBase):
    def __init__(self, disk, path, fd, mode_r, mode_w):
        self.disk, self.path, self.fd = disk, path, fd
        self._r, self._w = mode_r, mode_w
        self.name = path
        self.mode = "rb" if not mode_w else "wb"

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        return self.fd

    def isatty(self):
        return False

    def seek(self, off, whence=0):
        return os.lseek(self.fd, off, whence)

    def tell(self):
        return os.lseek(self.fd, 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        self.disk.op("truncate", self.path, lambda: _real["ftruncate"](self.fd, size))
        return size

    def write(self, b):
        b = bytes(b)
        return self.disk.write(self.path, self.fd, b)

    def readinto(self, buf):
        data = self.disk.read(self.path, self.fd, len(buf))
        buf[: len(data)] = data
        return len(data)

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                self.disk.close(self.path, self.fd, self._w)


_real = {}


class SimDisk:
    """A file system inside a scratch directory, in which every operation of the code
    under test is a fault point.

    fault: {"at": index of the operation, "kind": ...} where kind is one of
      crash_before / crash_after / crash_torn - the process dies; user-space buffers are
            lost, whatever reached the kernel stays;
      power_before / power_after - the machine dies; in addition only fsynced contents
            and a prefix of the not yet forced directory operations survive;
      eio / enospc - the operation fails (enospc: and all later writes during the call);
      torn_eio - part of a write is done, then it fails;
      short - a write or read transfers fewer bytes than asked for, which is legal;
      kbd - KeyboardInterrupt is delivered right after the operation.
    """

    NAMES = ("replace", "rename", "remove", "unlink", "truncate", "ftruncate", "fsync",
             "fdatasync", "open", "write", "close", "link", "mkdir", "rmdir")

    def __init__(self, run, root, seed=0):
        self.run, self.root = run, os.path.realpath(root)
        self.rng = random.Random(seed)
        self.fault = None
        self.n = 0
        self.dead = False
        self.power = False
        self.fired = None
        self.full = False
        self.fds = {}
        self.names = {}
        self.inodes = {}  # path -> Inode as in the page cache
        self.disk_dir = {}  # durable directory: path -> Inode
        self.journal = []  # directory operations not yet durable
        self.short = None
        self.scan()

    # -- durable model

    def scan(self):
        """Take what is in the directory now as durable."""
        self.inodes, self.journal = {}, []
        for d, _, fs in os.walk(self.root):
            for f in fs:
                p = os.path.join(d, f)
                with io.FileIO(p) as g:
                    self.inodes[p] = Inode(g.readall())
        self.disk_dir = dict(self.inodes)

    def _commit(self, k=None):
        k = len(self.journal) if k is None else k
        for what, a, b in self.journal[:k]:
            if what == "set":
                self.disk_dir[a] = b
            elif what == "del":
                self.disk_dir.pop(a, None)
        del self.journal[:k]

    def power_loss(self):
        """Replace the real contents by what survives."""
        k = self.rng.randrange(len(self.journal) + 1)
        self._commit(k)
        for p, ino in list(self.disk_dir.items()):
            try:
                with io.FileIO(p) as g:
                    cached = g.readall()
            except OSError:
                cached = b""
            data = ino.durable
            # Some of the data that were not synced may have reached the disk.
            if self.inodes.get(p) is ino and cached != data and self.rng.random() < 0.5:
                data = cached[: self.rng.randrange(len(cached) + 1)]
            ino.durable = data
        for p in self.inodes:
            if p not in self.disk_dir and os.path.exists(p):
                _real["unlink"](p)
        for p, ino in self.disk_dir.items():
            with io.FileIO(p, "w") as g:
                g.write(ino.durable)
        self.run.probe("power_loss_applied")

    # -- fault points

    def norm(self, path):
        # Names of temporary files are chosen by the code under test.
        base = os.path.relpath(path, self.root)
        if base not in self.names:
            self.names[base] = f"f{len(self.names)}"
        return self.names[base]

    def point(self, op, path):
        """Returns the fault to apply to this operation, if any."""
        i = self.n
        self.n += 1
        f = self.fault
        self.run.log("disk", i, op, self.norm(path))
        if f and not self.fired and f["at"] == i:
            self.fired = (i, op, f["kind"])
            return f["kind"]
        return None

    def die(self, power):
        self.dead = True
        self.power = power
        self.run.fault("power_loss" if power else "crash")
        raise SimCrash("disk")

    def op(self, op, path, do, undo_ok=True):
        if self.dead:
            return None
        k = self.point(op, path)
        if self.full and op in ("open_w", "write"):
            raise OSError(errno.ENOSPC, "No space left on device (injected)")
        if k in ("crash_before", "power_before", "crash_torn"):
            self.die(k.startswith("power"))
        if k in ("eio", "torn_eio"):
            self.run.fault("eio_" + op)
            raise OSError(errno.EIO, "Input/output error (injected)")
        if k == "enospc":
            self.full = True
            if op in ("open_w", "write", "fsync"):
                self.run.fault("enospc")
                raise OSError(errno.ENOSPC, "No space left on device (injected)")
        r = do()
        if k in ("crash_after", "power_after"):
            self.die(k.startswith("power"))
        if k == "kbd":
            self.run.fault("interrupt_io")
            raise KeyboardInterrupt("injected by the simulator")
        return r

    def write(self, path, fd, b):
        if self.dead:
            return len(b)
        k = self.point("write", path)
        if self.full:
            raise OSError(errno.ENOSPC, "No space left on device (injected)")
        if k in ("crash_before", "power_before"):
            self.die(k.startswith("power"))
        if k == "eio":
            self.run.fault("eio_write")
            raise OSError(errno.EIO, "Input/output error (injected)")
        if k in ("crash_torn", "torn_eio", "enospc", "short") and len(b) > 0:
            m = self.rng.randrange(len(b))
            if k == "short":
                m = max(m, 1)
            _real["write"](fd, b[:m])
            if k == "crash_torn":
                self.run.fault("torn_write")
                self.die(False)
            if k == "short":
                self.run.fault("short_write")
                return m
            self.run.fault("enospc" if k == "enospc" else "torn_eio")
            self.full = k == "enospc"
            e = errno.ENOSPC if k == "enospc" else errno.EIO
            raise OSError(e, "write failed (injected)")
        n = _real["write"](fd, b)
        if k in ("crash_after", "power_after"):
            self.die(k.startswith("power"))
        if k == "kbd":
            self.run.fault("interrupt_io")
            raise KeyboardInterrupt("injected by the simulator")
        return n

    def read(self, path, fd, n):
        if self.dead:
            return b""
        k = self.point("read", path)
        if k in ("eio", "torn_eio", "enospc"):
            self.run.fault("eio_read")
            raise OSError(errno.EIO, "Input/output error (injected)")
        if k and (k.startswith("crash") or k.startswith("power")):
            self.die(k.startswith("power"))
        if k == "kbd":
            self.run.fault("interrupt_io")
            raise KeyboardInterrupt("injected by the simulator")
        if self.short:
            m = 1 + int(self.rng.random() * min(n, self.short))
            if m < n:
                self.run.faults["short_read"] += 1
            n = min(n, m)
        return os.read(fd, n)

    def close(self, path, fd, writing=True):
        self.fds.pop(fd, None)
        try:
            if not self.dead and writing:
                self.op("close", path, lambda: None)
        finally:
            _real["close"](fd)

    def inside(self, path):
        if isinstance(path, int):
            return path in self.fds
        try:
            p = os.path.realpath(os.fsdecode(path))
        except TypeError:
            return False
        return p == self.root or p.startswith(self.root + os.sep)

    # -- replacements

    def _open_fd(self, path, flags, mode):
        p = os.path.realpath(os.fsdecode(path))
        writing = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        existed = os.path.exists(p)

        def do():
            fd = _real["open"](p, flags, mode)
            if writing:
                if not existed:
                    self.inodes[p] = Inode(b"")
                    self.journal.append(("set", p, self.inodes[p]))
            self.fds[fd] = p
            return fd

        fd = self.op("open_w" if writing else "open_r", p, do)
        if fd is None:  # Already dead: give the code something harmless.
            fd = _real["open"](os.devnull, os.O_RDWR)
            self.fds[fd] = p
        return fd

    def _open(self, file, mode="r", buffering=-1, encoding=None, errors=None,
              newline=None, closefd=True, opener=None):
        if not self.inside(file):
            return self._py_open(file, mode, buffering, encoding, errors, newline,
                                 closefd, opener)
        if isinstance(file, int):
            fd, path = file, self.fds[file]
        else:
            flags = {"r": os.O_RDONLY, "w": os.O_WRONLY | os.O_CREAT | os.O_TRUNC,
                     "a": os.O_WRONLY | os.O_CREAT | os.O_APPEND,
                     "x": os.O_WRONLY | os.O_CREAT | os.O_EXCL}[
                         [c for c in mode if c in "rwax"][0]]
            if "+" in mode:
                flags = (flags & ~(os.O_WRONLY | os.O_RDONLY)) | os.O_RDWR
            path = os.path.realpath(os.fsdecode(file))
            if opener is not None:
                fd = opener(file, flags)
                self.fds[fd] = path
            else:
                fd = self._open_fd(file, flags, 0o666)
        w = any(c in mode for c in "wax+")
        r = "r" in mode or "+" in mode
        raw = SimRaw(self, path, fd, r, w)
        if buffering == 0:
            return raw
        if r and w:
            buf = io.BufferedRandom(raw)
        elif w:
            buf = io.BufferedWriter(raw)
        else:
            buf = io.BufferedReader(raw)
        if "b" in mode:
            return buf
        return io.TextIOWrapper(buf, encoding, errors, newline)

    def __enter__(self):
        disk = self
        if not _real:
            for n in self.NAMES:
                _real[n] = getattr(os, n)
        self._py_open = io.open

        def p_open(path, flags, mode=0o777, *, dir_fd=None):
            if dir_fd is None and disk.inside(path) and not isinstance(path, int):
                return disk._open_fd(path, flags, mode)
            return _real["open"](path, flags, mode, dir_fd=dir_fd)

        def p_write(fd, b):
            if fd in disk.fds:
                return disk.write(disk.fds[fd], fd, bytes(b))
            return _real["write"](fd, b)

        def p_close(fd):
            if fd in disk.fds:
                return disk.close(disk.fds[fd], fd)
            return _real["close"](fd)

        def p_fsync(fd):
            f = fd if isinstance(fd, int) else fd.fileno()
            if f not in disk.fds:
                return _real["fsync"](fd)
            p = disk.fds[f]

            def do():
                if os.path.isdir(p):
                    disk._commit()
                else:
                    ino = disk.inodes.get(p)
                    if ino is not None:
                        with io.FileIO(p) as g:
                            ino.durable = g.readall()
                    # Journalling file systems commit the creation of the file as well.
                    disk._commit()
                disk.run.probe("fsync")

            disk.op("fsync", p, do)

        def two(name):
            def g(src, dst, **kw):
                if not (disk.inside(src) or disk.inside(dst)):
                    return _real[name](src, dst, **kw)
                s = os.path.realpath(os.fsdecode(src))
                d = os.path.realpath(os.fsdecode(dst))

                def do():
                    _real[name](src, dst, **kw)
                    ino = disk.inodes.get(s)
                    if ino is not None:
                        disk.inodes[d] = ino
                        disk.journal.append(("set", d, ino))
                        if name != "link":
                            disk.inodes.pop(s, None)
                            disk.journal.append(("del", s, None))
                    disk.run.probe(name)

                disk.op(name, d, do)

            return g

        def one(name):
            def g(path, **kw):
                if not disk.inside(path):
                    return _real[name](path, **kw)
                p = os.path.realpath(os.fsdecode(path))

                def do():
                    _real[name](path, **kw)
                    disk.inodes.pop(p, None)
                    disk.journal.append(("del", p, None))

                disk.op("remove", p, do)

            return g

        def p_trunc(path, length):
            if disk.inside(path):
                disk.op("truncate", os.fsdecode(path) if not isinstance(path, int)
                        else disk.fds[path], lambda: _real["truncate"](path, length))
            else:
                _real["truncate"](path, length)

        builtins.open = self._open
        io.open = self._open
        os.open, os.write, os.close = p_open, p_write, p_close
        os.fsync = os.fdatasync = p_fsync
        os.replace, os.rename, os.link = two("replace"), two("rename"), two("link")
        os.remove, os.unlink = one("remove"), one("unlink")
        os.truncate = p_trunc
        return self

    def __exit__(self, *a):
        builtins.open = self._py_open
        io.open = self._py_open
        for n in ("replace", "rename", "remove", "unlink", "truncate", "fsync",
                  "fdatasync", "open", "write", "close", "link"):
            setattr(os, n, _real[n])
        # File objects abandoned by a dead process must not flush later.
        gc.collect() if self.dead else None
        if self.dead and self.power:
            self.power_loss()
        return False
