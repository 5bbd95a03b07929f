"""The seams.  install() is called once, before booktest, requests, httpx or asyncio users are imported; every seam
passes through to the real thing until a forked child activates a Kernel (K).  From then on the child is a simulated
process: each of its threads runs only while the orchestrator (world.py) lets it."""
import sys, os, io, time, threading, _thread, signal, marshal, pickle, errno, builtins, queue, gc, json, shlex
import datetime, selectors, logging, shutil, subprocess, fnmatch, hashlib, random, tempfile, stat as _stat

K = None                      # the active kernel, only in simulated processes

# ---- shared memory slots ---------------------------------------------------------------------------------------
NOW, WALL, OPS, PROGRESS, STOP_AT, SEQ, ANSWER, SYSCALLS = range(8)
RULE0 = 16                    # two slots per fault rule: matched, fired
KIND0 = 64                    # operation counters per kind
KINDS = ["open_r", "open_w", "write", "read", "rename", "remove", "mkdir", "rmdir", "list", "system", "mark", "sleep",
         "lock", "line", "net", "submit", "other"]
KIDX = {k: KIND0 + i for i, k in enumerate(KINDS)}
SLOTS = 256
MUTATING = {"open_w", "write", "rename", "remove", "mkdir", "rmdir", "system", "mark"}
OPCOST = 20_000               # ns of simulated time per operation
NEVER = 1 << 62

real_open = io.open
DUMP = os.environ.get("SIM_DUMP")
real_time = time.time
real_mono = time.monotonic
real_perf = time.perf_counter
real_sleep = time.sleep
real_system = os.system
real_listdir = os.listdir
real_scandir = os.scandir
real_input = builtins.input
real_start = _thread.start_new_thread
raw_lock = _thread.allocate_lock
real_cpu_count = os.cpu_count

RUN, BLOCK, DEAD = 0, 1, 2


class Thr:
    __slots__ = ("tid", "go", "state", "deadline", "key", "excl", "dirty", "timed_out", "ident", "waiting")

    def __init__(self, tid):
        self.tid = tid
        self.go = raw_lock()
        self.go.acquire()
        self.state = RUN
        self.deadline = -1
        self.key = None
        self.excl = False
        self.dirty = True
        self.timed_out = False
        self.ident = None
        self.waiting = None


class ProcessCrash(BaseException):
    pass


class Kernel:
    def __init__(self, sock, shm, logfd, proc, role, cfg):
        self.sock = sock
        self.shm = shm
        self.logfd = logfd
        self.proc = proc            # index of this simulated process
        self.role = role            # "main" or "worker"
        self.cfg = cfg
        self.scratch = cfg["scratch"]
        self.rules = cfg.get("rules", [])
        self.dirseed = cfg.get("dirseed", 0)
        self.threads = {}
        self.by_ident = {}
        self.next_tid = 1
        self.left = 0
        self.lleft = NEVER
        self.effects = []
        self.deliveries = {}
        self.pools = {}
        self.quiet = 0
        self.cpu = 0
        self.multi = False
        self.live = 1
        self.active = False
        self.write_fault = None
        main = Thr(0)
        main.ident = _thread.get_ident()
        self.threads[0] = main
        self.by_ident[main.ident] = main
        self.cur = main

    # -- log ------------------------------------------------------------------------------------------------------
    def log(self, etype, *data):
        shm = self.shm
        shm[SEQ] += 1
        real_write(self.logfd, (json.dumps([shm[SEQ], shm[NOW], self.proc, self.cur.tid, etype, *data],
                                         default=repr) + "\n").encode("utf-8", "surrogatepass"))

    def progress(self):
        self.shm[PROGRESS] += 1

    # -- scheduling -----------------------------------------------------------------------------------------------
    def switch(self):
        """Give control to the orchestrator; returns when this thread is granted again."""
        me = self.cur
        upd = []
        for t in self.threads.values():
            if t.dirty:
                upd.append((t.tid, t.state, t.deadline, t.key, t.excl))
                t.dirty = False
        dead = me.state == DEAD
        eff, self.effects = self.effects, []
        self.sock.send(marshal.dumps((me.tid, upd, eff, self.stopinfo)))
        self.stopinfo = None
        g = self.sock.recv(1 << 22)
        if not g:
            os._exit(97)
        tid, left, lleft, deliv, sig, fault = marshal.loads(g)
        self.left, self.lleft = left, lleft
        for d in deliv:
            self.deliver(d)
        self.write_fault = fault
        t = self.threads[tid]
        t.state = RUN
        t.dirty = False
        if t is not me:
            self.sig = sig
            self.cur = t
            t.go.release()
            if dead:
                return
            me.go.acquire()
            sig = self.sig
        self.sig = 0
        me.deadline, me.key, me.excl, me.waiting = -1, None, False, None
        if sig:
            signal.raise_signal(signal.SIGINT)
            # the handler runs here, in the main thread
            for _ in (1,):
                pass

    stopinfo = None
    sig = 0

    def deliver(self, d):
        kind = d[0]
        if kind == "result":
            p = self.pools.get(d[1])
            if p is not None:
                p._deliver(d[2], d[3], d[4])
        else:
            self.deliveries.setdefault(kind, []).append(d[1:])

    def yield_(self, excl=False):
        self.left -= 1
        if self.left <= 0:
            me = self.cur
            me.state = RUN
            me.excl = excl
            me.dirty = True
            self.switch()

    def block(self, deadline=-1, key=None):
        """Park the current thread until it is made runnable or its deadline passes."""
        me = self.cur
        me.state = BLOCK
        me.deadline = deadline
        me.key = key
        me.dirty = True
        self.switch()

    def wake(self, t):
        if t.state == BLOCK:
            t.state = RUN
            t.dirty = True

    # -- operations -----------------------------------------------------------------------------------------------
    def op(self, kind, path=None, size=None):
        """Called before each intercepted operation. Returns a fault to apply, or None."""
        if self.quiet:
            return None
        shm = self.shm
        shm[KIDX[kind]] += 1
        shm[NOW] += OPCOST
        excl = kind == "write" or kind == "read"
        if kind in MUTATING:
            shm[PROGRESS] += 1
            shm[OPS] += 1
            if self.cfg.get("oplog"):
                self.log("op", shm[OPS], kind, path[len(self.scratch) + 1:] if path else None)
            if shm[OPS] == shm[STOP_AT]:
                self.left = 0
                self.stopinfo = (kind, path, size)
        f = None
        if kind != "read":
            self.yield_(excl)
            f, self.write_fault = self.write_fault, None
        if self.rules and path is not None:
            r = self.match_rules(kind, path, size)
            if r is not None:
                f = r
        return f

    def match_rules(self, kind, path, size):
        shm = self.shm
        rel = path[len(self.scratch) + 1:] if path.startswith(self.scratch + "/") else path
        out = None
        for i, r in enumerate(self.rules):
            if kind not in r["kinds"]:
                continue
            if not fnmatch.fnmatch(rel, r.get("glob", "*")):
                continue
            if r.get("role") and r["role"] != self.role:
                continue
            shm[RULE0 + 2 * i] += 1
            n = shm[RULE0 + 2 * i]
            if n == r["nth"] or (r.get("persist") and n > r["nth"] and
                                 (r.get("until") is None or n <= r["nth"] + r["until"])):
                shm[RULE0 + 2 * i + 1] += 1
                self.log("fault", r["err"], kind, rel)
                out = (r["err"], r.get("frac", 0.0))
        return out

    def fail(self, fault, path):
        code = getattr(errno, fault[0], errno.EIO)
        raise OSError(code, os.strerror(code), path)

    def now(self):
        return self.shm[NOW]


# ---- locks -----------------------------------------------------------------------------------------------------
class SimLock:
    __slots__ = ("_locked", "_waiters", "__weakref__")

    def __init__(self):
        self._locked = False
        self._waiters = None

    def acquire(self, blocking=True, timeout=-1):
        k = K
        if k is None or not k.active:
            if self._locked and (not blocking or timeout >= 0):
                return False
            self._locked = True
            return True
        if k.multi and not k.quiet:
            k.yield_()
        if not self._locked:
            self._locked = True
            return True
        if not blocking:
            return False
        deadline = -1 if timeout is None or timeout < 0 else k.shm[NOW] + int(timeout * 1e9)
        me = k.cur
        if self._waiters is None:
            self._waiters = []
        while self._locked:
            if deadline >= 0 and k.shm[NOW] >= deadline:
                return False
            self._waiters.append(me)
            try:
                k.block(deadline)
            finally:
                if me in self._waiters:
                    self._waiters.remove(me)
        self._locked = True
        return True

    __enter__ = acquire

    def release(self):
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        self._locked = False
        if self._waiters:
            for t in self._waiters:
                K.wake(t)

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._locked

    def _at_fork_reinit(self):
        self._locked = False
        self._waiters = None


class SimRLock:
    __slots__ = ("_lock", "_owner", "_count", "__weakref__")

    def __init__(self):
        self._lock = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if self._lock.acquire(blocking, timeout):
            self._owner = me
            self._count = 1
            return True
        return False

    __enter__ = acquire

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
            self._lock.release()

    def __exit__(self, *a):
        self.release()

    def _release_save(self):
        s = (self._count, self._owner)
        self._count, self._owner = 0, None
        self._lock.release()
        return s

    def _acquire_restore(self, s):
        self._lock.acquire()
        self._count, self._owner = s

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _recursion_count(self):
        return self._count if self._is_owned() else 0

    def _at_fork_reinit(self):
        self.__init__()


def sim_start_new_thread(function, args, kwargs={}):
    k = K
    if k is None or not k.active:
        return real_start(function, args, kwargs)
    t = Thr(k.next_tid)
    k.next_tid += 1
    k.threads[t.tid] = t
    k.live += 1

    def boot():
        t.go.acquire()
        t.ident = _thread.get_ident()
        k.by_ident[t.ident] = t
        try:
            function(*args, **kwargs)
        except SystemExit:
            pass
        finally:
            for l in t_locks.pop(t.ident, ()):
                if l._locked:
                    l.release()
            k.live -= 1
            del k.by_ident[t.ident]
            t.state = DEAD
            t.dirty = True
            k.switch()

    if not k.multi:
        k.multi = True
        k.enable_lines()
    ident = real_start(boot, ())
    k.yield_()
    return ident


t_locks = {}


def sim_set_sentinel():
    k = K
    if k is None or not k.active:
        return real_set_sentinel()
    l = SimLock()
    t_locks.setdefault(_thread.get_ident(), []).append(l)
    return l


real_set_sentinel = threading._set_sentinel


# ---- line level preemption ----------------------------------------------------------------------------------------
LINE_CODES = []
TOOL = 3


def collect_codes(modules):
    seen = set()

    def add(code):
        if code in seen:
            return
        seen.add(code)
        LINE_CODES.append(code)
        for c in code.co_consts:
            if hasattr(c, "co_code"):
                add(c)

    import types
    for m in modules:
        for v in vars(m).values():
            if isinstance(v, types.FunctionType) and v.__module__ == m.__name__:
                add(v.__code__)
            elif isinstance(v, type) and v.__module__ == m.__name__:
                for f in vars(v).values():
                    f = getattr(f, "__func__", f)
                    if isinstance(f, types.FunctionType):
                        add(f.__code__)


def enable_lines(self):
    mode = self.cfg.get("lines")
    if not mode:
        return
    mon = sys.monitoring
    ev = mon.events.INSTRUCTION if mode == "instr" else mon.events.LINE
    mon.use_tool_id(TOOL, "sim")

    def on_line(code, pos):
        k = self
        if k.quiet or k.live < 2:
            return
        k.lleft -= 1
        if k.lleft <= 0:
            k.shm[KIDX["line"]] += 1
            k.lleft = NEVER
            k.left = 0
            k.yield_()

    mon.register_callback(TOOL, ev, on_line)
    for c in LINE_CODES:
        mon.set_local_events(TOOL, c, ev)


Kernel.enable_lines = enable_lines


# ---- time --------------------------------------------------------------------------------------------------------
def _tick(k):
    k.shm[NOW] += 1000
    return k.shm[NOW]


def sim_time():
    k = K
    if k is None:
        return real_time()
    return (_tick(k) + k.shm[WALL]) / 1e9


def sim_time_ns():
    k = K
    if k is None:
        return real_time_ns()
    return _tick(k) + k.shm[WALL]


def sim_mono():
    k = K
    if k is None:
        return real_mono()
    return _tick(k) / 1e9


def sim_mono_ns():
    k = K
    if k is None:
        return real_mono_ns()
    return _tick(k)


def sim_perf():
    k = K
    if k is None:
        return real_perf()
    return _tick(k) / 1e9


def sim_perf_ns():
    k = K
    if k is None:
        return real_perf_ns()
    return _tick(k)


def sim_process_time():
    k = K
    if k is None:
        return real_process_time()
    _tick(k)
    k.cpu += 1000                      # the time asleep is not processor time
    return k.cpu / 1e9


def sim_sleep(secs):
    k = K
    if k is None or not k.active:
        return real_sleep(secs)
    if secs < 0:
        raise ValueError("sleep length must be non-negative")
    k.shm[KIDX["sleep"]] += 1
    end = k.shm[NOW] + int(secs * 1e9) + 1000
    while k.shm[NOW] < end:
        k.block(end)


real_time_ns, real_mono_ns, real_perf_ns = time.time_ns, time.monotonic_ns, time.perf_counter_ns
real_process_time = time.process_time


# ---- asyncio -------------------------------------------------------------------------------------------------------
class SimSelector(selectors.SelectSelector):
    def select(self, timeout=None):
        k = K
        if k is None or not k.active:
            return super().select(timeout)
        ready = super().select(0)
        if ready:
            return ready
        if timeout is not None and timeout <= 0:
            k.yield_()
            return []
        deadline = -1 if timeout is None else k.shm[NOW] + int(timeout * 1e9) + 1000
        self._thr = k.cur
        try:
            k.block(deadline)
        finally:
            self._thr = None
        return super().select(0)

    _thr = None


# ---- files -----------------------------------------------------------------------------------------------------------
def stamp(k, f):
    """Files are modified at simulated times of the system clock, in the granularity of usual file systems"""
    try:
        t = max(k.shm[NOW] + k.shm[WALL], 0) // 4_000_000 * 4_000_000
        real_utime(f.fileno(), ns=(t, t))
    except (OSError, ValueError):
        pass


real_utime = os.utime


class SimFileIO(io.FileIO):
    def __init__(self, file, mode, path, opener=None, closefd=True):
        super().__init__(file, mode, closefd, opener)
        self._path = path
        if mode[0] != "r" and K is not None:
            stamp(K, self)

    def write(self, b):
        k = K
        if k is None or not k.active or k.quiet:
            return super().write(b)
        try:
            return self._write(k, b)
        finally:
            stamp(k, self)

    def _write(self, k, b):
        n = len(b) if isinstance(b, bytes) else memoryview(b).nbytes
        if k.watch:
            text = bytes(b)
            if any(w in text for w in k.watch):
                k.log("written", os.path.relpath(self._path, k.scratch), text.decode("utf8", "surrogateescape"))
        f = k.op("write", self._path, n)
        if f is None:
            return super().write(b)
        b = bytes(b)
        part = cut(b, f[1])
        if f[0] == "TORN":                      # crash in the middle of the write
            super().write(b[:part])
            k.left = 0
            k.stopinfo = ("torn", self._path, part)
            k.yield_(True)
            os._exit(96)
        if f[0] == "SHORT":                     # legal short write, the caller has to continue
            return super().write(b[:max(1, part)])
        if part:
            super().write(b[:part])
        k.fail(f, self._path)

    def readinto(self, b):
        k = K
        if k is not None and k.active and not k.quiet:
            f = k.op("read", self._path)
            if f is not None:
                k.fail(f, self._path)
        return super().readinto(b)

    def readall(self):
        k = K
        if k is not None and k.active and not k.quiet:
            f = k.op("read", self._path)
            if f is not None:
                k.fail(f, self._path)
        return super().readall()


def cut(b, frac):
    """How much of a write is done before it is cut: a fraction, or from 2 on one of the places that matter"""
    n = len(b)
    if frac < 2:
        return min(n, int(n * frac))
    tabs = [i for i, c in enumerate(b) if c == 9]
    nl = b.find(b"\n")
    at = n // 2
    z = int(frac)
    if z in (2, 3) and tabs:
        at = tabs[-2 if len(tabs) > 1 else -1] + z - 2        # around the first tab of the last line
    elif z in (4, 5) and tabs:
        at = tabs[-1] + z - 4
    elif z == 6:
        at = n - 1
    elif z == 7 and nl >= 0:
        at = nl + 1
    elif z == 8 and nl >= 0:
        at = b.rfind(b"\n", 0, n - 1) + 1                     # before the last line
    return max(0, min(n, at))


def abspath_in(k, p):
    try:
        p = os.fspath(p)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    a = os.path.normpath(os.path.join(k.cwd, p)) if not os.path.isabs(p) else os.path.normpath(p)
    if a == k.scratch or a.startswith(k.scratch + "/"):
        return a
    return None


def fd_path(k, fd):
    """The file below the scratch directory behind a descriptor (os.fdopen, os.write)"""
    if fd <= 2:
        return None
    try:
        a = os.readlink(f"/proc/self/fd/{fd}")
        return a if a.startswith(k.scratch + "/") and _stat.S_ISREG(os.fstat(fd).st_mode) else None
    except OSError:
        return None


def sim_write(fd, data):
    k = K
    if k is None or not k.active or k.quiet:
        return real_write(fd, data)
    path = fd_path(k, fd)
    if path is None:
        return real_write(fd, data)
    return SimFileIO(fd, "w", path, None, False).write(data)


real_write = os.write


def sim_urandom(n):
    k = K
    if k is None or not k.active:
        return real_urandom(n)
    k.randoms = getattr(k, "randoms", 0) + 1
    return hashlib.shake_128(f"{k.dirseed}:{k.proc}:{k.randoms}".encode()).digest(n)


real_urandom, real_getpid = os.urandom, os.getpid


def sim_getpid():
    k = K
    return real_getpid() if k is None or not k.active else 1000 + k.proc


def sim_seed(self, a=None, version=2):
    if a is None and K is not None and K.active:
        a = sim_urandom(16)
    return real_seed(self, a, version)


real_seed = random.Random.seed


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    k = K
    if k is None or not k.active or k.quiet:
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    path = fd_path(k, file) if isinstance(file, int) else abspath_in(k, file)
    if path is None:
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = "b" in mode
    rawmode = mode.replace("t", "").replace("b", "").replace("U", "")
    if set(mode) - set("axrwb+tU") or len(mode) > len(set(mode)):
        raise ValueError("invalid mode: %r" % mode)
    if binary and encoding is not None:
        raise ValueError("binary mode doesn't take an encoding argument")
    raw = SimFileIO(file, rawmode, path, opener, closefd)
    try:
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        line = False
        size = 8192 if buffering in (-1, 1) else buffering
        if buffering == 1:
            line = True
        if "+" in rawmode:
            buf = io.BufferedRandom(raw, size)
        elif rawmode[0] == "r":
            buf = io.BufferedReader(raw, size)
        else:
            buf = io.BufferedWriter(raw, size)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, io.text_encoding(encoding) if encoding else "utf-8", errors, newline, line)
        text.mode = mode
        return text
    except BaseException:
        raw.close()
        raise


WFLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
AUDIT = {"os.rename": "rename", "os.remove": "remove", "os.mkdir": "mkdir", "os.rmdir": "rmdir", "os.listdir": "list",
         "os.scandir": "list", "os.truncate": "other", "os.chmod": "other", "os.chown": "other", "os.link": "other",
         "os.symlink": "other", "os.utime": "other"}
DENY = {"os.fork", "os.forkpty", "os.exec", "os.posix_spawn", "os.spawn", "os.kill", "os.killpg", "socket.connect",
        "socket.bind", "socket.getaddrinfo", "socket.sendto", "pty.spawn", "subprocess.Popen"}


def audit(event, args):
    k = K
    if k is None or not k.active:
        return
    if event == "open":
        path, mode, flags = args
        if isinstance(path, int) or k.quiet:
            return
        w = bool(flags & WFLAGS) if isinstance(flags, int) else False
        if isinstance(mode, str) and any(c in mode for c in "wax+"):
            w = True
        a = abspath_in(k, path)
        if a is None:
            if w and os.fspath(path) not in ("/dev/null", b"/dev/null"):
                k.log("escape", event, str(path))
                raise PermissionError(errno.EACCES, "sim: write outside of the scratch directory", path)
            return
        if a.endswith((".py", ".pyc")) and not w:
            return
        f = k.op("open_w" if w else "open_r", a)
        if f is not None:
            k.fail(f, a)
        return
    kind = AUDIT.get(event)
    if kind is not None:
        if k.quiet:
            return
        path = args[0]
        if path is None:
            path = "."
        if isinstance(path, int):
            return
        a = abspath_in(k, path)
        if a is None:
            if kind == "list":
                return
            k.log("escape", event, str(path))
            raise PermissionError(errno.EACCES, "sim: change outside of the scratch directory", str(path))
        if event == "os.rename" or event in ("os.link", "os.symlink"):
            b = abspath_in(k, args[1])
            if b is None:
                k.log("escape", event, str(args[1]))
                raise PermissionError(errno.EACCES, "sim: change outside of the scratch directory", str(args[1]))
            f = k.op(kind, b)
            if f is None and k.rules:
                f = k.match_rules(kind + "_src", a, None)
        else:
            if kind == "list" and ("__pycache__" in a or
                                   sys._getframe(1).f_code.co_filename == "<frozen importlib._bootstrap_external>"):
                return                     # the real import lock is held
            f = k.op(kind, a)
        if f is not None:
            k.fail(f, a)
        return
    if event in DENY:
        if k.quiet:
            return
        k.log("denied", event, repr(args)[:200])
        raise PermissionError(errno.EPERM, "sim: not available in the simulation: " + event)


def _order(k, a, name):
    import zlib
    return (zlib.crc32(f"{k.dirseed}:{name}".encode("utf-8", "surrogateescape")), name)


def sim_listdir(path="."):
    k = K
    r = real_listdir(path)
    if k is None or not k.active:
        return r
    if r and isinstance(r[0], bytes):
        return sorted(r)
    return sorted(r, key=lambda n: _order(k, None, n))


class _Scan:
    def __init__(self, items):
        self._it = iter(items)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        self._it = iter(())


def sim_scandir(path="."):
    k = K
    if k is None or not k.active:
        return real_scandir(path)
    with real_scandir(path) as it:
        items = list(it)
    if items and isinstance(items[0].name, bytes):
        items.sort(key=lambda e: e.name)
    else:
        items.sort(key=lambda e: _order(k, None, e.name))
    return _Scan(items)


# ---- shell ------------------------------------------------------------------------------------------------------------
def shell(k, argv, out):
    """The few commands booktest hands to a shell, with their real effects kept inside the scratch directory."""
    if not argv:
        return 0
    cmd, rest = argv[0], argv[1:]
    base = os.path.basename(cmd)
    opts = [a for a in rest if a.startswith("-") and a != "-"]
    paths = [a for a in rest if not a.startswith("-")]
    rc = 0
    if base == "mkdir":
        for p in paths:
            try:
                if any("p" in o for o in opts):
                    os.makedirs(p, exist_ok=True)
                else:
                    os.mkdir(p)
            except OSError:
                rc = 1
        return rc
    if base == "rm":
        rec = any("r" in o or "R" in o for o in opts)
        force = any("f" in o for o in opts)
        for p in paths:
            try:
                if os.path.isdir(p) and not os.path.islink(p):
                    if rec:
                        shutil.rmtree(p)
                    else:
                        rc = 1
                elif os.path.lexists(p):
                    os.remove(p)
                elif not force:
                    rc = 1
            except OSError:
                rc = 1
        return rc
    if base == "rmdir":
        for p in paths:
            try:
                os.rmdir(p)
            except OSError:
                rc = 1
        return rc
    if base == "cat":
        for p in paths:
            try:
                with open(p, "rb") as f:
                    data = f.read()
            except OSError:
                rc = 1
                continue
            if out is None:
                os.write(1, data)
            else:
                out.append(data)
        return rc
    if base in ("cp", "mv", "touch"):
        try:
            if base == "touch":
                for p in paths:
                    open(p, "a").close()
            elif base == "mv":
                shutil.move(paths[0], paths[1])
            elif os.path.isdir(paths[0]):
                shutil.copytree(paths[0], paths[1])
            else:
                shutil.copy(paths[0], paths[1])
        except OSError:
            rc = 1
        return rc
    if base in ("true", "echo", "clear"):
        return 0
    k.log("tool", argv)
    return 0


def sim_system(command):
    k = K
    if k is None or not k.active:
        return real_system(command)
    f = k.op("system", str(command))
    if f is not None:
        return 256
    rc = 0
    text = str(command)
    for part in text.split("&&"):
        for p2 in part.split(";"):
            try:
                argv = shlex.split(p2)
            except ValueError:
                return 512
            rc = shell(k, argv, None)
            if rc:
                break
        if rc:
            break
    return rc << 8


class SimCompleted(subprocess.CompletedProcess):
    pass


real_run = subprocess.run


def sim_run(args, **kw):
    k = K
    if k is None or not k.active:
        return real_run(args, **kw)
    argv = shlex.split(args) if isinstance(args, str) else [os.fspath(a) for a in args]
    f = k.op("system", " ".join(argv))
    out = [] if kw.get("capture_output") or kw.get("stdout") is not None else None
    rc = 1 if f is not None else shell(k, argv, out)
    if kw.get("check") and rc:
        raise subprocess.CalledProcessError(rc, args)
    data = b"".join(out) if out is not None else None
    if data is not None and (kw.get("text") or kw.get("universal_newlines") or kw.get("encoding")):
        data = data.decode()
    return subprocess.CompletedProcess(args, rc, data, None)


def sim_call(args, **kw):
    k = K
    if k is None or not k.active:
        return real_call(args, **kw)
    return sim_run(args, **{a: b for a, b in kw.items() if a != "check"}).returncode


def sim_check_call(args, **kw):
    k = K
    if k is None or not k.active:
        return real_check_call(args, **kw)
    return sim_run(args, check=True, **kw).returncode


def sim_check_output(args, **kw):
    k = K
    if k is None or not k.active:
        return real_check_output(args, **kw)
    return sim_run(args, check=True, stdout=subprocess.PIPE, **kw).stdout


real_call, real_check_call, real_check_output = subprocess.call, subprocess.check_call, subprocess.check_output


def sim_input(prompt=""):
    k = K
    if k is None or not k.active:
        return real_input(prompt)
    sys.stdout.write(str(prompt))
    sys.stdout.flush()
    k.op("mark")
    answers = k.cfg.get("answers", [])
    i = k.shm[ANSWER]
    if k.role != "main" or i >= len(answers):
        k.log("input", str(prompt), None, os.fstat(1).st_size)
        raise EOFError("EOF when reading a line")
    k.shm[ANSWER] += 1
    k.log("input", str(prompt), answers[i], os.fstat(1).st_size)
    sys.stdout.write("\n")
    if answers[i] == "^C":
        signal.raise_signal(signal.SIGINT)
        return ""
    return answers[i]


def sim_cpu_count():
    k = K
    if k is None:
        return real_cpu_count()
    return k.cfg.get("cpus", 4)


# ---- worker pool ----------------------------------------------------------------------------------------------------------
class SimAsyncResult:
    def __init__(self, pool, job, callback=None, error_callback=None):
        self._pool = pool
        self._job = job
        self._ready = False
        self._success = None
        self._value = None
        self._callback, self._error_callback = callback, error_callback

    def ready(self):
        k = K
        if k.left <= 0:
            k.yield_()
        return self._ready

    def successful(self):
        if not self._ready:
            raise ValueError(f"{self!r} not ready")
        return self._success

    def wait(self, timeout=None):
        k = K
        deadline = -1 if timeout is None else k.shm[NOW] + int(timeout * 1e9)
        while not self._ready:
            if deadline >= 0 and k.shm[NOW] >= deadline:
                return
            k.block(deadline, "pool")

    def get(self, timeout=None):
        self.wait(timeout)
        if not self._ready:
            import multiprocessing
            raise multiprocessing.TimeoutError
        if self._success:
            return self._value
        raise self._value

    def _set(self, ok, value):
        self._success, self._value = ok, value
        cb = self._callback if ok else self._error_callback
        if cb is not None:
            try:
                cb(value)
            except Exception:
                pass
        self._ready = True
        self._pool._cache.pop(self._job, None)


class SimPool:
    counter = 0

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        k = K
        SimPool.counter += 1
        self._id = SimPool.counter
        self._n = processes or sim_cpu_count()
        if self._n < 1:
            raise ValueError("Number of processes must be at least 1")
        self._cache = {}
        self._next = 0
        self._state = "RUN"
        self._done = None          # results whose callbacks are to be called by the result handler thread
        k.pools[self._id] = self
        init = pickle.dumps((initializer, initargs))
        k.effects.append(("pool", self._id, int(self._n), init, dict(os.environ), list(sys.path), os.getcwd()))
        k.progress()
        k.left = 0
        k.yield_()

    def _handle_results(self):
        """The result handler thread of multiprocessing.Pool; there only if a callback is used"""
        k = K
        while self._state != "TERMINATE":
            while self._done and self._state != "TERMINATE":
                r, ok, data = self._done.pop(0)
                r._set(ok, pickle.loads(data))
                for t in k.threads.values():
                    if t.key == "pool":
                        k.wake(t)
            k.block(-1, "pool")

    def _submit(self, func, args, kwds, callback=None, error_callback=None):
        if self._state != "RUN":
            raise ValueError("Pool not running")
        k = K
        if self._done is None and (callback or error_callback):
            self._done = []
            sim_start_new_thread(self._handle_results, ())
        job = self._next
        self._next += 1
        r = SimAsyncResult(self, job, callback, error_callback)
        self._cache[job] = r
        try:
            data = pickle.dumps((func, tuple(args), dict(kwds or {})))
        except Exception as e:
            r._set(False, e)
            return r
        k.effects.append(("submit", self._id, job, data))
        k.shm[KIDX["submit"]] += 1
        k.progress()
        k.yield_()
        return r

    def _deliver(self, job, ok, data):
        r = self._cache.get(job)
        if r is not None:
            if r._callback or r._error_callback:
                self._done.append((r, ok, data))
            else:
                r._set(ok, pickle.loads(data))

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        return self._submit(func, args, kwds, callback, error_callback)

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        got = []

        def one(r):
            got.append(r)
            if len(got) == len(rs) and callback is not None:
                callback([r._value for r in rs])
        xs = list(iterable)
        rs = []
        for x in xs:
            rs.append(None)
        if callback is None and error_callback is None:
            rs = [self._submit(func, (x,), {}) for x in xs]
        else:
            for i, x in enumerate(xs):
                rs[i] = self._submit(func, (x,), {}, one, error_callback)
        return _MapResult(rs)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self.map_async(_Star(func), iterable, chunksize, callback, error_callback)

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable).get()

    def starmap(self, func, iterable, chunksize=None):
        return _MapResult([self._submit(func, x, {}) for x in iterable]).get()

    def imap(self, func, iterable, chunksize=1):
        for r in [self._submit(func, (x,), {}) for x in iterable]:
            yield r.get()

    def imap_unordered(self, func, iterable, chunksize=1):
        rs = [self._submit(func, (x,), {}) for x in iterable]
        while rs:
            done = [r for r in rs if r._ready]
            if not done:
                K.block(-1, "pool")
                continue
            rs.remove(done[0])
            yield done[0].get()

    def close(self):
        if self._state == "RUN":
            self._state = "CLOSE"
            K.effects.append(("close", self._id))

    def terminate(self):
        if self._state != "TERMINATE":
            self._state = "TERMINATE"
            k = K
            k.effects.append(("terminate", self._id))
            k.left = 0
            k.yield_()

    def join(self):
        if self._state == "RUN":
            raise ValueError("Pool is still running")
        k = K
        while self._state == "CLOSE" and self._cache:
            k.block(-1, "pool")
        k.effects.append(("joined", self._id))
        k.left = 0
        k.yield_()

    def __enter__(self):
        if self._state != "RUN":
            raise ValueError("Pool not running")
        return self

    def __exit__(self, *a):
        self.terminate()


class _Star:
    def __init__(self, func):
        self.func = func

    def __call__(self, args):
        return self.func(*args)


class _MapResult:
    def __init__(self, rs):
        self._rs = rs

    def ready(self):
        return all(r.ready() for r in self._rs)

    def successful(self):
        return all(r.successful() for r in self._rs)

    def wait(self, timeout=None):
        for r in self._rs:
            r.wait(timeout)

    def get(self, timeout=None):
        return [r.get(timeout) for r in self._rs]


class SimExecutor:
    """concurrent.futures.ProcessPoolExecutor on top of SimPool."""

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), max_tasks_per_child=None):
        self._pool = SimPool(max_workers, initializer, initargs)

    def submit(self, fn, *args, **kwargs):
        import concurrent.futures
        f = concurrent.futures.Future()
        f.set_running_or_notify_cancel()
        self._pool._submit(fn, args, kwargs, f.set_result, f.set_exception)
        return f

    def shutdown(self, wait=True, cancel_futures=False):
        self._pool.close()
        if wait:
            self._pool.join()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()


class SimContext:
    def __init__(self, real):
        self._real = real

    def Pool(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        return SimPool(processes, initializer, initargs, maxtasksperchild)

    def cpu_count(self):
        return sim_cpu_count()

    def __getattr__(self, n):
        return getattr(self._real, n)


def sim_datetime():
    real = datetime.datetime

    class Meta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, real)

    class SimDateTime(real, metaclass=Meta):
        __slots__ = ()

        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(sim_time(), tz)

        @classmethod
        def utcnow(cls):
            return cls.fromtimestamp(sim_time(), datetime.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.fromtimestamp(sim_time())
    SimDateTime.__name__ = SimDateTime.__qualname__ = "datetime"
    SimDateTime.__module__ = "datetime"
    return SimDateTime


def patch_datetime(mods):
    """The clock in C, for booktest only: C extensions need the real class"""
    import types
    sim = sim_datetime()
    module = types.ModuleType("datetime")
    module.__dict__.update({n: v for n, v in datetime.__dict__.items() if n[:2] != "__"}, datetime=sim)
    for m in mods:
        for n, v in list(m.__dict__.items()):
            if v is datetime:
                setattr(m, n, module)
            elif v is datetime.datetime:
                setattr(m, n, sim)


def on_sim_clock(real, given):
    """A function of the time module, that takes the present time unless it is given one (as argument number `given`)."""
    def f(*a):
        if K is not None and len(a) <= given or len(a) == given + 1 and a[given] is None:
            a = a[:given] + ((time.localtime() if given or real.__name__ == "asctime" else sim_time()),)
        return real(*a)
    f.__name__ = real.__name__
    return f


def install():
    import multiprocessing, multiprocessing.pool, multiprocessing.context, concurrent.futures, concurrent.futures.process
    import asyncio, asyncio.selector_events
    sys.addaudithook(audit)
    for n, f in (("time", sim_time), ("time_ns", sim_time_ns), ("monotonic", sim_mono), ("monotonic_ns", sim_mono_ns),
                 ("perf_counter", sim_perf), ("perf_counter_ns", sim_perf_ns), ("sleep", sim_sleep),
                 ("process_time", sim_process_time), ("thread_time", sim_process_time)):
        setattr(time, n, f)
    for n, given in (("localtime", 0), ("gmtime", 0), ("ctime", 0), ("asctime", 0), ("strftime", 1)):
        setattr(time, n, on_sim_clock(getattr(time, n), given))
    threading.Lock = threading._allocate_lock = SimLock
    threading.RLock = threading._CRLock = SimRLock
    threading._time = sim_mono
    threading._start_new_thread = sim_start_new_thread
    _thread.start_new_thread = sim_start_new_thread
    threading._set_sentinel = sim_set_sentinel
    queue.SimpleQueue = queue._PySimpleQueue
    queue.time = sim_mono
    logging._lock = SimRLock()
    for ref in list(logging._handlerList):
        h = ref()
        if h is not None and h.lock is not None:
            h.lock = SimRLock()
    selectors.DefaultSelector = SimSelector
    real_wts = asyncio.selector_events.BaseSelectorEventLoop._write_to_self

    def wts(self):
        real_wts(self)
        k = K
        if k is not None and k.active:
            t = getattr(self._selector, "_thr", None)
            if t is not None:
                k.wake(t)
    asyncio.selector_events.BaseSelectorEventLoop._write_to_self = wts
    builtins.open = io.open = sim_open
    os.listdir = sim_listdir
    os.scandir = sim_scandir
    os.system = sim_system
    subprocess.run, subprocess.call = sim_run, sim_call
    subprocess.check_call, subprocess.check_output = sim_check_call, sim_check_output
    shutil._use_fd_functions = False
    shutil._USE_CP_SENDFILE = False
    os.write = sim_write
    os.urandom = random._urandom = sim_urandom
    os.getpid = sim_getpid
    random.Random.seed = sim_seed
    builtins.input = sim_input
    os.cpu_count = sim_cpu_count
    multiprocessing.cpu_count = sim_cpu_count
    real_get_context = multiprocessing.get_context

    def get_context(method=None):
        return SimContext(real_get_context(method))
    multiprocessing.get_context = get_context
    multiprocessing.Pool = SimContext(None).Pool
    multiprocessing.pool.Pool = SimPool
    for c in (multiprocessing.context.BaseContext,):
        c.Pool = lambda self, *a, **kw: SimPool(*a, **kw)
    concurrent.futures.ProcessPoolExecutor = SimExecutor
    concurrent.futures.process.ProcessPoolExecutor = SimExecutor


def activate(sock, shm, logfd, proc, role, cfg):
    global K
    k = Kernel(sock, shm, logfd, proc, role, cfg)
    k.cwd = os.getcwd()
    k.watch = [w.encode() for w in cfg.get("watch", ())]
    random.seed(f"{k.dirseed}:{k.proc}")
    K = k
    if DUMP:           # stacks of a process that does not come back
        import faulthandler
        k._dump = real_open(DUMP, "a")
        faulthandler.dump_traceback_later(50, file=k._dump)
    return k
