"""The orchestrator: one simulated world per scenario.  Deterministic: everything that happens is a function of the
scenario and of the code under test."""
import os, sys, warnings, mmap, socket, marshal, pickle, random, signal, json, time, shutil, io, gc, errno, ctypes, resource, select
from . import guest, simrt
from .guest import RUN, BLOCK, DEAD, NOW, WALL, OPS, PROGRESS, STOP_AT, SEQ, ANSWER, RULE0, KIDX, KINDS, SLOTS, NEVER

warnings.filterwarnings("ignore", message=".*multi-threaded.*", category=DeprecationWarning)
UID = 65534
real_mono = guest.real_mono
libc = ctypes.CDLL(None, use_errno=True)
CPU_LIMIT = 12               # CPU seconds a simulated process may burn: a loop that never reaches a seam
WALL_LIMIT = 240             # harness error
IDLE_NS = 40_000_000_000     # simulated time without progress ...
IDLE_SWITCHES = 4000         # ... and this many scheduling steps: the world hangs
MAX_SWITCHES = 400_000


class HarnessError(Exception):
    pass


class Proc:
    def __init__(self, idx, pid, sock, role, pool=None):
        self.idx, self.pid, self.sock, self.role, self.pool = idx, pid, sock, role, pool
        self.threads = {}          # tid -> [state, deadline, key, excl]
        self.deliv = []
        self.job = None
        self.sig = False
        self.ready_at = 0
        self.idle = False
        self.prio = {}


class Pool:
    def __init__(self, pid_, n, init, env, path, cwd, owner):
        self.id, self.n, self.init, self.env, self.path, self.cwd, self.owner = pid_, n, init, env, path, cwd, owner
        self.queue = []
        self.workers = []
        self.closed = False
        self.terminated = False
        self.started = 0
        self.running = {}


class Result:
    """What one invocation did."""
    def __init__(self):
        self.events = []
        self.stdout = b""
        self.stderr = b""
        self.calls = []           # [kind, value] per call
        self.ended = None         # "exit" | "killed" | "hang" | "spin" | "died:<status>"
        self.hang = None
        self.ops = 0
        self.switches = 0
        self.decisions = []
        self.kinds = {}
        self.fired = []
        self.before = {}
        self.after = {}
        self.sim_ns = 0
        self.stopinfo = None
        self.lost_jobs = 0
        self.oplog = []


def tree(root):
    """relative path -> bytes, or None for a directory"""
    out = {}
    for d, ds, fs in os.walk(root):
        ds.sort()
        rel = os.path.relpath(d, root)
        if rel != ".":
            out[rel + "/"] = None
        for f in sorted(fs + [x for x in ds if os.path.islink(os.path.join(d, x))]):
            p = os.path.join(d, f)
            r = f if rel == "." else rel + "/" + f
            if os.path.islink(p):
                out[r] = b"@" + os.readlink(p).encode()
                continue
            try:
                with guest.real_open(p, "rb") as h:
                    out[r] = h.read()
            except OSError as e:
                out[r] = b"!" + str(e).encode()
    return out


class World:
    counter = 0

    def __init__(self, scenario, base="/dev/shm"):
        self.sc = scenario
        World.counter += 1
        self.root = os.path.join(base, f"simbt.{os.getpid():07d}.{World.counter:06d}")
        self.scratch = os.path.join(self.root, scenario.get("dir", "w"))
        self.meta = os.path.join(self.root, "meta")
        os.makedirs(self.scratch)
        os.makedirs(self.meta)
        self.drop = os.getuid() == 0
        os.chmod(self.root, 0o755)
        self.proc_counter = 0
        self.now0 = scenario.get("now0", 1_000_000_000)
        self.wall0 = scenario.get("wall0", 1_700_000_000_000_000_000)
        self.results = []

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)

    # -- the project's files ------------------------------------------------------------------------------------
    def write_files(self, files):
        for name, text in sorted(files.items()):
            p = os.path.join(self.scratch, name)
            if text is None:
                if os.path.isdir(p):
                    shutil.rmtree(p)
                elif os.path.lexists(p):
                    os.remove(p)
                continue
            if name.endswith("/"):
                os.makedirs(p, exist_ok=True)
                continue
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if isinstance(text, list):             # ["link", target]
                os.symlink(text[1].replace("{scratch}", self.scratch), p)
                continue
            if os.path.isdir(p):
                shutil.rmtree(p)
            with guest.real_open(p, "wb") as f:
                f.write(text if isinstance(text, bytes) else text.encode("utf-8", "surrogateescape"))
        if self.drop:
            for d, ds, fs in os.walk(self.scratch):
                os.chown(d, UID, UID)
                for x in fs:
                    os.chown(os.path.join(d, x), UID, UID, follow_symlinks=False)

    def legacy(self):
        """Turns the stored snapshots of HTTP requests into the older format of one file per request."""
        for d, ds, fs in sorted(os.walk(os.path.join(self.scratch, "books"))):
            if "/.out" in d:
                continue
            for n in (".requests", ".httpx"):
                p = os.path.join(d, n + ".json")
                if os.path.exists(p):
                    with guest.real_open(p) as f:
                        j = json.load(f)
                    os.remove(p)
                    rel = os.path.relpath(os.path.join(d, n), self.scratch)
                    self.write_files({f"{rel}/{h}.json": json.dumps(v, indent=4) for h, v in j.items()})

    # -- one invocation -------------------------------------------------------------------------------------------
    def run(self, item):
        self.write_files(item.get("files", {}))
        if item.get("legacy"):
            self.legacy()
        r = Result()
        r.before = tree(self.scratch)
        inst = Run(self, item, r)
        inst.go()
        r.after = tree(self.scratch)
        self.results.append(r)
        return r


class Run:
    def __init__(self, world, item, r):
        self.w, self.item, self.r = world, item, r
        self.mm = mmap.mmap(-1, SLOTS * 8)
        self.shm = memoryview(self.mm).cast("q")
        sh = self.shm
        sh[NOW] = world.now0
        sh[WALL] = world.wall0 - world.now0
        n = world.proc_counter
        self.logpath = os.path.join(world.meta, f"log{n}")
        self.outpath = os.path.join(world.meta, f"out{n}")
        self.errpath = os.path.join(world.meta, f"err{n}")
        self.logfd = os.open(self.logpath, os.O_RDWR | os.O_CREAT | os.O_APPEND, 0o666)
        self.outfd = os.open(self.outpath, os.O_RDWR | os.O_CREAT | os.O_APPEND, 0o666)
        self.errfd = os.open(self.errpath, os.O_RDWR | os.O_CREAT | os.O_APPEND, 0o666)
        self.procs = []
        self.pools = {}
        self.timers = []           # (time, seq, fn)
        self.tseq = 0
        self.stops = sorted(item.get("stops", []), key=lambda s: s.get("at", 0))
        sched = item.get("sched") or {}
        self.decisions = list(sched.get("decisions") or [])
        self.replay = sched.get("decisions") is not None
        self.rng = random.Random(f"sched:{sched.get('seed', 0)}")
        self.policy = sched.get("policy", "random")
        self.mean = sched.get("mean", 8)
        self.stallp = sched.get("stall", 0.02)
        self.linemean = sched.get("linemean", 60)
        self.prios = {}
        self.change = sched.get("change", 0.02)
        self.drng = random.Random(f"delay:{item.get('delayseed', 0)}")
        self.killed_main = False
        self.cfg = {k: v for k, v in item.items() if k not in ("files",)}
        self.cfg["scratch"] = world.scratch
        self.done = False
        self.main_exit = None
        self.start_wall = real_mono()
        self.keylog = item.get("oplog", False)
        self.sig_pending = None
        self.last_prog = -1
        self.last_prog_now = 0
        self.last_prog_sw = 0
        self.stop_fired = False

    def timer(self, at, fn):
        self.tseq += 1
        self.timers.append((at, self.tseq, fn))
        self.timers.sort(key=lambda t: t[:2])

    # -- processes ------------------------------------------------------------------------------------------------
    def fork(self, role, pool=None):
        a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        for s in (a, b):
            s.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 4 << 20)
        idx = len(self.procs)
        pid = FORKER.fork(born, self, a, b, idx, role, pool)
        b.close()
        p = Proc(idx, pid, a, role, pool)
        self.procs.append(p)
        p.threads[0] = [RUN, -1, None, False]
        self.w.proc_counter += 1
        return p

    def log(self, etype, *data):
        self.shm[SEQ] += 1
        os.write(self.logfd, (json.dumps([self.shm[SEQ], self.shm[NOW], -1, 0, etype, *data]) + "\n").encode())

    def kill(self, p):
        if p.sock is None:
            return
        try:
            os.kill(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(p.pid, 0)
        p.sock.close()
        p.sock = None

    def dead(self, p):
        """The process went away by itself: its wait status."""
        _, st = os.waitpid(p.pid, 0)
        p.sock.close()
        p.sock = None
        return st

    # -- main loop ----------------------------------------------------------------------------------------------------
    def go(self):
        r, shm = self.r, self.shm
        gc.collect()
        try:
            main = self.fork("main")
            self.main = main
            self.arm_stop()
            for t in self.item.get("wallsteps", []):
                self.timer(shm[NOW] + t[0], ("wall", t[1]))
            for s in self.stops:
                if "time" in s:
                    self.timer(shm[NOW] + s["time"], ("stop", s))
            self.loop()
        finally:
            for p in self.procs:
                self.kill(p)
            r.ops = shm[OPS]
            r.sim_ns = shm[NOW] - self.w.now0
            r.kinds = {k: shm[KIDX[k]] for k in KINDS if shm[KIDX[k]]}
            r.fired = [shm[RULE0 + 2 * i + 1] for i in range(len(self.item.get("rules", [])))]
            self.w.now0 = shm[NOW] + 5_000_000_000
            self.w.wall0 = shm[NOW] + shm[WALL] + 5_000_000_000
            for fd in (self.logfd, self.outfd, self.errfd):
                os.close(fd)
            with guest.real_open(self.logpath, "r", errors="surrogatepass") as f:
                for line in f:
                    try:
                        r.events.append(json.loads(line))
                    except ValueError:
                        pass
            with guest.real_open(self.outpath, "rb") as f:
                r.stdout = f.read()
            with guest.real_open(self.errpath, "rb") as f:
                r.stderr = f.read()
            for x in (self.logpath, self.outpath, self.errpath):
                os.remove(x)
            self.shm.release()
            self.mm.close()
        if b"HARNESS " in r.stderr:
            raise HarnessError(r.stderr.decode("utf-8", "replace")[-3000:])
        for e in r.events:
            if e[4] == "call_end":
                r.calls.append(e[5:])

    def arm_stop(self):
        self.shm[STOP_AT] = -1
        for s in self.stops:
            if "at" in s and not s.get("_done") and s["at"] > self.shm[OPS]:
                self.shm[STOP_AT] = s["at"]
                self.armed = s
                return
        self.armed = None

    def candidates(self):
        out = []
        for p in self.procs:
            if p.sock is None or p.idle or p.ready_at > self.shm[NOW]:
                continue
            ex = [t for t, s in p.threads.items() if s[0] == RUN and s[3]]
            if ex:
                out.append((p, ex[0]))
            else:
                for t in sorted(p.threads):
                    if p.threads[t][0] == RUN:
                        out.append((p, t))
        return out

    def next_deadline(self, stops=True):
        best = None
        for p in self.procs:
            if p.sock is None or p.idle:
                continue
            if p.ready_at > self.shm[NOW]:
                if best is None or p.ready_at < best:
                    best = p.ready_at
                continue
            for s in p.threads.values():
                if s[0] == BLOCK and s[1] >= 0 and (best is None or s[1] < best):
                    best = s[1]
        timers = self.timers if stops else [t for t in self.timers if t[2][0] != "stop"]
        if timers and (best is None or timers[0][0] < best):
            best = timers[0][0]
        return best

    def fire_due(self):
        now = self.shm[NOW]
        while self.timers and self.timers[0][0] <= now:
            _, _, fn = self.timers.pop(0)
            self.fire(fn)
        for p in self.procs:
            if p.sock is None:
                continue
            for s in p.threads.values():
                if s[0] == BLOCK and 0 <= s[1] <= now:
                    s[0] = RUN

    def fire(self, fn):
        kind = fn[0]
        if kind == "deliver":
            _, pool, job, ok, data = fn
            o = pool.owner
            if o.sock is not None:
                o.deliv.append(("result", pool.id, job, ok, data))
                for s in o.threads.values():
                    if s[0] == BLOCK and s[2] == "pool":
                        s[0] = RUN
        elif kind == "respawn":
            pool = fn[1]
            if not pool.terminated and pool.owner.sock is not None and not (pool.closed and not pool.queue
                                                                           and not pool.running):
                self.spawn_worker(pool)
        elif kind == "wall":
            self.shm[WALL] = min(max(self.shm[WALL] + fn[1], -1 << 61), 1 << 62)
            self.log("clock", fn[1] / 1e9)
        elif kind == "stop":
            if not fn[1].get("_done"):
                self.do_stop(fn[1], None, None)

    def spawn_worker(self, pool):
        p = self.fork("worker", pool)
        pool.started += 1
        p.ready_at = self.shm[NOW] + int(self.delay("start"))
        pool.workers.append(p)

    def delay(self, kind):
        lo, hi = {"start": (20e6, 900e6), "deliver": (50e3, 4e6), "respawn": (10e6, 110e6)}[kind]
        if self.item.get("fast"):
            return lo
        return lo + (hi - lo) * self.drng.random() ** 3

    def choose(self, cands):
        """Index of the candidate to run (len(cands) = let time pass first), and its quantum."""
        n = len(cands)
        if self.decisions:
            i, q, lq = self.decisions.pop(0)
            if i > n:
                i = i % n
        elif self.replay:
            i, q, lq = 0, 64, NEVER
        else:
            rng = self.rng
            if n and rng.random() < self.stallp and self.next_deadline(False) is not None:
                i = n
            elif n == 1:
                i = 0
            elif self.policy == "prio":
                best = None
                for j, (p, t) in enumerate(cands):
                    k = (p.idx, t)
                    if k not in self.prios:
                        self.prios[k] = rng.random()
                    if best is None or self.prios[k] > self.prios[(cands[best][0].idx, cands[best][1])]:
                        best = j
                i = best
                if rng.random() < self.change:
                    self.prios[(cands[best][0].idx, cands[best][1])] = rng.random() * 0.5
            else:
                i = rng.randrange(n)
            q = 1 + int(rng.expovariate(1.0 / self.mean)) if self.mean > 1 else 1
            lq = 1 + int(rng.expovariate(1.0 / self.linemean)) if self.item.get("lines") else NEVER
        return i, q, lq

    def loop(self):
        shm, r = self.shm, self.r
        while True:
            r.switches += 1
            if shm[PROGRESS] != self.last_prog:
                self.last_prog = shm[PROGRESS]
                self.last_prog_now = shm[NOW]
                self.last_prog_sw = r.switches
            elif (shm[NOW] - self.last_prog_now > IDLE_NS and r.switches - self.last_prog_sw > IDLE_SWITCHES) \
                    or shm[NOW] - self.last_prog_now > 10_000_000_000_000_000:
                r.ended, r.hang = "hang", "no progress: " + self.describe()
                return
            if r.switches > MAX_SWITCHES:
                r.ended, r.hang = "hang", "step limit: " + self.describe()
                return
            self.fire_due()
            if self.main.sock is None and not self.alive():
                return
            cands = self.candidates()
            urgent = [c for c in cands if c[0].sig and c[1] == 0]
            if urgent:
                self.grant(urgent[0][0], 0, 1, NEVER)
                if self.done:
                    return
                continue
            if not cands:
                d = self.next_deadline()
                if d is None:
                    r.ended, r.hang = "hang", "deadlock: " + self.describe()
                    return
                shm[NOW] = max(shm[NOW], d)
                continue
            i, q, lq = self.choose(cands)
            if not self.replay or self.item.get("record"):
                r.decisions.append((i, q, lq))
            if i == len(cands):
                d = self.next_deadline()
                if d is not None:
                    shm[NOW] = max(shm[NOW], d)
                    continue
                i = 0
            self.grant(cands[i][0], cands[i][1], q, lq)
            if self.done:
                return
            if real_mono() - self.start_wall > WALL_LIMIT:
                raise HarnessError("wall limit: " + self.describe())

    def alive(self):
        """Workers that outlive a killed main process finish their current job, as orphans."""
        if self.main_exit is not None:
            return False
        return any(p.sock is not None and p.job is not None for p in self.procs)

    def describe(self):
        return "; ".join(f"p{p.idx} {p.role} job={p.job} " + ",".join(
            f"t{t}:{'run blocked dead'.split()[s[0]]}" + (f"@{s[2]}" if s[2] else "") for t, s in p.threads.items())
            for p in self.procs if p.sock is not None)[:600]

    def grant(self, p, tid, q, lq, fault=None):
        sig = 0
        if p.sig and tid == 0:
            p.sig = False
            sig = 1
        d, p.deliv = p.deliv, []
        st = p.threads[tid]
        st[0], st[1], st[2], st[3] = RUN, -1, None, False
        try:
            p.sock.send(marshal.dumps((tid, q, lq, d, sig, fault)))
        except (BrokenPipeError, ConnectionResetError):
            return self.gone(p)
        # wait for the process to park again
        while True:
            rl, _, _ = select.select([p.sock], [], [], 100)
            if rl:
                break
            raise HarnessError("a process does not come back: " + self.describe())
        try:
            m = p.sock.recv(1 << 22)
        except ConnectionResetError:
            m = b""
        if not m:
            return self.gone(p)
        cur, upd, effects, stop = marshal.loads(m)
        for (t, state, deadline, key, excl) in upd:
            p.threads[t] = [state, deadline, key, excl]
        for t in [t for t, s in p.threads.items() if s[0] == DEAD]:
            del p.threads[t]
        for e in effects:
            self.effect(p, e)
            if self.done:
                return
        if stop is not None:
            if stop[0] == "torn":
                return self.crash_after_torn(p)
            self.stop_at(p, cur, stop)

    def gone(self, p):
        st = self.dead(p)
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGXCPU, signal.SIGKILL):
            self.r.ended, self.r.hang = "spin", f"process {p.idx} ({p.role}) burns CPU without reaching a seam"
            self.done = True
            return
        code = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)
        if code in (97, 98):
            raise HarnessError(f"guest {p.idx} exit {code}: " + os.pread(self.errfd, 4000, 0).decode("utf-8", "replace"))
        if p.role == "main":
            if code == 96:
                return
            self.r.ended = f"died:{code}"
            self.done = True
        else:
            self.worker_died(p)

    def worker_died(self, p, killed=False):
        pool = p.pool
        self.log("worker_died", p.idx, p.job)
        if p.job is not None:
            self.r.lost_jobs += 1
            pool.running.pop(p.job, None)
            p.job = None
        if p in pool.workers:
            pool.workers.remove(p)
        if not pool.terminated and pool.owner.sock is not None:
            self.timer(self.shm[NOW] + int(self.delay("respawn")), ("respawn", pool))

    # -- effects of guests -----------------------------------------------------------------------------------------
    def effect(self, p, e):
        kind = e[0]
        if kind == "pool":
            _, pid_, n, init, env, path, cwd = e
            pool = Pool(pid_, n, init, env, path, cwd, p)
            self.pools[pid_] = pool
            for _ in range(n):
                self.spawn_worker(pool)
        elif kind == "submit":
            pool = self.pools[e[1]]
            pool.queue.append((e[2], e[3]))
            self.assign(pool)
        elif kind == "ready":
            if p.pool.owner.sock is None or p.pool.terminated or (p.pool.closed and not p.pool.queue):
                if p.pool.owner.sock is None or p.pool.terminated:
                    self.kill(p)
                    return
            p.idle = True
            self.assign(p.pool)
        elif kind == "result":
            _, job, ok, data = e
            pool = p.pool
            p.job = None
            pool.running.pop(job, None)
            self.shm[PROGRESS] += 1
            self.timer(self.shm[NOW] + int(self.delay("deliver")), ("deliver", pool, job, ok, data))
        elif kind == "close":
            self.pools[e[1]].closed = True
        elif kind == "terminate":
            pool = self.pools[e[1]]
            pool.terminated = True
            pool.queue.clear()
            for w in list(pool.workers):
                self.kill(w)
                if w.job is not None:
                    self.log("terminated_job", w.idx)
                w.job = None
            pool.workers.clear()
        elif kind == "joined":
            pool = self.pools[e[1]]
            for w in list(pool.workers):
                self.kill(w)
                w.job = None
            pool.workers.clear()
            pool.terminated = True
        elif kind == "exit":
            self.main_exit = e[1]
            self.r.ended = "exit"
            self.done = True
        elif kind == "workerexit":
            pass
        else:
            raise HarnessError(f"effect {kind}")

    def assign(self, pool):
        if pool.owner.sock is None:
            return
        for w in pool.workers:
            if not pool.queue:
                return
            if w.idle and w.sock is not None:
                job, data = pool.queue.pop(0)
                w.job = job
                pool.running[job] = w
                w.idle = False
                w.deliv.append(("job", job, data))
                w.threads[0] = [RUN, -1, None, False]

    # -- stops: kills and Ctrl-C -----------------------------------------------------------------------------------
    def stop_at(self, p, tid, info):
        s = self.armed
        if s is None:
            return
        s["_done"] = True
        self.arm_stop()
        self.do_stop(s, p, info)

    def do_stop(self, s, p, info):
        s["_done"] = True
        kind = s["kind"]
        self.stop_fired = True
        self.r.stopinfo = [kind, self.shm[OPS], self.shm[NOW], list(info) if info else None, self.shm[SEQ],
                           p.idx if p is not None else None]
        self.log("stop", kind, self.shm[OPS], list(info) if info else None)
        if kind == "torn":
            if info is not None and info[0] == "write" and (info[2] or 0) >= 1:
                self.torn_kind = s
                self.grant_torn(p, s.get("frac", 0.5))
                return
            kind = "kill"
        if kind == "kill":
            for q in self.procs:
                self.kill(q)
            self.r.ended = "killed"
            self.done = True
        elif kind == "killmain":
            self.kill(self.main)
            self.r.ended = "killed"
            for q in self.procs:
                if q.sock is not None and q.job is None:
                    self.kill(q)
        elif kind in ("sigint", "sigint_main"):
            m = self.main
            if m.sock is not None:
                m.sig = True
                if m.threads[0][0] == BLOCK:
                    m.threads[0][0] = RUN
            if kind == "sigint":
                for q in list(self.procs):
                    if q.role == "worker" and q.sock is not None:
                        if q.idle or q.ready_at > self.shm[NOW] or q.job is None:
                            self.kill(q)
                            self.worker_died(q)
                        else:
                            q.sig = True
                            if q.threads[0][0] == BLOCK:
                                q.threads[0][0] = RUN
        elif kind == "killworker":
            ws = [q for q in self.procs if q.role == "worker" and q.sock is not None and q.job is not None]
            if ws:
                q = ws[s.get("who", 0) % len(ws)]
                self.kill(q)
                self.worker_died(q)
        else:
            raise HarnessError("stop " + kind)

    def grant_torn(self, p, frac):
        tid = [t for t, s in p.threads.items() if s[0] == RUN and s[3]]
        self.grant(p, tid[0] if tid else 0, 1, NEVER, ("TORN", frac))

    def crash_after_torn(self, p):
        for q in self.procs:
            self.kill(q)
        self.r.ended = "killed"
        self.done = True


class Forker:
    """All simulated processes are forked by one thread, so that their call stacks start at the same place."""
    def __init__(self):
        self.pid = None

    def fork(self, *job):
        if self.pid != os.getpid():
            self.pid = os.getpid()
            self.go, self.back = guest.raw_lock(), guest.raw_lock()
            self.go.acquire()
            self.back.acquire()
            guest.real_start(self.loop, ())
        self.job = job
        self.go.release()
        self.back.acquire()
        if self.child is None:
            raise HarnessError("fork failed")
        return self.child

    def loop(self):
        while True:
            self.go.acquire()
            f, *args = self.job
            self.child = None
            try:
                pid = os.fork()
            except OSError:
                self.back.release()
                continue
            if pid == 0:
                f(*args)
                os._exit(0)
            self.child = pid
            self.back.release()


FORKER = Forker()


def born(run, a, b, idx, role, pool):
    try:
        a.close()
        for p in run.procs:
            if p.sock is not None:
                p.sock.close()
        child(run, b, idx, role, pool)
    except BaseException:
        import traceback
        try:
            os.write(run.errfd, ("HARNESS " + traceback.format_exc()).encode())
        except BaseException:
            pass
        os._exit(98)


# ---- simulated processes ---------------------------------------------------------------------------------------------------
def child(run, sock, idx, role, pool):
    w, item = run.w, run.item
    gc.disable()
    os.dup2(run.outfd, 1)
    os.dup2(run.errfd, 2)
    devnull = os.open("/dev/null", os.O_RDONLY)
    os.dup2(devnull, 0)
    os.close(devnull)
    resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 2))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))
    if w.drop:
        os.setgroups([])
        os.setgid(UID)
        os.setuid(UID)
    libc.prctl(1, signal.SIGKILL)
    os.umask(0o022)
    os.chdir(w.scratch)
    sys.dont_write_bytecode = True
    env = pool.env if pool is not None else dict(
        {"PATH": "/usr/bin:/bin", "HOME": w.scratch + "/home", "LANG": "C.UTF-8"}, **item.get("env", {}))
    os.environ.clear()
    os.environ.update(env)
    signal.signal(signal.SIGINT, signal.default_int_handler)
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    sys.stdin = guest.real_open(0, "r", closefd=False)
    sys.stdout = io.TextIOWrapper(io.BufferedWriter(io.FileIO(1, "w", closefd=False)), "utf-8", "backslashreplace")
    sys.stderr = io.TextIOWrapper(io.BufferedWriter(io.FileIO(2, "w", closefd=False)), "utf-8", "backslashreplace",
                                  line_buffering=True)
    sys.__stdout__, sys.__stderr__ = sys.stdout, sys.stderr
    import importlib, logging
    importlib.invalidate_caches()
    k = guest.activate(sock, run.shm, run.logfd, idx, role, run.cfg)
    simrt.CFG = run.cfg
    # wait for the first grant
    k.left = 0
    k.active = True
    g = sock.recv(1 << 22)
    if not g:
        os._exit(97)
    tid, k.left, k.lleft, deliv, sig, fault = marshal.loads(g)
    for d in deliv:
        k.deliver(d)
    k.start_sig = sig
    for h in item.get("handlers", []):
        lh = logging.StreamHandler(sys.stderr)
        lh.setFormatter(logging.Formatter(h))
        logging.getLogger().addHandler(lh)
    if role == "main":
        main_process(k, run)
    else:
        worker_process(k, run, pool)


def flush():
    for s in (sys.stdout, sys.stderr):
        try:
            s.flush()
        except Exception:
            pass


def main_process(k, run):
    import threading, traceback
    item = run.item
    code = 0
    simrt.remember()
    state = {}
    for i, call in enumerate(item["calls"]):
        orig_out, orig_err = sys.stdout, sys.stderr
        k.log("call_begin", i, simrt.fingerprint() if item.get("fp") else None)
        try:
            if k.start_sig:
                k.start_sig = None
                signal.raise_signal(signal.SIGINT)
            for name, value in (call.get("setenv") or {}).items():
                if value is None:
                    os.environ.pop(name, None)
                else:
                    os.environ[name] = value
            rv = do_call(call, state)
            how, val = "return", rv if rv is None or isinstance(rv, (int, str)) else repr(rv)
        except SystemExit as e:
            how, val = "exit", e.code if e.code is None or isinstance(e.code, int) else str(e.code)
        except KeyboardInterrupt:
            how, val = "raise", "KeyboardInterrupt"
            if os.environ.get("SIM_TB"):
                os.write(2, traceback.format_exc().encode())
        except BaseException as e:
            how, val = "raise", type(e).__name__
            os.write(2, ("UNCAUGHT " + traceback.format_exc()).encode())
        fp = None
        if item.get("fp"):
            fp = simrt.fingerprint()
        try:
            sys.stdout.flush()
        except Exception:
            pass
        if i + 1 == len(item["calls"]):
            signal.signal(signal.SIGINT, signal.SIG_IGN)
        k.quiet += 1
        k.log("call_end", i, how, val, fp, os.fstat(1).st_size)
        k.quiet -= 1
    # what the interpreter does at the end
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    for t in list(threading.enumerate()):
        if t is not threading.main_thread() and not t.daemon:
            t.join()
    gc.collect()
    flush()
    k.effects.append(("exit", code))
    k.left = 0
    k.yield_()
    os._exit(0)


def do_call(call, state):
    import booktest as bt
    api = call.get("api", "cli")
    if api == "cli":
        import booktest.cli
        return booktest.cli.main(list(call["argv"]))
    if api in ("exec", "execrepeat"):
        # programmatic use: the suite is detected once per process and kept
        from booktest.detection import include_sys_path
        if "suite" not in state:
            include_sys_path()
            state["suite"] = bt.detect_test_suite("simbook")
        cache = state.get(call.get("cache", "none"))
        kind = call.get("cache", "none")
        if kind not in state:
            from booktest.cache import LruCache, NoCache
            state[kind] = {"none": None, "dict": {}, "lru1": LruCache(1), "lru2": LruCache(2), "lru8": LruCache(8),
                           "nocache": NoCache()}[kind]
            cache = state[kind]
        return state["suite"].exec(call.get("root", "books"), list(call["argv"]), cache)
    raise KeyError(api)


def worker_process(k, run, pool):
    sys.path[:] = pool.path
    os.chdir(pool.cwd)
    k.cwd = os.getcwd()
    simrt.remember()
    f, args = pickle.loads(pool.init)
    k.log("worker", "start")
    try:
        if k.start_sig:
            signal.raise_signal(signal.SIGINT)
        if f is not None:
            f(*args)
        while True:
            k.effects.append(("ready",))
            k.left = 0
            jobs = k.deliveries.setdefault("job", [])
            while not jobs:
                k.block(-1, "jobs")
            job, data = jobs.pop(0)
            k.log("job", job, simrt.fingerprint() if run.item.get("fp") else None)
            fn, args, kwds = pickle.loads(data)
            try:
                ok, val = True, fn(*args, **kwds)
            except Exception as e:
                import traceback
                os.write(2, ("WORKER " + traceback.format_exc()).encode())
                ok, val = False, e
            try:
                out = pickle.dumps(val)
                if not ok:
                    pickle.loads(out)
            except Exception as e:
                import multiprocessing.pool
                ok, out = False, pickle.dumps(multiprocessing.pool.MaybeEncodingError(e, repr(val)[:200]))
            k.log("jobend", job, simrt.fingerprint() if run.item.get("fp") else None)
            flush()
            k.effects.append(("result", job, ok, out))
    except BaseException as e:
        import traceback
        os.write(2, ("WORKERDEATH " + traceback.format_exc()).encode())
        k.log("worker", "death", type(e).__name__)
        flush()
        os._exit(1)
