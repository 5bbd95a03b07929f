"""Runs inside simulated processes: interprets the scripted test bodies and records ground truth."""
import sys, os, io, signal, json, time, logging, asyncio, threading, hashlib, copy
from . import guest

CFG = None            # item configuration of this simulated process ("spec": case -> steps, ...)


class Opaque:
    """A result that cannot be stored."""
    def __reduce__(self):
        raise TypeError("cannot pickle 'Opaque' object")


class SimError(Exception):
    pass


class Val:
    """A result with its own class."""
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return type(o) is Val and o.v == self.v

    def __repr__(self):
        return f"Val({self.v!r})"


def make_value(spec, case, execno):
    k = spec[0]
    if k == "json":
        return copy.deepcopy(spec[1])
    if k == "token":                     # unique per execution
        return f"{case}#{execno}"
    if k == "static":
        return f"{case}={spec[1]}"
    if k == "none":
        return None
    if k == "val":
        return Val(spec[1])
    if k == "opaque":
        return Opaque()
    if k == "opaque_in":
        return ["x" * 20000, Opaque()]
    if k == "big":
        return [f"{case}#{execno}", "y" * spec[1]]
    raise KeyError(k)


class BadError(Exception):
    def __str__(self):
        raise RuntimeError("no message")


def raise_kind(kind, msg):
    if kind == "value":
        raise ValueError(msg)
    if kind == "custom":
        raise SimError(msg)
    if kind == "badstr":
        raise BadError(msg)
    if kind == "oddmsg":
        raise ValueError(msg + "\r\n\tof \udcff and \x00\n\n * lines \n")
    if kind == "os":
        raise OSError(5, msg)
    if kind == "exit":
        sys.exit(3)
    if kind == "exit0":
        sys.exit(0)
    if kind == "cancel":
        raise asyncio.CancelledError(msg)
    if kind == "kbd":
        raise KeyboardInterrupt()
    if kind == "genexit":
        raise GeneratorExit()
    if kind == "base":
        raise BaseException(msg)
    if kind == "assert":
        assert False, msg
    if kind == "osexit":
        os._exit(9)
    raise RuntimeError(msg)


def fingerprint():
    """What the process looks like from outside a test."""
    import requests, httpx
    from . import simnet
    lg = logging.getLogger()
    se = sys.stderr
    fp = {
        "stderr": "orig" if se is ORIG.get("stderr") else ("none" if se is None else
                  "closed" if getattr(se, "closed", False) else "other:" + str(getattr(se, "name", ""))),
        "stdout": sys.stdout is ORIG.get("stdout"),
        "handlers": [describe_handler(h) for h in lg.handlers],
        "level": lg.level,
        "send": requests.Session.send is ORIG.get("send"),
        "get_adapter": requests.Session.get_adapter is ORIG.get("get_adapter"),
        "httpx": httpx.HTTPTransport.handle_request is ORIG.get("hr"),
        "ahttpx": httpx.AsyncHTTPTransport.handle_async_request is ORIG.get("ahr"),
        "sigint": signal.getsignal(signal.SIGINT) == ORIG.get("sigint"),
        "sessions": simnet.clients_state(),
        "env": {k: v for k, v in os.environ.items() if k.startswith("SIM_")},
        "cwd": os.getcwd() == guest.K.scratch,
    }
    lib = sys.modules.get("simlib")
    if lib is not None:
        fp["fns"] = lib.state()
    return fp


ORIG = {}
HANDLERS = []


def describe_handler(h):
    for i, x in enumerate(HANDLERS):
        if x is h:
            return i
    if type(h) is logging.StreamHandler and h.stream is ORIG.get("stderr"):
        return "stderr"
    return "other"


def remember():
    import requests, httpx
    ORIG.update(sigint=signal.getsignal(signal.SIGINT), stderr=sys.stderr, stdout=sys.stdout, send=requests.Session.send,
                get_adapter=requests.Session.get_adapter, hr=httpx.HTTPTransport.handle_request,
                ahr=httpx.AsyncHTTPTransport.handle_async_request)
    HANDLERS[:] = logging.getLogger().handlers


def log(*a):
    guest.K.log(*a)


def show(v):
    return repr(v)


class Ctx:
    def __init__(self, case, t, deps, execno):
        self.case, self.t, self.deps, self.execno = case, t, deps, execno
        self.ret = None
        self.last = None


def steps_of(case):
    spec = CFG["spec"]
    s = spec.get(case)
    if s is None:
        return [["t", "unscripted " + case]]
    return s


def begin(case, t, deps):
    k = guest.K
    k.op("mark")
    k.progress()
    execno = k.shm[guest.SEQ] + 1
    log("start", case, execno, [show(d) for d in deps], fingerprint() if CFG.get("fp") else None)
    return Ctx(case, t, deps, execno)


def finish(c, how, detail=None):
    k = guest.K
    k.progress()
    log("end", c.case, c.execno, how, detail)
    if how == "return":
        k.op("mark")


def body(case, t, deps):
    c = begin(case, t, deps)
    try:
        for s in steps_of(case):
            step(c, s)
    except BaseException as e:
        finish(c, "raise", type(e).__name__)
        raise
    finish(c, "return", show(c.ret) if not isinstance(c.ret, Opaque) else "opaque")
    return c.ret


async def abody(case, t, deps):
    c = begin(case, t, deps)
    try:
        for s in steps_of(case):
            await astep(c, s)
    except BaseException as e:
        finish(c, "raise", type(e).__name__)
        raise
    finish(c, "return", show(c.ret) if not isinstance(c.ret, Opaque) else "opaque")
    return c.ret


async def astep(c, s):
    op = s[0]
    if op == "asleep":
        await asyncio.sleep(s[1])
    elif op == "gather":
        async def one(steps):
            for x in steps:
                await astep(c, x)
        tasks = [asyncio.ensure_future(one(x)) for x in s[1]]
        try:
            await asyncio.gather(*tasks)
        except BaseException:                # a test that leaves tasks running disturbs the following tests itself
            for x in tasks:
                x.cancel()
            await asyncio.gather(*tasks, return_exceptions=True)
            raise
    elif op == "aget":
        from . import simnet
        await simnet.aclient_step(c, s)
    elif op == "acall":
        lib = sys.modules["simlib"]
        await call_step(c, s, lib)
    elif op == "atimeout":
        async def one():
            for x in s[2]:
                await astep(c, x)
        try:
            await asyncio.wait_for(one(), s[1])
            log("obs", c.case, "atimeout", "done")
        except asyncio.TimeoutError:
            log("obs", c.case, "atimeout", "timeout")
            for x in (s[3] if len(s) > 3 else []):
                await astep(c, x)
    else:
        step(c, s)


async def call_step(c, s, lib):
    f = lib
    for part in s[1].split("."):
        f = getattr(f, part)
    r = f(*copy.deepcopy(s[2]), **copy.deepcopy(s[3]))
    if asyncio.iscoroutine(r):
        r = await r
    observe_call(c, s, r)


def observe_call(c, s, r):
    log("obs", c.case, "call", s[1], json.dumps([s[2], s[3]], sort_keys=True, default=repr), json.dumps(r, sort_keys=True, default=repr))
    if len(s) > 4 and s[4] == "print":
        c.t.tln(json.dumps(r, sort_keys=True))
    if len(s) > 4 and s[4] == "mutate":
        mutate(r)


def mutate(r):
    if isinstance(r, (dict, list)):
        for x in list(r.values() if isinstance(r, dict) else r):
            mutate(x)
    if isinstance(r, dict):
        r["mutated"] = True
    elif isinstance(r, list):
        r.append("mutated")


def write_calls(c, calls):
    """The writing API of a test case, call by call"""
    t = c.t
    for w in calls:
        op, a = w[0], w[1:]
        if op == "in":
            t.iln(f"{a[0]} <{c.case}#{c.execno}.o>")
        elif op in ("t", "i", "tln", "iln", "h1", "h2", "h3", "h", "anchor", "anchorln", "keyvalueln", "tlist", "tset", "tformat",
                    "ttable"):
            getattr(t, op)(*copy.deepcopy(a))
        elif op == "assertln":
            t.t(a[0]).assertln(*a[1:])
        elif op == "must":
            it = t.it(a[0], a[1])
            if a[2] == "contain":
                it.must_contain(a[3])
            elif a[2] == "equal":
                it.must_equal(a[3])
            else:
                it.must_be_a({"list": list, "str": str, "int": int, "dict": dict}[a[3]])
        elif op == "chain":
            t.t(a[0]).i(a[1]).tln(a[2])
        else:
            raise KeyError(op)


def step(c, s):
    t = c.t
    op = s[0]
    if op == "t":
        t.tln(s[1])
    elif op == "i":
        t.iln(s[1])
    elif op == "uniq":
        t.iln(f"{s[1]} {c.execno}")
    elif op == "h":
        t.h1(s[1])
    elif op == "assert":
        t.t("check ").assertln(s[1])
    elif op == "fail":
        t.fail().tln("failed line")
    elif op == "sleep":
        time.sleep(s[1])
    elif op == "asleep":
        time.sleep(s[1])
    elif op == "spin":                       # burns simulated time without yielding
        guest.K.shm[guest.NOW] += int(s[1] * 1e9)
        guest.K.cpu += int(s[1] * 1e9)
    elif op == "log":
        logging.getLogger(s[1] or None).warning(s[2])
    elif op == "logx":
        logging.getLogger().warning(f"{s[1]} {c.execno}")
    elif op == "w":
        write_calls(c, s[1])
    elif op == "lg":                         # tagged logging: ["lg", tag, logger, level, message]
        logging.getLogger(s[2] or None).log(getattr(logging, s[3]), "%s %s", f"<{c.case}#{c.execno}.{s[1]}>", s[4])
    elif op == "se":                         # tagged standard error: ["se", tag, message, how]
        text = f"<{c.case}#{c.execno}.{s[1]}> {s[2]}"
        if s[3] == "write":
            sys.stderr.write(text + "\n")
        elif s[3] == "lines":
            sys.stderr.writelines([text, "\n"])
        elif s[3] == "parts":
            print(text, end="", file=sys.stderr)
            print("", file=sys.stderr, flush=True)
        elif s[3] == "warn":
            import warnings
            warnings.warn_explicit(text, UserWarning, "case.py", 1, registry={})
        else:
            print(text, file=sys.stderr)
    elif op == "err":
        print(s[1], file=sys.stderr)
    elif op == "errx":
        print(f"{s[1]} {c.execno}", file=sys.stderr)
    elif op == "out":
        print(s[1])
    elif op == "raise":
        raise_kind(s[1], s[2] if len(s) > 2 else "scripted failure")
    elif op == "file":
        p = t.file(s[1])
        with open(p, "w") as f:
            f.write(s[2])
    elif op == "link":                       # a link to data elsewhere among the test's files
        p = t.file(s[1])
        if not os.path.lexists(p):
            os.symlink(os.path.join(guest.K.scratch, s[2]), p)
    elif op == "tmp":
        p = t.tmp_file(s[1])
        with open(p, "w") as f:
            f.write(s[2])
    elif op == "tmpdir":
        p = t.tmp_dir(s[1])
        with open(os.path.join(p, "inner.txt"), "w") as f:
            f.write(s[2])
    elif op == "image":
        p = t.file(s[1])
        with open(p, "w") as f:
            f.write(s[2])
        p = t.rename_file_to_hash(p, ".png")
        t.timage(p, "image")
    elif op == "ls":
        with quiet():
            found = []
            for d in (t.out_dir_name, t.out_tmp_dir_name):
                for r, ds, fs in os.walk(d):
                    found.extend(os.path.relpath(os.path.join(r, f), d) for f in fs)
            log("obs", c.case, "files", sorted(found))
    elif op == "deps":
        for d in c.deps:
            t.iln("dep " + show(d))
    elif op == "tdeps":
        for d in c.deps:
            t.tln("dep " + show(d))
    elif op == "mutdeps":                    # a test that modifies what it received
        for d in c.deps:
            if isinstance(d, list):
                d.append(c.case)
            elif isinstance(d, dict):
                d[c.case] = 1
    elif op == "ret":
        c.ret = make_value(s[1], c.case, c.execno)
    elif op == "retdeps":
        c.ret = [c.case] + [show(d) for d in c.deps]
    elif op == "env":
        if s[2] is None:
            os.environ.pop(s[1], None)
        else:
            os.environ[s[1]] = s[2]
        log("setenv", c.case, s[1], s[2])
    elif op == "addhandler":                 # a test that sets up logging, and never undoes it
        lh = logging.StreamHandler(sys.stderr)
        logging.getLogger().addHandler(lh)
    elif op == "sethandlers":
        logging.getLogger().handlers = []
    elif op == "clearhandlers":
        del logging.getLogger().handlers[:]
    elif op == "swaperr":
        sys.stderr = io.StringIO()
    elif op == "closeerr":
        sys.stderr.close()
    elif op == "getenv":
        log("obs", c.case, "env", s[1], os.environ.get(s[1]))
        if len(s) > 2:
            t.tln(f"{s[1]}={os.environ.get(s[1])}")
    elif op == "call":
        lib = sys.modules["simlib"]
        f = lib
        for part in s[1].split("."):
            f = getattr(f, part)
        r = f(*copy.deepcopy(s[2]), **copy.deepcopy(s[3]))
        observe_call(c, s, r)
    elif op == "acall":
        raise RuntimeError("acall in sync body")
    elif op == "get":
        from . import simnet
        simnet.client_step(c, s)
    elif op == "threads":
        errs = []

        def one(steps):
            try:
                for x in steps:
                    step(c, x)
            except BaseException as e:
                errs.append(e)
        ths = [threading.Thread(target=one, args=(x,)) for x in s[1]]
        for th in ths:
            th.start()
        for th in ths:
            th.join()
        if errs:
            raise errs[0]
    elif op in ("tms", "ims"):               # ["tms", seconds, limit ms, clock step] / ["ims", seconds, clock step]
        dur = s[1]
        delta = s[-1] if len(s) > (3 if op == "tms" else 2) else 0
        shm = guest.K.shm
        inner = []

        def work():
            inner.append(shm[guest.NOW])
            burn(dur / 2)
            if delta:
                shm[guest.WALL] += int(delta * 1e9)
                log("clock", delta)
            burn(dur / 2)
            if dur < 0:
                raise SimError("timed call failed")
            inner.append(shm[guest.NOW])
            return 7
        t0 = shm[guest.NOW]
        limit = s[2] if op == "tms" else None
        try:
            c.last = t.t("timed ").tmsln(work, limit) if op == "tms" else t.i("info ").imsln(work)
        finally:
            log("obs", c.case, op, c.execno, c.last, limit, inner[1] - inner[0] if len(inner) > 1 else None, shm[guest.NOW] - t0)
    elif op == "wall":
        guest.K.shm[guest.WALL] += int(s[1] * 1e9)
        log("clock", s[1])
    elif op == "it":
        t.it(s[1], s[2]).must_be_a(type(s[2]))
    elif op == "kv":
        t.keyvalueln(s[1], s[2])
    elif op == "tlist":
        t.tlist(s[1])
    elif op == "tset":
        t.tset(s[1])
    elif op == "try":
        try:
            for x in s[1]:
                step(c, x)
        except Exception as e:
            log("obs", c.case, "caught", type(e).__name__)
    elif op == "chdir":
        pass
    elif op == "nested":                       # a run inside a run is not used; kept for completeness
        pass
    elif op == "addhandler":
        logging.getLogger().addHandler(logging.NullHandler())
    else:
        raise KeyError(op)


def burn(secs):
    """Takes time: asleep, or busy if it is a whole multiple of 7 ms"""
    if secs > 0 and int(secs * 2e6) % 7000 == 0:
        guest.K.shm[guest.NOW] += int(secs * 1e9)
        guest.K.cpu += int(secs * 1e9)
    elif secs > 0:
        time.sleep(secs)


class quiet:
    def __enter__(self):
        guest.K.quiet += 1

    def __exit__(self, *a):
        guest.K.quiet -= 1


def setup_event(what):
    """The set-up counts as done, and the tear-down as begun, at the instant of its log line."""
    k = guest.K
    f = CFG.get("setup_fail")
    if what == "setup":
        k.op("mark")
        if f == what:
            log("setup", "failed")
            raise SimError("setup failed")
        log("setup", what)
    else:
        log("setup", what)
        k.op("mark")
        if f == what:
            raise SimError("setup failed")
