"""Generators and judgements shared by the checks of captured HTTP traffic (C10, C11, C12, C13)."""
import gzip, json
from . import gen, oracle as o, project

URLS = ["http://sim/a", "http://sim/b?x=1", "http://sim/c", "http://sim/d/e", "http://sim/ü", "http://sim/c/", "http://sim/b?x=1&y=2"]
HEADERS = [{}, {}, {"X-Tok": "secret-one"}, {"Authorization": "secret-two"}, {"X-Tok": "secret-three", "Accept": "x/y"}]
BODIES = [None, None, "plain body", "ünïcode body", "secret-body", "{\"j\": 1}"]
METHODS = ["GET", "GET", "GET", "POST", "PUT", "DELETE"]


def answer(rng, stamp, fails=True):
    r = rng.random()
    a = {"lat": rng.choice([0.001, 0.001, 0.02, 0.5, 3, 15])}
    if fails and r < 0.18:
        a["fail"] = rng.choice(["connect", "timeout", "read"])
        a["body"] = "broken"
        return a
    if r < 0.3:
        a["bodyhex"] = bytes(rng.randrange(256) for _ in range(rng.choice([1, 9, 40]))).hex()
        a["headers"] = {"Content-Type": rng.choice(["application/octet-stream", "image/png", "text/plain; charset=utf-8"])}
    elif r < 0.36:
        a["bodyhex"] = gzip.compress(b"compressed body", mtime=0).hex()
        a["headers"] = {"Content-Type": "text/plain", "Content-Encoding": "gzip"}
    elif r < 0.42:
        a["bodyhex"] = "schöner".encode("latin1").hex()
        a["headers"] = {"Content-Type": "text/html; charset=iso-8859-1"}
    elif r < 0.48:
        a["headers"] = {"X-Empty": "yes"}
    elif r < 0.55:
        a["body"] = ""
        a["status"] = 204
    else:
        a["stamp"] = stamp
        a["body"] = rng.choice(["text", "{\"k\": [1, 2]}", "größer 漢字", "line\r\nline\n"])
        a["headers"] = {"Content-Type": rng.choice(["text/plain", "application/json", "text/plain; charset=utf-8"]),
                        rng.choice(["X-More", "x-more", "ETag", "Vary"]): "v\"1\""}
    a["reason"] = "OK"
    if rng.random() < 0.2:
        a["status"] = rng.choice([201, 404, 500, 503])
        a["reason"] = "Some Reason"
    if rng.random() < 0.15:
        a["blat"] = rng.choice([0.01, 1])
    return a


COOKIES = [["sid=s1; Path=/"], ["sid=s2; Path=/", "t=1; Path=/; HttpOnly"], ["t=2; Path=/d; Max-Age=1000", "u=\"x y\"; Path=/"],
           ["sid=; Path=/; Max-Age=0"], ["sid=s3"]]


def set_cookies(net):
    """Some pages set cookies, always the same ones."""
    for key, answers in net.items():
        z = hash_of(key) % 12
        if z < len(COOKIES):
            for a in answers:
                a["cookies"] = COOKIES[z]
    return net


AUTH = "http://sim/auth"


def authenticated(rng, g, steps, asy):
    """Adds requests that are answered only after they are sent again with the credentials."""
    for _ in range(rng.choice([1, 1, 2])):
        s = g.step(asy, [AUTH])
        s[1]["auth"] = rng.choice(["digest", "digest", "basic"])
        s[1].pop("noredir", None)
        s[1].pop("stream", None)
        at = len(steps) - 1 if steps and steps[-1][0] == "ret" else len(steps)
        steps.insert(at, s)


def network(rng, tag="n", fails=True, urls=URLS):
    net = {}
    for u in urls:
        for m in sorted(set(METHODS)):
            n = rng.choice([1, 2, 3, 4])
            net[f"{m} {wire(u)}"] = [answer(rng, f"{tag}{abs(hash_of(m + u)) % 1000}", fails) for _ in range(n)] + \
                [answer(rng, f"{tag}z{abs(hash_of(m + u)) % 1000}", False)]
    for m in sorted(set(METHODS)):
        ok = {"status": 200, "headers": {"Content-Type": "text/plain"}, "body": "inside", "lat": 0.01, "reason": "OK", "stamp": tag + "auth" + m}
        ask = {"status": 401, "headers": {"WWW-Authenticate": 'Digest realm="sim", nonce="abc", qop="auth", algorithm=MD5'},
               "body": "who?", "lat": 0.01, "reason": "Unauthorized", "unless": ["authorization", "digest"], "else": ok}
        net[f"{m} {AUTH}"] = [ask]
    # redirects
    for i, (code, target) in enumerate([(302, URLS[0]), (301, "/b?x=1"), (307, "http://sim/r0"), (308, URLS[2])]):
        for m in sorted(set(METHODS)):
            net[f"{m} http://sim/r{i}"] = [{"status": code, "headers": {rng.choice(["Location", "location", "LOCATION"]): target},
                                          "body": "moved", "lat": 0.01, "reason": "Found"}]
    return net


def calm(items):
    """The waiting main process of a parallel run looks every 10 ms, long answers only cost steps."""
    for it in items:
        if any(a.startswith("-p") or a.startswith("--par") for c in it["calls"] for a in c["argv"]):
            for l in (it.get("net") or {}).values():
                for a in l:
                    a["lat"] = min(a["lat"], 1.5)


def hash_of(s):
    import zlib
    return zlib.crc32(s.encode())


def wire(u):
    """The form of a URL that reaches the transport."""
    from urllib.parse import quote
    return quote(u, safe=":/?=&%")


class Gen:
    def __init__(self, rng, lib, **opts):
        self.rng, self.lib, self.n, self.opts = rng, lib, 0, opts

    def step(self, asy=False, urls=None, solo=False):
        rng = self.rng
        self.n += 1
        s = {"id": self.n, "lib": self.lib, "url": rng.choice(urls or URLS + ["http://sim/r0", "http://sim/r1", "http://sim/r2"]),
             "method": rng.choice(METHODS)}
        h = rng.choice(HEADERS)
        if h:
            s["headers"] = dict(h)
        if s["method"] in ("POST", "PUT"):
            b = rng.choice(BODIES)
            if b is not None:
                s["body"] = b
                if self.opts.get("kinds") and rng.random() < 0.4:
                    s["bodykind"] = rng.choice(["json", "form", "bytes"])
                if asy and "bodykind" not in s and rng.random() < 0.3 and not s["url"].startswith("http://sim/r"):
                    s["abody"] = 1
        if rng.random() < 0.7:
            s["retries"] = 5
        if rng.random() < 0.25:
            s["swallow"] = 1
        if rng.random() < 0.4:
            s["timeout"] = rng.choice([1, 5, 20])
        if rng.random() < 0.15:
            s["noredir"] = 1
        if self.lib == "requests":
            if rng.random() < 0.3:
                s["session"] = rng.choice(["one", "one", "mounted", "global"])
            if rng.random() < 0.15:
                s["verify"] = rng.choice([False, "/some/ca.pem"])
            if rng.random() < 0.15:
                s["stream"] = rng.choice(["iter", "with"])
        elif self.opts.get("sessions") and rng.random() < 0.5:
            s["session"] = "one"
        elif rng.random() < 0.15:
            s["stream"] = rng.choice(["none", "iter"])
            s.pop("retries", None)
            s["retries"] = 5
        if asy and rng.random() < 0.3:
            s["pre"] = rng.choice([0.001, 0.01, 1])
        return ["aget" if asy else "get", s]

    def body(self, asy, ver=1, kind="ok"):
        rng = self.rng
        steps = [["t", f"case {ver}"]]
        for _ in range(rng.choice([1, 1, 2, 3])):
            r = rng.random()
            if r < 0.35:
                urls = rng.sample(URLS, rng.choice([1, 1, 3]))
                width = rng.choice([2, 2, 3, 5, 12])
                base = self.step(asy, urls)
                groups = []
                for _ in range(width):
                    g = []
                    for _ in range(rng.choice([1, 1, 1, 2])):
                        if rng.random() < 0.5:
                            s = [base[0], dict(base[1])]
                            self.n += 1
                            s[1]["id"] = self.n
                        else:
                            s = self.step(asy, urls)
                        g.append(s)
                    groups.append(g)
                steps.append(["gather" if asy else "threads", groups])
            elif r < 0.45 and asy:
                s = self.step(asy)
                s[1]["swallow"] = 1
                again = [s[0], dict(s[1])]
                self.n += 1
                again[1]["id"] = self.n
                again[1]["retries"] = 5
                steps.append(["atimeout", rng.choice([0.01, 1]), [s], [again]])
            else:
                s = self.step(asy)
                steps.append(s)
                if rng.random() < 0.4:
                    for _ in range(rng.choice([1, 2])):
                        again = [s[0], dict(s[1])]
                        self.n += 1
                        again[1]["id"] = self.n
                        steps.append(again)
            if rng.random() < 0.15:
                steps.append(["sleep", 0.1])
        if kind == "fail":
            steps.append(["assert", False])
        elif kind == "diff":
            steps.append(["t", "another line"])
        elif kind.startswith("raise:"):
            steps.append(["raise", kind[6:]])
        steps.append(["ret", ["static", 1]])
        return steps


def flat(steps):
    for s in steps:
        if s[0] in ("gather", "threads"):
            for g in s[1]:
                yield from flat(g)
        elif s[0] == "atimeout":
            yield from flat(s[2])
            yield from flat(s[3] if len(s) > 3 else [])
        elif s[0] == "try":
            yield from flat(s[1])
        elif s[0] in ("get", "aget"):
            yield s[1]


def key_of(s):
    return json.dumps([s.get("method", "GET"), s["url"], s.get("body"), s.get("bodykind") if s.get("bodykind") != "bytes" else None], sort_keys=True)


def window(r, x):
    end = x.seq1 or 1 << 60
    return [e for e in r.events if e[2] == x.proc and x.seq0 < e[0] <= end]


def responses(r, x):
    """{step id: [("resp", what was seen) | ("err", class) ...]} of an execution"""
    out = {}
    for e in window(r, x):
        if e[4] == "obs" and e[5] == x.case and e[6] in ("resp", "err", "unread"):
            out.setdefault(e[7], []).append((e[6], e[11] if e[6] != "unread" else e[8]))
    return out


def nets(r, x):
    return [e for e in window(r, x) if e[4] == "net"]


def answers_of(x, r):
    """{(method, url): [n, ...]} of the answered real requests"""
    return [(e[5], e[6], e[7]) for e in nets(r, x)]


def ambiguous(steps, failed):
    """Keys whose answers may legitimately be distributed differently on replay: the order in which their requests are made
    depends on when other answers arrive (or on threads), or one of them failed while being captured."""
    users = {}                       # key -> list of (parallel group id, branch, position is first)
    gid = [0]

    def scan(ss, branch, first):
        for s in ss:
            if s[0] in ("gather", "threads"):
                gid[0] += 1
                for i, g in enumerate(s[1]):
                    scan(g, (gid[0], i, s[0]), True)
                first = False
            elif s[0] == "atimeout":
                scan(s[2], branch, first)
                scan(s[3] if len(s) > 3 else [], branch, False)
                first = False
            elif s[0] in ("get", "aget"):
                redirected = s[1]["url"].startswith("http://sim/r")
                users.setdefault("any" if redirected else key_of(s[1]), []).append((branch, first and not redirected))
                first = False
    scan(steps, None, True)
    bad = set(failed)
    redirects_in_parallel = any(b is not None for b, f in users.get("any", []))
    for k, us in users.items():
        groups = set(b[0] for b, f in us if b is not None)
        for g in groups:
            branches = set(b for b, f in us if b is not None and b[0] == g)
            if len(branches) > 1 and (any(b[2] == "threads" for b in branches) or
                                      not all(f for b, f in us if b is not None and b[0] == g)):
                bad.add(k)
    return bad, redirects_in_parallel


def compare(steps, cap, rep, where, case):
    """Differences between what a test saw while capturing and on replay."""
    out = []
    byid = {s["id"]: s for s in flat(steps)}
    failed = {key_of(byid[i]) for i, seen in cap.items() if any(k == "err" for k, _ in seen) and i in byid}
    # a failed, cancelled or unanswered request among others of the same key changes which one gets which answer
    failed |= {key_of(byid[i]) for i in byid if i not in cap}
    several = {}
    for s in byid.values():
        several.setdefault(key_of(s), []).append(s["id"])
    failed = {k for k in failed if len(several.get(k, [])) > 1}
    amb, redir = ambiguous(steps, failed)
    pools = {}
    for i, s in sorted(byid.items()):
        c = [v for k, v in cap.get(i, []) if k in ("resp", "unread")]
        p = [v for k, v in rep.get(i, []) if k in ("resp", "unread")]
        if not c:
            continue
        k = key_of(s)
        if not p:
            out.append(o.v("no-response-on-replay", f"{where}: {case} got {short(c[-1])} for {s} while capturing, and {rep.get(i)} on replay"))
        elif k in amb or redir or touches(s, amb, byid):
            pools.setdefault("all" if redir or s["url"].startswith("http://sim/r") or amb_redirect(byid, amb) else k, []).append((c[-1], p[-1], s))
        elif c[-1] != p[-1]:
            out.append(o.v("different-response", f"{where}: {case} got {short(c[-1])} for {s} while capturing, and {short(p[-1])} on replay: "
                           f"{delta(c[-1], p[-1])}"))
    for k, l in pools.items():
        # of a response that is not read only the status is known
        f = core if all(isinstance(v, dict) for c, p, s in l for v in (c, p)) else lambda v: v["status"] if isinstance(v, dict) else v
        a = sorted(f(c) for c, p, s in l)
        b = sorted(f(p) for c, p, s in l)
        if a != b:
            out.append(o.v("different-responses", f"{where}: {case} requests {k} gave {a} while capturing, and {b} on replay"))
    return out


def lost_hops(steps, cap):
    """Whether a redirect was answered and the request it led to failed while capturing: the answer of the redirect is stored, but
    replayed only to the retry (documented limit: failures are not recorded)."""
    return any(s["url"].startswith("http://sim/r") and any(k == "err" for k, _ in cap.get(s["id"], [("err", 0)])) for s in flat(steps))


def touches(s, amb, byid):
    """Whether a redirect leads to a key that is distributed freely."""
    return bool(amb) and s["url"].startswith("http://sim/r")


def amb_redirect(byid, amb):
    return bool(amb) and any(s["url"].startswith("http://sim/r") for s in byid.values())


def core(v):
    """What does not depend on how the test reads the response."""
    return json.dumps(v if not isinstance(v, dict) else {k: v.get(k) for k in ("status", "body", "reason", "url", "hdrs", "cookies")}, sort_keys=True)


def sent_needlessly(r, x, steps, cap):
    """Requests sent although the capture has answers for all of their kind."""
    dead = [s for s in flat(steps) if not any(k != "err" for k, _ in cap.get(s["id"], []))]
    if any(s["url"].startswith("http://sim/r") for s in dead):
        return []
    return [e for e in nets(r, x) if not any(wire(s["url"]) == e[6] for s in dead)]


def short(v):
    return {k: v[k] for k in ("status", "body", "url", "hist", "hdrs") if k in v} if isinstance(v, dict) else v


def delta(a, b):
    if not isinstance(a, dict) or not isinstance(b, dict):
        return (a, b)
    return {k: (a.get(k), b.get(k)) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)}


def accepted(r, x, argv, faulted):
    """Whether the run accepted the execution's output and snapshots, for runs with -a and -u."""
    steps = r.spec.get(x.case, [])
    return "-a" in argv and "-u" in argv and x.how == "return" and ["assert", False] not in steps and not faulted
