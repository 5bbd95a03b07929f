"""C12: capture flags decide what reaches the outside world."""
import json
from collections import Counter
from sim import gen, http, oracle as o, project
from .c10 import options

COUNT = {"quick": 260, "thorough": 8000}
NONTRIVIAL = "a decorated case made calls"
FNS = ["f0", "f1", "svc.sm", "Svc.st"]
FUNCS = [None, ["count"], [{"a": 1}, {"a": 2}], ["raise", {"ok": 1}]]
FLAGS = [[], [], ["-s", "-a", "-u"], ["-s", "-a", "-u"], ["-S", "-a", "-u"], ["-s"], ["-S"], ["-s", "-u"], ["-a", "-u"], ["-s", "-S", "-a", "-u"]]


def libs(it):
    return [d[0] for d in it.get("dec", []) if d[0] in ("requests", "httpx")]


def decorate(rng, it):
    dec = []
    if rng.random() < 0.8:
        dec.append(["requests", options(rng)])
    if rng.random() < 0.5:
        dec.append(["httpx", options(rng)])
    if rng.random() < 0.5:
        dec.append(["fns", rng.sample(FNS, rng.choice([1, 2]))])
    if not dec:
        dec.append([rng.choice(["requests", "httpx"]), {}])
    rng.shuffle(dec)
    it["dec"] = dec


def leaf(rng, g, it, urls, asy):
    ls, fs = libs(it), [f for d in it["dec"] if d[0] == "fns" for f in d[1]]
    if fs and (not ls or rng.random() < 0.3):
        return ["try", [["call", rng.choice(fs), rng.choice([[], [1], [2]]), rng.choice([{}, {"k": "v"}])]]]
    g.lib = rng.choice(ls)
    s = g.step(asy and g.lib == "httpx", urls)
    if s[1]["url"].startswith("http://sim/r"):
        s[1]["noredir"] = 1
    if rng.random() < 0.6:
        s[1]["swallow"] = 1
    if rng.random() < 0.7:
        s[1].pop("retries", None)
    return s


def body(rng, it, kind, ver):
    g = http.Gen(rng, "requests")
    g.n = ver * 1000
    asy = bool(it.get("async"))
    steps = [["t", "case"]]
    urls = rng.choice([None, rng.sample(http.URLS, 1), rng.sample(http.URLS, 2)])
    for _ in range(rng.choice([1, 2, 3, 5])):
        if rng.random() < 0.2:
            groups = [[leaf(rng, g, it, urls, asy) for _ in range(rng.choice([1, 2]))] for _ in range(rng.choice([2, 4]))]
            if asy and all(s[0] == "aget" for b in groups for s in b):
                steps.append(["gather", groups])
            else:
                steps.append(["threads", [[s for s in b if s[0] != "aget"] for b in groups]])
        else:
            s = leaf(rng, g, it, urls, asy)
            steps.append(s)
            for _ in range(rng.choice([0, 0, 1, 2])):
                if s[0] in ("get", "aget"):
                    s = [s[0], dict(s[1])]
                    g.n += 1
                    s[1]["id"] = g.n
                steps.append(s)
    if kind == "fail":
        steps.append(["assert", False])
    elif kind == "diff":
        steps.append(["t", "something else"])
    elif kind.startswith("raise:"):
        steps.append(["raise", kind[6:]])
    steps.append(["ret", ["static", 1]])
    return steps


def scenarios(rng, run, tier, i):
    S = gen.suite(rng, rng.choice([1, 2, 3]), mods=1, p_dep=0, p_res=0, p_setup=0.1, p_inst=0.1, p_async=0.3, odd=rng.random() < 0.1)
    its = {c: it for c, it, *_ in project.case_names(S)}
    for it in its.values():
        if "dec" not in it:
            decorate(rng, it)
    steady = rng.random() < 0.5
    spec = {c: body(rng, its[c], "ok", 1) for c in its}
    items = []
    for n in range(rng.choice([2, 3, 4])):
        argv = list(rng.choice(FLAGS if n else FLAGS[2:])) + (gen.pflag(rng) if rng.random() < 0.2 else [])
        it = gen.item(argv, rng)
        it["net"] = http.network(rng, f"i{n}", fails=not steady)
        it["fns"] = {f: a for f in FNS for a in [rng.choice(FUNCS)] if a is not None}
        if n and rng.random() < 0.6:
            it["spec"] = {}
            for c in its:
                old = (items[-1].get("spec") or {}).get(c) or spec[c]
                r = rng.random()
                if r < 0.35:           # some calls less
                    it["spec"][c] = [s for s in old if s[0] in ("t", "ret") or rng.random() < 0.6]
                elif r < 0.6:          # some calls more
                    it["spec"][c] = old[:-1] + [s for s in body(rng, its[c], "ok", n + 2) if s[0] not in ("t", "ret")] + old[-1:]
                elif r < 0.8:
                    it["spec"][c] = body(rng, its[c], rng.choice(["ok", "diff", "fail", "raise:value", "raise:exit"]), n + 2)
                else:
                    it["spec"][c] = old
        elif n and "spec" in items[-1]:
            it["spec"] = items[-1]["spec"]
        if "threads" in str([spec, it.get("spec")]) and rng.random() < 0.4 and not any(a.startswith("-p") for a in argv):
            it["lines"] = rng.choice([1, "instr"])
            it["sched"]["linemean"] = rng.choice([3, 10, 40])
        if n and rng.random() < 0.15:
            it["legacy"] = True
        items.append(it)
    http.calm(items)
    yield {"suite": S, "spec": spec, "worlds": [{"items": items}]}


# ---- model ------------------------------------------------------------------------------------------------------
SIGNIFICANT = ("x-tok", "authorization", "accept", "transfer-encoding")


def key(it, lib, method, url, body, headers):
    ign = [d[1].get("ignore_headers", True) for d in it["dec"] if d[0] == lib][0]
    hs = []
    if ign is not True:
        low = [h.lower() for h in ign or []]
        hs = sorted([k.lower(), v] for k, v in headers.items() if k.lower() in SIGNIFICANT and k.lower() not in low and v != "*/*")
    return json.dumps([lib, method, url, body, hs])


def step_key(it, s):
    h = dict(s.get("headers", {}))
    if s.get("abody") and s["lib"] == "httpx" and s.get("body") is not None:
        h["transfer-encoding"] = "chunked"
    return key(it, s["lib"], s.get("method", "GET"), http.wire(s["url"]), (s.get("body") or "").encode().decode("latin1"), h)


def net_key(it, e, asked):
    """The transport does not know the library: a key the test asked for."""
    ks = [key(it, lib, e[5], e[6], e[9], e[8]) for lib in libs(it)]
    return next((k for k in ks if k in asked), ks[0] if ks else "?")


def lib_of_net(e):
    return "httpx" if "httpx" in e[8].get("user-agent", "") else "requests"


def flat(steps):
    for s in steps:
        if s[0] in ("gather", "threads"):
            for g in s[1]:
                yield from flat(g)
        elif s[0] == "try":
            yield from flat(s[1])
        elif s[0] in ("get", "aget", "call"):
            yield s


def judge(sc, results):
    out = []
    stored = {}             # case -> {"http": Counter of stored answers per key, "fns": set of stored calls}
    for k, r in enumerate(results[0]):
        if r.ended in ("hang", "spin"):
            out.append(o.v("hang", f"item {k} {o.argv_of(r)}: {r.hang}; {o.tail(r)}"))
            break
        argv = o.argv_of(r)
        mode = "refresh" if "-S" in argv else "complete" if "-s" in argv else "replay"
        its = {c: it for c, it, *_ in project.case_names(r.suite)}
        recs = o.record_map(r.after)
        where = f"item {k} {argv}"
        for x in o.execs(r):
            it = its[x.case]
            st = stored.get(x.case, {"http": Counter(), "fns": set()})
            have = st["http"] if mode != "refresh" else Counter()
            havef = st["fns"] if mode != "refresh" else set()
            steps = r.spec.get(x.case, [])
            byid = {s[1]["id"]: s[1] for s in flat(steps) if s[0] != "call"}
            seen = http.responses(r, x)
            got, tried = Counter(), Counter()
            for i, l in seen.items():
                kk = step_key(it, byid[i])
                tried[kk] += len(l)
                got[kk] += sum(1 for kind, _ in l if kind != "err")
            real = Counter()
            for e in http.nets(r, x):
                real[key(it, lib_of_net(e), e[5], e[6], e[9], e[8])] += 1
            for kk in sorted(set(tried) | set(real)):
                n, a = have[kk], tried[kk]
                want = 0 if mode == "replay" else max(0, a - n)
                if real[kk] != want:
                    c = "sent-without-capture" if mode == "replay" else "stored-not-used" if real[kk] > want else "not-really-sent"
                    out.append(o.v(c, f"{where}: {x.case} made {a} requests {kk}, {n} are stored, {real[kk]} were really sent instead of {want}"))
                if mode == "replay" and got[kk] != min(a, n):
                    out.append(o.v("answered-without-snapshot" if got[kk] > n else "snapshot-not-used",
                                   f"{where}: {x.case} made {a} requests {kk}, {n} are stored, {got[kk]} were answered: {seen}"))
            # functions
            ends = [e for e in http.window(r, x) if e[4] == "realcall" or e[4] == "obs" and e[6] in ("call", "caught")]
            rc, oc = Counter(), Counter()
            okcalls = set()
            for e in ends:
                if e[4] == "realcall":
                    rc[(e[5], e[6])] += 1
                    if e[7] != "raise":
                        okcalls.add((e[5], e[6]))
                elif e[6] == "call":
                    oc[(e[7], e[8])] += 1
            for c in sorted(rc):
                if mode == "replay" or c in havef:
                    out.append(o.v("executed-without-need", f"{where}: {x.case} executed {c}, mode {mode}, stored {sorted(havef)}"))
            for c in sorted(oc):
                if c not in havef and not rc[c]:
                    out.append(o.v("answered-without-call", f"{where}: {x.case} got a result of {c}, that is not stored {sorted(havef)} and was not executed"))
                if mode != "replay" and c not in havef and rc[c] < oc[c]:
                    out.append(o.v("not-really-called", f"{where}: {x.case} called {c} {oc[c]} times, it was executed {rc[c]} times"))
            if x.how == "raise" and recs.get(x.case) != ["FAIL"]:
                out.append(o.v("raise-not-failing", f"{where}: {x.case} is {recs.get(x.case)}"))
            if "-u" in argv and recs.get(x.case) == ["OK"]:
                new = Counter()
                for kk in got:
                    new[kk] = got[kk]
                usedf = {c for c in oc if c in havef} | okcalls
                stored[x.case] = {"http": new, "fns": usedf}
                out += files(r, x, it, new, usedf, where)
            elif "-u" in argv and "-a" in argv and x.how == "return" and ["assert", False] not in steps:
                out.append(o.v("not-accepted", f"{where}: {x.case} is {recs.get(x.case)}; {o.tail(r)}"))
        for c in o.unreached(r):
            out.append(o.v("not-started", f"{where}: the body of {c} was never started; {o.tail(r)} {o.output(r.after, c)}"))
        if out:
            break
    return out


def files(r, x, it, new, usedf, where):
    """The stored snapshots are those of the calls that were made."""
    out = []
    base = f"books/{x.case}"
    for lib in ("requests", "httpx"):
        f = r.after.get(f"{base}/.{lib}.json")
        n = sum(v for kk, v in new.items() if json.loads(kk)[0] == lib)
        if lib in libs(it):
            if f is None or len(json.loads(f)) != n:
                out.append(o.v("wrong-snapshots", f"{where}: {x.case} was accepted with {n} {lib} answers, stored are {f}"))
        elif f is not None:
            out.append(o.v("wrong-snapshots", f"{where}: {x.case} has {lib} snapshots, but no decorator for them"))
        if any(p.startswith(f"{base}/.{lib}/") for p in r.after):
            out.append(o.v("stale-snapshots", f"{where}: {x.case} keeps snapshots in .{lib}/, that nothing wrote"))
    fs = [json.loads(v)["call"] for p, v in r.after.items() if p.startswith(f"{base}/.functions/") and v is not None]
    a = sorted(json.dumps([c["args"], c["kwargs"]]) for c in fs)
    b = sorted(json.dumps(json.loads(c[1])) for c in usedf)
    if a != b:
        out.append(o.v("wrong-snapshots", f"{where}: {x.case} was accepted with function calls {sorted(usedf)}, stored are {fs}"))
    return out


def nontrivial(sc, results):
    return any(http.responses(r, x) for r in results[0] for x in o.execs(r))


def probes(sc, results):
    out = []
    for r in results[0]:
        argv = o.argv_of(r)
        mode = "refresh" if "-S" in argv else "complete" if "-s" in argv else "replay"
        for x in o.execs(r):
            n = len(http.nets(r, x))
            seen = http.responses(r, x)
            a = sum(len(l) for l in seen.values())
            out.append(f"{mode}: " + ("no calls" if not a else "nothing sent" if not n else "all sent" if n >= a else "some sent"))
            if any(kind == "err" and v == "ValueError" for l in seen.values() for kind, v in l):
                out.append(f"{mode}: a snapshot was missing")
    return out
