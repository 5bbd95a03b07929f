"""C10: captured requests traffic replays identically."""
import json
from sim import gen, http, oracle as o, project

COUNT = {"quick": 160, "thorough": 5000}
NONTRIVIAL = "a captured execution was replayed"


def scenarios(rng, run, tier, i):
    yield scenario(rng, "requests", 0.2)


def scenario(rng, LIB, p_async):
    S = gen.suite(rng, rng.choice([1, 1, 2]), mods=1, p_dep=0, p_res=0, p_setup=0.1, p_inst=0.1, p_class=0.2, p_async=p_async)
    its = {c: it for c, it, *_ in project.case_names(S)}
    spec = {}
    cookies = rng.random() < 0.4
    for c, it in its.items():
        if "dec" not in it:
            it["dec"] = [[LIB, options(rng)]]
            if rng.random() < 0.1:
                it["dec"].append(["requests" if LIB == "httpx" else "httpx", {}])
        g = http.Gen(rng, LIB, kinds=True, sessions=cookies)
        asy = bool(it.get("async")) and LIB == "httpx"
        spec[c] = g.body(asy)
        if rng.random() < 0.15:
            http.authenticated(rng, g, spec[c], asy)
            for d in it["dec"]:                          # the credentials are different each time
                d[1].pop("ignore_headers", None)
        if cookies:
            one_by_one = not any(s[0] in ("gather", "threads", "atimeout") for s in spec[c])
            for s in http.flat(spec[c]):
                if s.get("session") == "global":         # its cookies depend on other cases
                    s["session"] = "one"
                if one_by_one:
                    s["jar"] = 1
            if not one_by_one:                           # the cookies a request sends depend on the order of the answers
                for d in it["dec"]:
                    d[1].pop("ignore_headers", None)
    items = []
    cap = gen.item(rng.choice([["-S", "-a", "-u"], ["-s", "-a", "-u"], ["-s", "-a", "-u", "-p2"]]), rng)
    items.append(cap)
    if rng.random() < 0.25:
        items.append(gen.item(["-S", "-a", "-u"], rng))
        items[-1]["net"] = http.network(rng, "m")
    items.append(gen.item(rng.choice([[], [], ["-p2"], ["-v"], ["-c"] if rng.random() < 0.2 else []]), rng))
    if rng.random() < 0.5:
        items[-1]["net"] = http.network(rng, "q", fails=rng.random() < 0.5)
    if rng.random() < 0.3:
        items.append(gen.item(rng.choice([["-u"], ["-s", "-u", "-a"]]), rng))
        items[-1]["net"] = http.network(rng, "w")
        items.append(gen.item([], rng))
    if "threads" in str(spec) and rng.random() < 0.6:
        for it in items:
            it["lines"] = rng.choice([1, "instr"])
            for c in it["calls"]:             # the waiting main process would take most of the steps
                c["argv"] = [a for a in c["argv"] if not a.startswith("-p")]
            it["sched"]["linemean"] = rng.choice([3, 10, 40])
    for it in items:
        it.setdefault("net", None)
    net = http.network(rng, "n")
    for it in items:
        it["net"] = it["net"] or json.loads(json.dumps(net))
    http.calm(items)
    if cookies:
        for it in items:
            http.set_cookies(it["net"])
    return {"lib": LIB, "suite": S, "spec": spec, "fp": True, "worlds": [{"items": items}]}


def options(rng):
    return rng.choice([{}, {}, {}, {"lose_request_details": False}, {"ignore_headers": ["X-Tok", "authorization"]},
                       {"ignore_headers": False}, {"lose_request_details": False, "ignore_headers": ["x-tok"]}])


def judge(sc, results):
    out = []
    captured = {}                # case -> (steps, responses, where)
    earlier = set()              # answers of the server in earlier invocations
    for k, r in enumerate(results[0]):
        if r.ended in ("hang", "spin"):
            out.append(o.v("hang", f"item {k} {o.argv_of(r)}: {r.hang}; {o.tail(r)}"))
            break
        argv = o.argv_of(r)
        recs = o.record_map(r.after)
        where = f"item {k} {argv}"
        capturing = "-s" in argv or "-S" in argv
        for x in o.execs(r):
            steps = r.spec.get(x.case, [])
            seen = http.responses(r, x)
            if capturing:
                out += faithful(r, x, steps, seen, where, earlier if "-S" not in argv else set())
            if x.case in captured and captured[x.case][0] == steps and "-S" not in argv:
                out += http.compare(steps, captured[x.case][1], seen, where, x.case)
                sent = http.sent_needlessly(r, x, steps, captured[x.case][1]) if capturing else http.nets(r, x)
                if sent:
                    out.append(o.v("request-sent-on-replay", f"{where}: {x.case} sent {sent[0][5:8]}"))
                if not out and recs.get(x.case) != ["OK"] and not http.lost_hops(steps, captured[x.case][1]):
                    out.append(o.v("replay-not-ok", f"{where}: {x.case} saw the same responses, but is {recs.get(x.case)}; {o.tail(r)} {o.output(r.after, x.case)}"))
            if capturing and "-a" in argv and x.how == "return" and recs.get(x.case) != ["OK"]:
                out.append(o.v("capture-failed", f"{where}: {x.case} got all its responses, but is {recs.get(x.case)}; {o.tail(r)} {o.output(r.after, x.case)}"))
            if "-S" in argv or capturing and x.case not in captured:
                captured.pop(x.case, None)
                if http.accepted(r, x, argv, False) and recs.get(x.case) == ["OK"] and replayable(steps, seen):
                    captured[x.case] = (steps, seen, where)
        for c in o.unreached(r):
            out.append(o.v("not-started", f"{where}: the body of {c} was never started; {o.tail(r)} {o.output(r.after, c)}"))
        earlier |= {(e[6], e[7]) for e in o.evs(r, "net")}
        if out:
            break
    return out


def replayable(steps, seen):
    """A request that was never answered has no snapshot; a test that repeats it later meets other answers."""
    byid = {s["id"]: s for s in http.flat(steps)}
    dead = {http.key_of(s) for i, s in byid.items() if not any(kind in ("resp", "unread") for kind, _ in seen.get(i, []))}
    if dead and any(s["url"].startswith("http://sim/r") for s in byid.values()):
        return False
    return not any(http.key_of(s) in dead for i, s in byid.items() if any(kind in ("resp", "unread") for kind, _ in seen.get(i, [])))


def faithful(r, x, steps, seen, where, earlier):
    """While capturing, the test sees what the server answered, with its own options."""
    out = []
    byid = {s["id"]: s for s in http.flat(steps)}
    served = [e for e in http.nets(r, x)]
    stamps = {}
    for i, l in seen.items():
        for kind, v in l:
            if kind == "resp" and v.get("xh"):
                stamps.setdefault((v["url"], v["xh"]), []).append(i)
    for (url, n), ids in stamps.items():
        if len(ids) > 1 and not earlier:
            out.append(o.v("answer-seen-twice", f"{where}: {x.case} requests {ids} both got answer {n} of {url}"))
        num = int(n.rsplit(".", 1)[1])
        if not any(e[6] == url and e[7] == num for e in served) and (url, num) not in earlier:
            out.append(o.v("answer-not-from-server", f"{where}: {x.case} got answer {n} of {url}, the server gave {[e[5:8] for e in served]}"))
    if byid and next(iter(byid.values()))["lib"] == "requests":
        opts = [e for e in http.window(r, x) if e[4] == "netopts"]
        allowed = {(json.dumps(s.get("timeout")), json.dumps(s.get("verify", True))) for s in byid.values()}
        for e in opts:
            if (json.dumps(e[6]), json.dumps(e[7])) not in allowed:
                out.append(o.v("options-ignored", f"{where}: {x.case} sent a request with timeout {e[6]} verify {e[7]}, the test asked for {allowed}"))
        mounted = [e for e in http.window(r, x) if e[4] == "mounted"]
        if all(s.get("session") == "mounted" for s in byid.values()) and len(mounted) != len(served):
            out.append(o.v("own-adapter-ignored", f"{where}: {x.case} {len(served)} requests, {len(mounted)} by its session's adapter"))
    return out


def nontrivial(sc, results):
    return len(results[0]) > 1 and any(http.responses(r, x) for r in results[0][1:] for x in o.execs(r))


def probes(sc, results):
    out = []
    for r in results[0]:
        cap = "capture" if "-s" in o.argv_of(r) or "-S" in o.argv_of(r) else "replay"
        for x in o.execs(r):
            seen = http.responses(r, x)
            for i, l in seen.items():
                for kind, v in l:
                    out.append(f"{cap}: " + (f"status {v['status']}" if kind == "resp" else "unread" if kind == "unread" else f"error {v}"))
            out.append(f"{cap}: case {x.how}")
    return out
