"""C09: a finished case leaves the process as it found it."""
import json
from sim import gen, http, oracle as o, project
from . import c14, c15

COUNT = {"quick": 300, "thorough": 10000}
NONTRIVIAL = "a decorated case was started, or its set-up failed"
VARS = c15.VARS
RAISES = ["value", "os", "exit", "cancel", "kbd", "assert", "base", "genexit", "badstr", "oddmsg"]


def decorate(rng, it):
    dec = []
    if rng.random() < 0.5:
        c15.decorate(rng, it)
        dec += it["dec"]
    if rng.random() < 0.5:
        c14.decorate(rng, it)
        dec += it["dec"]
    if rng.random() < 0.4:
        dec.append(["requests", rng.choice([{}, {"ignore_headers": False}, {"lose_request_details": False}])])
        if rng.random() < 0.15:
            dec.append(["requests", {}])
    if rng.random() < 0.4:
        dec.append(["httpx", {}])
    if rng.random() < 0.2:
        dec.append(["setup"])
    rng.shuffle(dec)
    it["dec"] = dec


def names(it, kinds):
    return sorted({n for d in it.get("dec", []) if d[0] in kinds for n in d[1]})


def leaf(rng, g, it):
    r = rng.random()
    dec = [d[0] for d in it.get("dec", [])]
    asy = bool(it.get("async"))
    libs = [d for d in ("requests", "httpx") if d in dec] or (["requests", "httpx"] if r < 0.7 else [])
    mine = names(it, ("snap", "mock", "missing"))
    if r < 0.35 and libs:
        g.lib = rng.choice(libs)
        s = g.step(asy and g.lib == "httpx")
        s[1]["swallow"] = rng.random() < 0.7
        return s
    if r < 0.5 and mine:
        return ["env", rng.choice(mine), rng.choice(c15.VALUES + [None])]
    if r < 0.7:
        s = ["call", rng.choice(c14.CALLED), rng.choice([[], [1]]), {}]
        return ["try", [s]] if rng.random() < 0.7 else s
    if r < 0.8:
        return [rng.choice(["sleep", "asleep"]), rng.choice([0.001, 0.1, 1])]
    if r < 0.9:
        return rng.choice([["addhandler"], ["sethandlers"], ["swaperr"], ["closeerr"]])
    return rng.choice([["log", "logged"], ["err", "to stderr"], ["file", "data.txt", "x"], ["t", "more"]])


def body(rng, it, kind="ok"):
    g = http.Gen(rng, "requests")
    steps = [["t", "case"]]
    for _ in range(rng.choice([0, 1, 2, 3, 4])):
        if rng.random() < 0.12:
            groups = [[x for x in [leaf(rng, g, it) for _ in range(rng.choice([1, 2]))]
                       if x[0] not in ("aget", "asleep", "swaperr", "closeerr", "file", "t")] for _ in range(3)]
            steps.append(["threads", groups])
        else:
            steps.append(leaf(rng, g, it))
    if kind == "fail":
        steps.append(["assert", False])
    elif kind == "diff":
        steps.append(["uniq", "x"])
        steps.append(["t", "another"])
    elif kind.startswith("raise:"):
        steps.insert(rng.randint(1, len(steps)), ["raise", kind[6:]])
        if rng.random() < 0.25:
            steps.insert(1, ["assert", False])
    steps.append(["ret", ["opaque"] if kind == "opaque" else ["static", 1]])
    return steps


def kinds(rng):
    return rng.choice(["ok", "ok", "ok", "diff", "fail", "opaque"] + ["raise:" + rng.choice(RAISES)] * 3)


FLAGS = [[], [], ["-s"], ["-S"], ["-s", "-a", "-u"], ["-S", "-a", "-u"], ["-v"], ["-f"], ["-c"], ["-s", "-v", "-L"]]


def scenarios(rng, run, tier, i):
    S = gen.suite(rng, rng.choice([1, 2, 3, 4]), mods=rng.choice([1, 2]), p_dep=0.15, p_res=0.1, p_setup=0.2, p_inst=0.2, p_async=0.4,
                  odd=rng.random() < 0.1)
    its = {c: it for c, it, *_ in project.case_names(S)}
    for it in its.values():
        if "dec" not in it and rng.random() < 0.9:
            decorate(rng, it)
    spec = {c: body(rng, it, kinds(rng)) for c, it in its.items()}
    items = []
    for n in range(rng.choice([1, 2, 2, 3])):
        calls = [list(rng.choice(FLAGS)) + (gen.pflag(rng) if rng.random() < 0.2 else []) + gen.selection(rng, S, 0.2)
                 for _ in range(rng.choice([1, 1, 1, 2]))]
        it = gen.item(calls[0], rng)
        for c in calls[1:]:
            it["calls"].append({"argv": c})
        if rng.random() < 0.2:
            for c in it["calls"]:
                c["api"] = "exec"
        it["net"] = http.network(rng, f"i{n}")
        it["fns"] = c14.functions(rng)
        it["env"] = c15.env(rng)
        if rng.random() < 0.5:
            it["handlers"] = rng.choice([["%(message)s"], ["%(levelname)s %(message)s", "2 %(message)s"]])
        if n and rng.random() < 0.6:
            it["spec"] = {c: body(rng, x, kinds(rng)) for c, x in its.items() if rng.random() < 0.7}
        if "threads" in str([spec, it.get("spec")]) and rng.random() < 0.4 and not any(a.startswith(("-p", "--par")) for c in calls for a in c):
            it["lines"] = rng.choice([1, "instr"])
            it["sched"]["linemean"] = rng.choice([3, 10, 40])
        r = rng.random()
        if r < 0.3:
            it["rules"] = [{"kinds": rng.choice([["open_w"], ["write"], ["open_r"], ["close"], ["mkdir"], ["rename"], ["remove"], ["open_w", "write"]]),
                            "glob": rng.choice(["*", "*", "*.json", "*.log", "*.txt", "*.md", "*/.functions*", "*.out*"]),
                            "nth": rng.randint(1, 12), "err": rng.choice(["ENOSPC", "EIO", "EACCES", "EMFILE"]), "frac": gen.frac(rng),
                            "persist": rng.random() < 0.2}]
        elif r < 0.55:
            it["stops"] = [{"time": int(1e9 + rng.random() ** 2 * 2e9), "kind": "sigint"} if rng.random() < 0.5 else
                           {"at": rng.randint(1, 120), "kind": "sigint"}]
        if n and rng.random() < 0.15:
            c = rng.choice(sorted(its))
            it["files"] = {f"books/{c}/{rng.choice(['.env.json', '.requests.json', '.httpx.json', '.functions/x.json'])}":
                           rng.choice(["", "{\"SIM_A\": ", "[]", "{}", "{\"a\": 1}", "\xff"])}
        items.append(it)
    http.calm(items)
    yield {"suite": S, "spec": spec, "fp": True, "worlds": [{"items": items}]}


def delta(a, b):
    return {k: (a.get(k), b.get(k)) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)}


def judge(sc, results):
    out = []
    for k, r in enumerate(results[0]):
        if r.ended in ("hang", "spin"):
            break
        its = {c: it for c, it, *_ in project.case_names(r.suite)}
        begun = {}                  # process -> fingerprint before the running call or job
        for e in r.events:
            where = f"item {k} {[c['argv'] for c in r.item['calls']]}"
            if e[4] == "call_begin":
                begun[e[2]] = e[6]
            elif e[4] == "job":
                begun[e[2]] = e[6]
            elif e[4] in ("call_end", "jobend"):
                fp = e[8] if e[4] == "call_end" else e[6]
                d = delta(begun.get(e[2]) or {}, fp or {})
                if d.get("handlers") == ([], ["stderr"]):       # what the logging module does when an error is logged first
                    d.pop("handlers")
                if d.get("fns") and "fns" not in (begun.get(e[2]) or {}):      # the library was imported by the call
                    if fp["fns"] == CLEAN(fp["fns"]):
                        d.pop("fns")
                if d:
                    out.append(o.v("not-restored:" + ",".join(d), f"{where}: after {e[4]} {e[5:8]} the process differs: {d}; {o.tail(r)}"))
            elif e[4] == "start" and e[8] is not None:
                fp, base = e[8], begun.get(e[2]) or {}
                it = its.get(e[5], {})
                dec = [d[0] for d in it.get("dec", [])]
                bad = {}
                for n in VARS:
                    if n not in names(it, ("snap", "mock", "missing")) and fp["env"].get(n) != base.get("env", {}).get(n):
                        bad[n] = (base.get("env", {}).get(n), fp["env"].get(n))
                if not {"fns", "mockfns"} & set(dec) and fp.get("fns") != CLEAN(fp.get("fns", {})):
                    bad["fns"] = fp["fns"]
                if "requests" not in dec and not fp["send"]:
                    bad["send"] = False
                if "httpx" not in dec and not (fp["httpx"] and fp["ahttpx"]):
                    bad["httpx"] = False
                for n in ("stdout", "level", "get_adapter", "cwd"):
                    if fp.get(n) != base.get(n):
                        bad[n] = fp.get(n)
                if not fp["sessions"]:
                    bad["sessions"] = False
                if fp["stderr"] in ("none", "closed"):
                    bad["stderr"] = fp["stderr"]
                if bad:
                    out.append(o.v("leaked-into-case:" + ",".join(bad), f"{where}: {e[5]} finds {bad} at its start, before the call it was {base}"))
        if out:
            break
    return out


def CLEAN(fns):
    return {k: [] if k == "more" else True for k in fns}


def nontrivial(sc, results):
    return any(e[4] in ("start", "call_end") for r in results[0] for e in r.events) and "dec" in json.dumps(sc["suite"])


def probes(sc, results):
    out = []
    for r in results[0]:
        its = {c: it for c, it, *_ in project.case_names(r.suite)}
        started = set()
        for x in o.execs(r):
            started.add(x.case)
            for d in its.get(x.case, {}).get("dec", []):
                out.append(f"{d[0]}: body ended by {x.detail if x.how == 'raise' else x.how}")
        for c, v in o.record_map(r.after).items():
            if v == ["FAIL"] and c not in started and c in its and o.record_map(r.before).get(c) != v:
                out.append("failed before its body")
    return out
