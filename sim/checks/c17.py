"""C17: process set-up and tear-down, and the set-up/tear-down decorator, always come in pairs."""
import copy
from sim import gen, oracle as o, project

COUNT = {"quick": 160, "thorough": 4800}
NONTRIVIAL = "bodies ran inside a process set-up or a set-up decorator, in a run where a case failed, was interrupted or met a fault"
KINDS = ["ok", "ok", "diff", "fail"] + ["raise:" + k for k in ("value", "os", "exit", "exit0", "cancel", "kbd", "genexit", "base", "assert", "badstr", "oddmsg")] + ["opaque"]
FLAGS = [[], [], [], ["-f"], ["-a"], ["-i"], ["-c"], ["-u"], ["-v"], ["-f", "-c"], ["-I", "-f"], ["-S"], ["-s"]]
OTHER = [["-l"], ["-w"], ["-w", "-i"], ["--garbage"], ["--path"], ["--config"], ["--forget"], ["--print"]]


def decorate(rng, it):
    z = rng.random()
    dec = [["setup"]]
    if z < 0.2:
        dec.append(["setup"])
    if z < 0.55:
        dec.append(rng.choice([["snap", ["SIM_A"]], ["mock", {"SIM_A": "m"}], ["missing", {"SIM_B": "b"}], ["fns", ["f0"]], ["fns", ["unpatchable"]],
                               ["mockfns", [["f0", "mock0"]]], ["httpx", {}], ["requests", {}]]))
        rng.shuffle(dec)
    it["dec"] = dec


def scenarios(rng, run, tier, i):
    n = rng.choice([1, 2, 3, 4, 6])
    S = gen.suite(rng, n, mods=rng.choice([1, 2]), p_dep=0.25, p_res=0.1, p_setup=0.8, p_async=0.4, odd=rng.random() < 0.2)
    for c, it, *_ in project.case_names(S):
        if rng.random() < 0.4 and "dec" not in it:
            decorate(rng, it)
    ns = gen.names(S)
    spec = gen.spec(rng, S)
    items = []
    if rng.random() < 0.8:
        items.append(gen.item(["-a", "-s"], rng, env={"SIM_A": "1"}))
    k = None
    for _ in range(rng.choice([1, 1, 2])):
        par = gen.pflag(rng) if rng.random() < 0.5 else []
        if rng.random() < 0.1:
            it = gen.item(rng.choice(OTHER), rng)
        else:
            it = gen.item(par + rng.choice(FLAGS) + gen.selection(rng, S, 0.2), rng)
            if rng.random() < 0.15:
                it["calls"].append({"argv": (gen.pflag(rng) if rng.random() < 0.3 else []) + rng.choice(FLAGS) + gen.selection(rng, S, 0.3)})
        p = rng.choice([0, 0.3, 0.7])
        it["spec"] = {c: gen.body(rng, c, rng.choice(KINDS)) for c in ns if rng.random() < p}
        for c in it["spec"]:
            if rng.random() < 0.2:
                it["spec"][c].insert(rng.randint(0, len(it["spec"][c])), ["asleep", 0.01 + rng.random()])
        it["answers"] = [rng.choice(["c", "c", "a", "q", "x", "^C"]) for _ in range(30)] + ["c"] * 20
        if rng.random() < 0.08:
            it["setup_fail"] = rng.choice(["setup", "teardown"])
        if rng.random() < 0.2:
            it["rules"] = [{"kinds": rng.choice([["write"], ["open_w"], ["rename"], ["open_r"], ["mkdir"], ["remove", "rmdir"]]),
                            "glob": rng.choice(["books/*", "books/.out/*", "books/.out/*.md", "books/.out/cases.txt", "books/index.md"]),
                            "nth": rng.randint(1, 10), "persist": rng.random() < 0.3, "err": rng.choice(["ENOSPC", "EIO", "EACCES"]),
                            "frac": gen.frac(rng)}]
        items.append(it)
        k = len(items) - 1
    sc = {"suite": S, "spec": spec, "worlds": [{"items": items}]}
    yield sc
    probe = copy.deepcopy(sc)
    r = run(probe)[0][k]
    total = max(r.ops, 2)
    par = any(o.is_parallel(c["argv"]) for c in items[k]["calls"])
    for j in range(2):
        s = copy.deepcopy(sc)
        kind = rng.choice(["sigint", "sigint", "sigint_main"]) if par else "sigint"
        if rng.random() < 0.6:
            st = {"at": rng.randint(1, total), "kind": kind}
        else:
            st = {"time": int(r.sim_ns * rng.random()) if r.sim_ns < 30 * 10**9 else int(3e9 * rng.random()), "kind": kind}
        s["worlds"][0]["items"][k]["stops"] = [st]
        yield s


def judge(sc, results):
    out = []
    for n, r in enumerate(results[0]):
        if r.ended in ("hang", "spin"):
            break
        where = f"item {n} {[c['argv'] for c in r.item['calls']]} stop {r.stopinfo} faults {o.evs(r, 'fault')}"
        out += processes(r, where) + decorators(r, where)
        if out:
            break
    return out


def spans(r):
    """[(what, proc, first seq, last seq or None, argv)]: every sequential run, and every job of a parallel run"""
    out = []
    calls = []
    for i, c in enumerate(r.item["calls"]):
        b = [e[0] for e in o.evs(r, "call_begin") if e[5] == i]
        e = [e[0] for e in o.evs(r, "call_end") if e[5] == i]
        if b:
            calls.append((c["argv"], b[0], e[0] if e else None))
    for argv, b, e in calls:
        out.append(("parallel main" if o.is_parallel(argv) else "run" if o.is_run(argv) else "command", 0, b, e, argv))
    open_ = {}
    for e in r.events:
        if e[4] == "job":
            open_[(e[2], e[5])] = e[0]
        elif e[4] == "jobend" and (e[2], e[5]) in open_:
            out.append(("job", e[2], open_.pop((e[2], e[5])), e[0], None))
        elif e[4] == "worker" and e[5] == "death":
            for k in [k for k in open_ if k[0] == e[2]]:
                out.append(("job", e[2], open_.pop(k), e[0], None))
    for (p, j), b in open_.items():
        out.append(("job", p, b, None, None))
    return out


def processes(r, where):
    out = []
    if not r.suite.get("setup"):
        return out
    for what, proc, b, e, argv in spans(r):
        inside = [x for x in r.events if x[2] == proc and x[0] > b and (e is None or x[0] < e) and x[4] in ("setup", "start", "end")]
        if what == "command":
            inside = [x for x in inside if x[4] == "setup"]
        state, ups, downs = 0, 0, 0
        seq = [(x[5] if x[4] == "setup" else x[4] + " " + x[5]) for x in inside]
        here = f"{where}: {what} of process {proc}: {seq}"
        for x in inside:
            if x[4] == "setup" and x[5] == "setup":
                ups += 1
                if state:
                    out.append(o.v("setup-twice", f"{here}: set-up inside a set-up"))
                state = 1
            elif x[4] == "setup" and x[5] == "teardown":
                downs += 1
                if not state:
                    out.append(o.v("teardown-twice", f"{here}: tear-down without a set-up"))
                state = 0
            elif x[4] in ("start", "end") and not state:
                out.append(o.v("outside-setup", f"{here}: {x[5]} {x[4]}s outside the set-up"))
        if ups > 1 or downs > 1:
            out.append(o.v("not-once", f"{here}: {ups} set-ups and {downs} tear-downs"))
        if what == "parallel main" and ups:
            out.append(o.v("not-once", f"{here}: set-up in the main process of a parallel run"))
        if state and alive(r, proc, e):
            out.append(o.v("teardown-missing", f"{here}: no tear-down"))
        if out:
            break
    return out


def alive(r, proc, e):
    """Whether the process got the chance to tear down"""
    if e is not None:
        return True
    # a second Ctrl-C forces a parallel run to end
    return r.ended == "exit" and bool(r.stopinfo) + sum(1 for x in o.evs(r, "input") if x[6] == "^C") < 2


def decorators(r, where):
    out = []
    count = {c: sum(1 for d in it.get("dec", []) if d[0] == "setup") for c, it, *_ in project.case_names(r.suite)}
    for proc in sorted({e[2] for e in o.evs(r, "deco")} | {e[2] for e in o.evs(r, "start")}):
        depth, seq, last = 0, [], 0
        for e in r.events:
            if e[2] != proc or e[4] not in ("deco", "start", "end"):
                continue
            seq.append((e[5] if e[4] == "deco" else e[4] + " " + e[5]))
            if e[4] == "deco":
                depth += 1 if e[5] == "setup" else -1
            elif depth != count[e[5]]:
                out.append(o.v("decorator-pairs", f"{where}: process {proc}: {seq}: {e[5]} {e[4]}s inside {depth} set-ups of {count[e[5]]}"))
                break
            if depth < 0:
                out.append(o.v("decorator-pairs", f"{where}: process {proc}: {seq}: tear-down without a set-up"))
                break
        if depth > 0 and not out and alive(r, proc, None):
            out.append(o.v("decorator-teardown-missing", f"{where}: process {proc}: {seq}: no tear-down"))
        if out:
            break
    return out


def nontrivial(sc, results):
    return any(o.execs(r) and (r.suite.get("setup") or o.evs(r, "deco")) and
               (r.stopinfo or o.faulted_run(r) or any(x.how != "return" for x in o.execs(r))) for r in results[0])


def probes(sc, results):
    out = []
    for r in results[0]:
        if r.stopinfo and any(b < r.stopinfo[4] and (e is None or r.stopinfo[4] < e) for w, p, b, e, a in spans(r) if w == "job"):
            out.append("interrupt during a job")
        for e in o.evs(r, "setup"):
            out.append("process " + e[5])
    return out
