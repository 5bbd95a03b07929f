"""C07: expectations change only by accepting, under this invocation's flags."""
import copy
from sim import gen, oracle as o, accept, project

COUNT = {"quick": 420, "thorough": 12000}
NONTRIVIAL = "a case that differed, failed or passed without being accepted was left alone, next to one that was accepted or an " \
             "invocation that was stopped"
KINDS = ["ok", "diff", "diff", "diff", "fail", "fail", "raise:value", "opaque"]
CMDS = [["-l"], ["-w"], ["-w", "-i"], ["-w", "-i"], ["-w", "-I"], ["-w", "-a"], ["-w", "-c", "-i"], ["--garbage"], ["--clean"], ["--path"],
        ["--print"], ["--forget"], ["--config"], ["-w", "-u"], ["--view"], ["-w", "-f", "-i"]]
RUNS = [[], [], [], ["-a"], ["-u"], ["-i"], ["-I"], ["-f"], ["-c"], ["-a", "-f"], ["-u", "-f"], ["-v"], ["-i", "-v"], ["-s"], ["-S"],
        ["-c", "-a"], ["-r"], ["-L"], ["-i", "-f"], ["-I", "-v"]]


def bodies(rng, S, p):
    out = {}
    for c in gen.names(S):
        if rng.random() < p:
            out[c] = body(rng, c, rng.choice(KINDS), rng.choice([1, 1, 2]))
    return out


def body(rng, c, kind="ok", ver=1, p=0.4):
    b = gen.body(rng, c, kind, ver=ver)
    if rng.random() < p:
        b.insert(rng.randint(0, len(b) - 1), ["file", rng.choice(["snap.txt", "b.json"]), f"content {ver} {kind}"])
    return b


def inside(rng):
    """A case whose name is inside another one's: function one of alpha_test.py, and a method of an instance called simbook/alpha/one"""
    S = {"modules": [{"file": "alpha_test.py", "items": [
        {"kind": "func", "name": "one"}, {"kind": "func", "name": "two"},
        {"kind": "class", "name": "Beta", "methods": [{"name": "x"}], "instances": [["obj", "simbook/alpha/one"]]}]}]}
    rng.salt = str(rng.getrandbits(20))
    spec = {c: body(rng, c, p=0.5) for c in gen.names(S)}
    items = [gen.item(["-a", "simbook/alpha/one/x", "simbook/alpha/two"], rng)]
    for _ in range(rng.choice([1, 2])):
        it = gen.item(rng.choice(RUNS) + rng.choice([["simbook/alpha/one"], ["simbook/alpha/two"], ["simbook/alpha/one/x"], []]), rng)
        it["spec"] = bodies(rng, S, 0.5)
        it["answers"] = [rng.choice("acc") for _ in range(8)] + ["c"] * 20
        items.append(it)
    return {"suite": S, "spec": spec, "worlds": [{"items": items}]}


def scenarios(rng, run, tier, i):
    if i % 40 == 39:
        yield inside(rng)
        return
    n = rng.choice([1, 2, 3, 4, 5])
    S = gen.suite(rng, n, mods=rng.choice([1, 2]), p_dep=0.2, p_res=0.1, p_setup=0.2, odd=rng.random() < 0.25)
    snaps = {}
    if rng.random() < 0.35:
        for c, it, *_ in project.case_names(S):
            if rng.random() < 0.6 and not it.get("dec"):
                it["dec"] = [["snap", rng.sample(["SIM_A", "SIM_B"], rng.choice([1, 2]))]]
        snaps = {c for c, it, *_ in project.case_names(S) if it.get("dec")}
    spec = {c: body(rng, c) for c in gen.names(S)}
    items = []
    if rng.random() < 0.8:
        items.append(gen.item(["-a"] + (["-s"] if snaps else []) + gen.selection(rng, S, 0.2), rng))
    for k in range(rng.choice([1, 2, 3, 4])):
        m = rng.random()
        if m < 0.3 and items:
            it = gen.item(rng.choice(CMDS) + gen.selection(rng, S, 0.3), rng)
        elif m < 0.5:
            # several invocations in one process: flags of one must not reach the next
            it = gen.item([], rng)
            api = rng.choice(["cli", "exec"])
            it["calls"] = [{"api": api, "argv": rng.choice(RUNS) + gen.selection(rng, S, 0.6)} for _ in range(rng.choice([2, 3]))]
            for c in it["calls"]:
                if api == "exec" and not o.positional(c["argv"]):
                    c["argv"].append("simbook")
        else:
            par = gen.pflag(rng) if rng.random() < 0.4 else []
            it = gen.item(par + rng.choice(RUNS) + (rng.choice([[], ["-s"], ["-S"]]) if snaps else []) + gen.selection(rng, S, 0.3), rng)
        it["spec"] = bodies(rng, S, rng.choice([0.2, 0.5, 0.8]))
        it["answers"] = [rng.choice(["a", "a", "c", "c", "c", "q", "v", "l", "x", "", "d", "A", "y"]) for _ in range(30)] + ["c"] * 20
        z = rng.random()
        if z < 0.2:
            it["stops"] = [{"at": rng.randint(1, 40 * n), "kind": rng.choice(["kill", "torn", "sigint", "killmain"]), "frac": gen.frac(rng)}]
        elif z < 0.32:
            it["rules"] = [{"kinds": rng.choice([["write"], ["open_w"], ["rename"], ["remove", "rmdir"], ["mkdir"], ["open_r"]]),
                            "glob": rng.choice(["books/*", "books/simbook/*", "books/.out/*.md", "books/.out/*", "books/simbook/*/*"]),
                            "nth": rng.randint(1, 8), "persist": rng.random() < 0.3, "err": rng.choice(["ENOSPC", "EIO", "EACCES"]),
                            "frac": gen.frac(rng)}]
        items.append(it)
    for it in items if snaps else []:
        it["env"] = {n: rng.choice(["1", "2", "three"]) for n in ["SIM_A", "SIM_B"] if rng.random() < 0.8}
    yield {"suite": S, "spec": spec, "worlds": [{"items": items}]}


def judge(sc, results):
    out = []
    ledger = {}
    for n, r in enumerate(results[0]):
        argv = [c["argv"] for c in r.item["calls"]]
        if r.ended in ("hang", "spin"):
            break
        oc = accept.judge_invocation(r, ledger)
        decorated = {c: it.get("dec") for c, it, *_ in project.case_names(r.suite)}
        begun = {e[5] for e in o.evs(r, "start")} | {p[1] for p in accept.prompts(r)}
        for c, x in oc.items():
            got = accept.state(r.after, c)
            if any(c.startswith(other + "/") for other in begun - {c}) and x.new is None:
                # known finding: the folder of the case around it was emptied, moved or removed
                if got.md is None and x.old.md is not None or got.md == x.old.md and got.dir != x.old.dir:
                    out.append(o.v("nested-names", f"item {n} {argv}: the expectation of {c} was {x.old.md!r} {x.old.dir}, is "
                                                   f"{got.md!r} {got.dir}, after {sorted(begun)} ran", where="case inside the folder of another"))
                    continue
            if decorated.get(c):
                # its verdict depends on its snapshots: anything that may have accepted it
                if any(set(a) & {"-a", "-u"} for a in argv) or any(p[1] == c and p[2] == "a" for p in accept.prompts(r)):
                    continue
                x.new = None
            if got.md != x.old.md and x.new is None:
                out.append(o.v("changed-unaccepted", f"item {n} {argv} stop {r.stopinfo} faults {o.evs(r, 'fault')}: the expectation of {c} "
                                                     f"was {x.old.md!r}, is {got.md!r}, though nothing accepted it; prompts {accept.prompts(r)}"))
            elif x.new is None and got.dir != x.old.dir and not any(other.startswith(c + "/") for other in oc):
                out.append(o.v("snapshots-changed-unaccepted", f"item {n} {argv} stop {r.stopinfo} faults {o.evs(r, 'fault')}: the snapshots "
                                                               f"of {c} were {x.old.dir}, are {got.dir}"))
        if out:
            break
    return out


def nontrivial(sc, results):
    ledger = {}
    for r in results[0]:
        oc = accept.judge_invocation(r, ledger)
        done = {x.case for x in o.execs(r)}
        left = [c for c, x in oc.items() if c in done and x.new is None]
        took = [c for c, x in oc.items() if x.new is not None]
        if left and (took or r.stopinfo):
            return True
    return False


def probes(sc, results):
    ledger = {}
    out = []
    for r in results[0]:
        for c, x in accept.judge_invocation(r, ledger).items():
            if x.why:
                out.append("accepted: " + x.why)
    return out
