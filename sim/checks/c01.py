"""C01: a parallel run terminates and accounts for every selected case once."""
import random
from sim import gen, oracle as o, project

COUNT = {"quick": 300, "thorough": 9000}
NONTRIVIAL = "a parallel run executed at least two cases on at least two workers, or a job broke"

BREAK = ["raise:value", "raise:custom", "raise:os", "raise:exit", "raise:exit0", "raise:cancel", "raise:base",
         "raise:genexit", "raise:badstr", "raise:oddmsg", "opaque", "opaque", "fail", "diff", "diff", "unreadable", "direxp", "w:md", "w:bin", "w:log",
         "w:txt", "w:report", "open:md", "open:report"]


def scenarios(rng, run, tier, i):
    n = rng.choice([2, 3, 4, 5, 6, 7, 8]) if i % 8 else rng.choice([10, 14])
    S = gen.suite(rng, n, mods=rng.choice([1, 2, 3]), odd=rng.random() < 0.4)
    spec = gen.spec(rng, S)
    sc = {"suite": S, "spec": spec, "worlds": [{"items": []}]}
    items = sc["worlds"][0]["items"]
    if rng.random() < 0.7:
        items.append(gen.item(["-a"], rng))
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        # an earlier parallel run leaves things behind: other selection, other outcomes, perhaps killed half-way
        it = gen.item(gen.pflag(rng) + rng.choice([[], ["-c"]]) + gen.selection(rng, S), rng)
        breakers(rng, S, spec, it, 0.3)
        if rng.random() < 0.4:
            it["stops"] = [{"at": rng.randint(1, 60 * n), "kind": rng.choice(["kill", "kill", "torn", "killmain"]), "frac": gen.frac(rng)}]
        items.append(it)
    it = gen.item(gen.pflag(rng) + rng.choice([[], [], ["-c"], ["-a"], ["-v"], ["-u"], ["-r"], ["-a", "-u"]])
                  + gen.selection(rng, S, 0.4), rng)
    breakers(rng, S, spec, it, rng.choice([0, 0.1, 0.3, 0.5]))
    if S.get("setup") and rng.random() < 0.2:
        it["setup_fail"] = rng.choice(["setup", "teardown"])
    items.append(it)
    if rng.random() < 0.35:
        it["lines"] = rng.choice([1, 1, "instr"])
    if i % 50 == 7:
        it["stops"] = [{"time": int((0.1 + rng.random()) * 1e9), "kind": "killworker", "who": rng.randrange(8)}]
    yield sc


def breakers(rng, S, spec, it, p):
    it["spec"] = {}
    it["files"] = {}
    it["rules"] = []
    for n in gen.names(S):
        if rng.random() >= p:
            continue
        k = rng.choice(BREAK)
        if k == "unreadable":
            it["files"][f"books/{n}.md"] = "case \udcff\udcfe broken\n"
        elif k == "direxp":
            it["files"][f"books/{n}.md"] = None
            it["files"][f"books/{n}.md/"] = ""
        elif k.startswith(("w:", "open:")):
            kind, ext = k.split(":")
            glob = f"books/.out/{n}.{ext}" if ext != "report" else f"books/.out/.batches/*{n.split('/')[-1]}/cases.txt"
            it["rules"].append({"kinds": ["write"] if kind == "w" else ["open_w"], "glob": glob.replace("[", "?"), "nth": 1,
                                "persist": rng.random() < 0.5, "err": rng.choice(["ENOSPC", "EIO", "EACCES"]),
                                "frac": gen.frac(rng), "role": "worker"})
        else:
            it["spec"][n] = gen.body(rng, n, k)


def judge(sc, results):
    out = []
    for r in results[0]:
        argv = r.item["calls"][0]["argv"]
        if r.stopinfo and r.stopinfo[0] == "killworker":
            if r.ended == "hang" and r.lost_jobs:
                out.append(o.v("hang-worker-killed", f"{argv}: a worker was killed while it executed a case, the run hangs: {r.hang}",
                               where="worker process killed"))
            continue
        if not o.is_parallel(argv) or r.item.get("stops"):
            if r.ended in ("hang", "spin") and o.is_parallel(argv) and not r.stopinfo:
                out.append(o.v("hang", f"{argv}: {r.ended} {r.hang} {o.tail(r)}"))
            continue
        out += judge_run(r, argv)
        if out:
            break
    return out


def faulted(r, case):
    """cases whose own files met a fault"""
    out = []
    for e in o.evs(r, "fault"):
        p = e[7]
        if p.startswith(f"books/.out/{case}.") or p == f"books/{case}.md" or \
                (p.startswith("books/.out/.batches/") and p.split("/")[3].endswith(case.split("/")[-1])):
            out.append(p)
    return out


def judge_run(r, argv):
    out = []
    if r.ended != "exit":
        return [o.v("hang", f"{argv}: ended={r.ended} {r.hang} {o.tail(r)}")]
    st = o.call_status(r)
    if st is None or st[0] == "raise":
        return [o.v("run-crashed", f"{argv}: {st} {o.tail(r)}")]
    todo = o.todo(r.suite, argv, r.before)
    ex = o.execs(r)
    by = {}
    for x in ex:
        by.setdefault(x.case, []).append(x)
    for c, xs in by.items():
        if c not in todo:
            out.append(o.v("executed-unselected", f"{argv}: {c} was not to be executed"))
        if len(xs) > 1:
            out.append(o.v("executed-twice", f"{argv}: {c} executed {len(xs)} times"))
    recs = {}
    for n, verdict, d in o.records(r.after):
        if n is None:
            out.append(o.v("garbled-report", f"{argv}: line {verdict!r}"))
        else:
            recs.setdefault(n, []).append(verdict)
    if out:
        return out
    for c in sorted(todo):
        if c not in recs:
            out.append(o.v("case-lost", f"{argv}: no report line for {c}; {o.tail(r)}"))
            continue
        if len(recs[c]) > 1:
            out.append(o.v("case-duplicated", f"{argv}: {c} has lines {recs[c]}"))
            continue
        got = recs[c][0]
        f = faulted(r, c)
        exppath = f"books/{c}.md"
        unreadable = exppath + "/" in r.before or (r.before.get(exppath) is not None and not utf8(r.before[exppath]))
        if c not in by:
            cause = r.item.get("setup_fail") == "setup" or f or unreadable or dep_problem(r, argv, c, recs)
            if not cause:
                out.append(o.v("not-executed", f"{argv}: {c} was selected but never executed (reported {got}); {o.tail(r)}"))
            elif got != "FAIL":
                out.append(o.v("unexecuted-not-failed", f"{argv}: {c} could not be executed but is reported {got}"))
            continue
        x = by[c][0]
        steps = r.spec.get(c, [])
        want = o.verdict(steps, x, o.expect(r.before, c))
        if want == "DIFF" and "-a" in argv:
            want = "OK"
        if x.how == "return" and not o.storable(steps):
            want = "FAIL"
        allowed = {want}
        if unreadable:
            allowed = {"FAIL", "DIFF"}
        elif r.item.get("setup_fail") == "teardown":
            allowed = {want, "FAIL"}
        elif f:
            allowed = {"FAIL"}
            own = o.out_text(steps, x)
            soft = all(not p.endswith((".md", ".bin")) for p in f)
            if soft:
                allowed.add(want)
        if got not in allowed:
            out.append(o.v("wrong-result", f"{argv}: {c} is reported {got}, its own execution gives {sorted(allowed)}; {x} {o.tail(r)}"))
    pre = o.record_map(r.before)
    for c, vs in pre.items():
        if c in todo:
            continue
        if recs.get(c) != vs:
            out.append(o.v("unselected-line", f"{argv}: line of {c} was {vs}, is {recs.get(c)}"))
    for c in recs:
        if c not in todo and c not in pre:
            out.append(o.v("invented-line", f"{argv}: a line for {c} appeared"))
    return out


def utf8(b):
    try:
        b.decode("utf-8")
        return True
    except UnicodeDecodeError:
        return False


def dep_problem(r, argv, c, recs):
    for d in o.dep_names(r.suite, c):
        if d in recs and recs[d][0] == "FAIL" or not o.has_bin(r.after, d):
            return True
    return False


def nontrivial(sc, results):
    for r in results[0]:
        if o.is_parallel(r.item["calls"][0]["argv"]):
            ex = o.execs(r)
            if len({x.proc for x in ex}) >= 2 or any(e[4] == "fault" for e in r.events):
                return True
    return False


def probes(sc, results):
    out = []
    for r in results[0]:
        if o.is_parallel(r.item["calls"][0]["argv"]):
            for x in o.execs(r):
                if x.how == "raise":
                    out.append("body raised " + str(x.detail))
            out += ["fault fired" for e in o.evs(r, "fault")]
    return out
