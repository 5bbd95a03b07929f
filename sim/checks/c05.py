"""C05: exit status 0 means every selected case passed."""
from sim import gen, oracle as o

COUNT = {"quick": 480, "thorough": 14000}
NONTRIVIAL = "at least one selected case did not pass"
KINDS = ["ok", "ok", "diff", "fail", "raise:value", "raise:exit", "raise:exit0", "raise:cancel", "raise:base", "opaque", "taskexit"]


def body(rng, n, kind):
    if kind == "taskexit":
        b = gen.body(rng, n, "ok")
        b.insert(1, ["gather", [[["asleep", 0.01], ["raise", "exit0"]], [["asleep", 0.02]]]])
        return b
    return gen.body(rng, n, kind)


def scenarios(rng, run, tier, i):
    n = rng.choice([1, 2, 3, 4, 5, 6])
    S = gen.suite(rng, n, mods=rng.choice([1, 2]), p_dep=0.25, p_async=0.4, p_setup=0.25, odd=rng.random() < 0.25)
    spec = gen.spec(rng, S)
    asyncs = set()
    for mod in S["modules"]:
        for it in mod["items"]:
            pass
    items = []
    if rng.random() < 0.8:
        items.append(gen.item(["-a"], rng))
    for k in range(rng.choice([1, 2, 3])):
        mode = rng.random()
        par = gen.pflag(rng) if rng.random() < 0.5 else []
        if mode < 0.2 and items:
            argv = ["-w"] + rng.choice([[], ["-i"], ["-i"], ["-I"], ["-a"], ["-u"], ["-c", "-i"], ["-f", "-i"], ["-f"]])
        else:
            argv = par + rng.choice([[], [], [], ["-f"], ["-c"], ["-a"], ["-u"], ["-i"], ["-I"], ["-i", "-f"], ["-c", "-f"],
                                     ["-a", "-f"], ["-v"], ["-I", "-c"], ["-c", "-a"]])
        if argv[:1] != ["-w"] and rng.random() < 0.04:
            argv = argv + ["--cov"]
        it = gen.item(argv + gen.selection(rng, S, 0.3), rng)
        p = rng.choice([0, 0.15, 0.3, 0.6])
        it["spec"] = {}
        for c, item, *_ in o.project.case_names(S):
            if rng.random() < p:
                kind = rng.choice(KINDS)
                if kind == "taskexit" and not item.get("async"):
                    kind = "fail"
                it["spec"][c] = body(rng, c, kind)
        it["answers"] = [rng.choice(["a", "a", "c", "c", "c", "q", "v", "d", "D", "l", "", "x", "y", "A"]) for _ in range(rng.choice([4, 12, 30]))] + ["c"] * 8
        if rng.random() < 0.12:
            it["stops"] = [{"at": rng.randint(5, 40 * n), "kind": rng.choice(["sigint", "sigint_main"])}]
        elif rng.random() < 0.08 and S.get("setup"):
            it["setup_fail"] = rng.choice(["setup", "teardown"])
        elif rng.random() < 0.12:
            it["rules"] = [{"kinds": rng.choice([["write"], ["open_w"], ["rename"], ["open_r"]]), "glob": rng.choice(
                ["books/*", "books/.out/*", "books/.out/*.md", "books/.out/*.bin*", "books/.out/*cases.txt", "books/simbook/*"]),
                "nth": rng.randint(1, 12), "persist": rng.random() < 0.4, "err": rng.choice(["ENOSPC", "EIO", "EACCES"]), "frac": gen.frac(rng)}]
        items.append(it)
    yield {"suite": S, "spec": spec, "worlds": [{"items": items}]}


def passed_cases(r, argv):
    """(cases that passed, were accepted or skipped as passed; the other selected cases), by what was observed"""
    sel = o.selected(r.suite, argv, r.before)
    todo = o.todo(r.suite, argv, r.before)
    by = {}
    for x in o.execs(r):
        by.setdefault(x.case, []).append(x)
    okay, bad = set(), {}
    for c in sel:
        if c not in todo:
            okay.add(c)
            continue
        if c not in by or by[c][-1].how is None:
            bad[c] = "not executed"
            continue
        x = by[c][-1]
        steps = r.spec.get(c, [])
        v = o.verdict(steps, x, o.expect(r.before, c))
        if not o.storable(steps):
            v = o.FAIL
        if v == o.DIFF:
            if o.expect(r.after, c) == o.out_text(steps, x):
                v = o.OK
        if v == o.OK:
            okay.add(c)
        else:
            bad[c] = f"{v} {x}"
    return okay, bad


def judge(sc, results):
    out = []
    for r in results[0]:
        argv = r.item["calls"][0]["argv"]
        s = o.call_status(r)
        if r.ended in ("hang", "spin"):
            if not r.stopinfo:
                out.append(o.v("hang", f"{argv} {r.hang}"))
            break
        if s is None:
            continue
        zero = o.good(r)
        inputs = [e[6] for e in o.evs(r, "input")]
        faults = o.evs(r, "fault")
        if "-w" in argv:
            if s[0] == "raise":
                continue
            recs = o.records(r.after)
            allok = all(v == "OK" for n, v, d in recs)
            if zero != allok and not r.stopinfo and not faults:
                out.append(o.v("review-status", f"{argv}: status {s}, records {[(n, v) for n, v, d in recs]}"))
            continue
        okay, bad = passed_cases(r, argv)
        if zero and bad and "q" not in inputs:
            out.append(o.v("zero-status", f"{argv}: status {s} with {bad}; faults {faults} stop {r.stopinfo}; {o.tail(r)}"))
        if not zero and not bad and not faults and not r.stopinfo and not r.item.get("setup_fail") and None not in inputs:
            out.append(o.v("nonzero-status", f"{argv}: status {s} though everything passed {sorted(okay)}; {o.tail(r)}"))
        if out:
            break
    return out


def nontrivial(sc, results):
    for r in results[0]:
        argv = r.item["calls"][0]["argv"]
        if o.is_run(argv) and r.calls and passed_cases(r, argv)[1]:
            return True
    return False


def probes(sc, results):
    out = []
    for r in results[0]:
        s = o.call_status(r)
        out.append("status " + str(s))
    return out
