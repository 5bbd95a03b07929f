"""C18: failing disk operations never yield a pass or a damaged expectation."""
import copy, json
from sim import gen, oracle as o, accept, project
from .c16 import reported

COUNT = {"quick": 90, "thorough": 2600}
NONTRIVIAL = "a file operation of a run or a review failed, and the next run met no fault"
KINDS = ["ok", "ok", "ok", "diff", "fail", "raise:value", "opaque"]
FLAGS = [[], [], [], ["-a"], ["-a"], ["-u"], ["-a", "-u"], ["-c"], ["-f"], ["-v"], ["-s"], ["-S"], ["-s", "-a"], ["-S", "-a"], ["-i"], ["-c", "-a"],
         ["-L"], ["-r"]]
ERRS = ["ENOSPC", "ENOSPC", "EIO", "EACCES", "EROFS", "EMFILE"]


def decorate(rng, it):
    it["dec"] = [rng.choice([["snap", ["SIM_A", "SIM_B"]], ["fns", ["f0"]], ["fns", ["f0", "f1"]]])]


def extra(rng, it, steps, ver):
    for d in it.get("dec", []):
        if d[0] == "fns":
            for _ in range(rng.choice([1, 2])):
                steps.insert(rng.randint(1, len(steps) - 1), ["call", rng.choice(d[1]), [rng.choice([1, 2])], {}])
        else:
            steps.insert(1, ["getenv", "SIM_A"])
    if rng.random() < 0.45:
        steps.insert(rng.randint(1, len(steps) - 1), ["file", rng.choice(["snap.txt", "b.json"]), f"content {ver} " + "z" * rng.choice([0, 30, 9000])])
    if rng.random() < 0.15:
        steps.insert(rng.randint(1, len(steps) - 1), ["tmp", "t.txt", "temp"])
    if rng.random() < 0.1:
        steps[1:1] = [["t", "line %d " % i + "y" * 60] for i in range(rng.choice([20, 200]))]
    return steps


def scenarios(rng, run, tier, i):
    n = rng.choice([1, 2, 3, 4, 5])
    S = gen.suite(rng, n, mods=rng.choice([1, 2]), p_dep=0.35, p_res=0.1, p_setup=0.2, odd=rng.random() < 0.2)
    its = {c: it for c, it, *_ in project.case_names(S)}
    for it in its.values():
        if rng.random() < 0.3 and "dec" not in it:
            decorate(rng, it)
    spec = {c: extra(rng, it, gen.body(rng, c), 1) for c, it in its.items()}
    env = {"SIM_A": "a value", "SIM_B": "b"}
    items = []
    if rng.random() < 0.85:
        items.append(gen.item(["-s", "-a"], rng, env=env))
    par = gen.pflag(rng) if rng.random() < 0.35 else []
    over = {c: extra(rng, it, gen.body(rng, c, rng.choice(KINDS), ver=rng.choice([1, 1, 2])), 2) for c, it in its.items()
            if rng.random() < rng.choice([0, 0.3, 0.7])}
    answers = [rng.choice(["a", "a", "c", "v", "l"]) for _ in range(20)] + ["c"] * 20
    if rng.random() < 0.15 and items:
        items.append(gen.item(rng.choice([[], ["-s"]]), rng, env=env, spec=dict(over)))
        f = gen.item(["-w"] + rng.choice([["-a"], ["-i"], ["-I"], ["-a", "-u"]]) + gen.selection(rng, S, 0.15), rng, env=env, answers=answers)
    else:
        f = gen.item(par + rng.choice(FLAGS) + gen.selection(rng, S, 0.2), rng, env=env, answers=answers)
    f["spec"] = over
    left = "-w" not in f["calls"][0]["argv"] and rng.random() < 0.12
    if left:
        # an execution leaves files in its folder, the next one does not make them
        items.append(gen.item(["-s"], rng, env=env, spec={c: b[:1] + [["file", "left.txt", "left over"]] + b[1:] for c, b in spec.items()}))
        if rng.random() < 0.7:
            f["calls"] = [{"argv": ["-s", "-a", "-u"]}]
    items.append(f)
    k = len(items) - 1
    after = dict(over) if rng.random() < 0.7 else {}
    snap = rng.choice([["-s"], ["-s"], ["-S"]])
    items.append(gen.item((gen.pflag(rng) if rng.random() < 0.3 else []) + snap + rng.choice([[], [], ["-c"], ["-c"], ["-a"], ["-c", "-a"]]) +
                          gen.selection(rng, S, 0.1), rng, env=env, spec=after))
    if rng.random() < 0.4:
        items.append(gen.item((gen.pflag(rng) if rng.random() < 0.3 else []) + ["-s"] + rng.choice([[], ["-c"]]), rng, env=env, spec=dict(after)))
    clean = copy.deepcopy(items)
    probe = {"suite": S, "spec": spec, "worlds": [{"items": copy.deepcopy(items[:k + 1])}]}
    probe["worlds"][0]["items"][k]["oplog"] = True
    probe["worlds"][0]["items"][k]["watch"] = ["\tFAIL\t", "\tDIFF\t", "\tOK\t"]
    r = run(probe)[0][k]
    log = [e for e in o.evs(r, "op") if e[6] in ("open_w", "write", "rename", "remove", "mkdir", "rmdir") and e[7] and not e[7].endswith(".py")]
    writes = [e for e in log if not e[7].endswith((".txt", ".log"))]
    for j in range(6):
        s = {"suite": S, "spec": spec, "worlds": [{"items": copy.deepcopy(items)}, {"items": clean}]}
        z = rng.random()
        if z < 0.65 and log:
            e = rng.choice(writes if writes and rng.random() < 0.6 else log)
            nth = 1 + sum(1 for x in log if x[0] < e[0] and x[6] == e[6] and x[7] == e[7])
            rule = {"kinds": [e[6]], "glob": e[7].replace("[", "?"), "nth": nth}
            if rng.random() < 0.3:
                rule["kinds"] = list(dict.fromkeys([e[6], "write", "open_w"]))
        elif z < 0.82:
            rule = {"kinds": rng.choice([["open_r"], ["read"], ["open_r", "read"], ["list"], ["rename_src"]]),
                    "glob": rng.choice(["books/simbook/*.md", "books/simbook/*", "books/.out/*", "books/.out/*.bin", "books/.out/*cases.txt",
                                        "books/simbook/*.json", "*", "books/.out/.batches/*"]), "nth": rng.randint(1, 5)}
        else:
            rule = {"kinds": ["write", "open_w", "mkdir"] + rng.choice([[], ["rename"]]), "glob": rng.choice(["*", "books/.out/*", "books/simbook/*"]),
                    "nth": rng.randint(1, max(2, len(log))), "persist": True}
            if rng.random() < 0.5:
                rule["until"] = rng.randint(1, 12)
        if "persist" not in rule and rng.random() < 0.35:
            rule["persist"] = True
        if rng.random() < 0.1:
            # what a case stores, or leaves behind to be removed
            rule = {"kinds": [rng.choice(["open_w", "write", "open_w", "rename", "rmdir", "remove", "mkdir"])],
                    "glob": rng.choice(["books/.out/simbook/*.json", "books/.out/simbook/*/*/*", "books/simbook/*/*/*"]), "nth": rng.randint(1, 4)}
        cutrec = rng.random() < 0.2
        if cutrec:
            # the records are cut, and a run that continues them follows
            rule = {"kinds": ["write"], "glob": "books/.out/" + rng.choice(["*", "", ".batches/*/"]) + "cases.txt", "nth": rng.randint(1, 4)}
            recs = [e for e in log if e[6] == "write" and e[7].endswith("/cases.txt")]
            bad = [x[5] for x in o.evs(r, "written") if x[5].endswith("/cases.txt") and x[6].count("\n") == 1 and "\tOK\t" not in x[6]]
            if bad and rng.random() < 0.6:
                # the record of a case that did not pass
                path = rng.choice(bad)
                texts = [x[6] for x in o.evs(r, "written") if x[5] == path]
                rule.update(glob=path.replace("[", "?"), nth=1 + rng.choice([i for i, x in enumerate(texts) if "\tOK\t" not in x]))
            elif recs and rng.random() < 0.8:
                e = rng.choice(recs)
                rule.update(glob=e[7].replace("[", "?"), nth=1 + sum(1 for x in recs if x[0] < e[0] and x[7] == e[7]))
            last = s["worlds"][0]["items"][k + 1]["calls"][0]["argv"]
            if "-c" not in last:
                for w in s["worlds"]:
                    w["items"][k + 1] = dict(w["items"][k + 1], calls=[{"argv": list(last) + ["-c"]}])
        purged = [e for e in log if e[6] in ("remove", "rmdir") and e[7].startswith("books/.out/simbook/")]
        if purged and rng.random() < (0.5 if left else 0.08):
            # what an earlier execution left cannot be removed
            e = rng.choice(purged)
            rule = {"kinds": ["remove", "rmdir"], "glob": e[7].replace("[", "?"), "nth": 1, "persist": rng.random() < 0.5}
        rule["err"] = rng.choice(ERRS) if rng.random() < 0.9 else ("SHORT" if "write" in rule["kinds"] else "EIO")
        if rule["err"] == "SHORT":
            rule["kinds"] = ["write"]
        rule["frac"] = rng.choice([0, gen.frac(rng), gen.frac(rng)])
        if cutrec and rule["kinds"] == ["write"]:
            rule["frac"] = rng.choice([2, 2, 3, 4, 5, gen.frac(rng)])
            rule["persist"] = rng.random() < 0.75          # else the rest is written, when the file is closed
        s["worlds"][0]["items"][k]["rules"] = [rule]
        yield s


def judge(sc, results):
    out = []
    deco = {c for c, it, *_ in project.case_names(sc["suite"]) if it.get("dec")}
    last = {}                 # case -> result of its latest finished execution
    known = {}                # (case, file name) -> complete contents that were to be stored
    prev = False
    for w in results[::-1]:
        for r in w:
            for c, *_ in project.case_names(r.suite):
                for s in r.spec.get(c, []):
                    if s[0] == "file":
                        known.setdefault((c, s[1]), set()).add(s[2].encode())
                if w is not results[0] or not o.faulted_run(r):
                    for top in ("books", "books/.out"):
                        for name, data in (accept.folder(r.after, f"{top}/{c}") or {}).items():
                            known.setdefault((c, name), set()).add(data)
    ledger = {}
    for n, r in enumerate(results[0]):
        argv = o.argv_of(r)
        faults = [e for e in o.evs(r, "fault") if e[5] != "SHORT"]
        where = f"item {n} {argv} faults {[e[5:8] for e in faults][:4]}"
        if r.ended in ("hang", "spin"):
            out.append(o.v("hang", f"{where}: {r.hang}; {o.tail(r)}"))
            break
        st = o.call_status(r)
        recs = o.record_map(r.after)
        ex = o.execs(r)
        # 1. nothing is damaged
        oc = accept.judge_invocation(r, ledger)
        for c, x in oc.items():
            got = accept.state(r.after, c)
            allowed = [x.old.md]
            if x.new is not None:
                allowed.append(x.new.md)
            mine = [e for e in ex if e.case == c and e.done]
            if c in deco and any(a in argv for a in ("-a", "-u", "-i", "-I")) and o.is_run(argv):
                for e in mine:
                    full, base = with_suffix(r, results[1], e), o.out_text(r.spec.get(c, []), e)
                    allowed.append(full if full is not None else got.md if base is None or (got.md or "").startswith(base) else None)
            elif c in deco and x.new is not None:
                allowed.append(o.output(r.before, c))
            if got.md not in allowed:
                out.append(o.v("damaged", f"{where}: the expectation of {c} was {x.old.md!r}, is {got.md!r}, accepted {x.new}; {o.tail(r)}"))
            for name, data in (got.dir or {}).items():
                if data not in known.get((c, name), set()) and (x.old.dir or {}).get(name) != data:
                    out.append(o.v("damaged-snapshot", f"{where}: {c} {name} is {data[:80]!r}, never stored so; {o.tail(r)}"))
        if out:
            break
        # 2. a pass is a pass
        if o.is_run(argv):
            by = {}
            for x in ex:
                by[x.case] = x
            rep = reported(r)
            todo = o.todo(r.suite, argv, r.before)
            for c in sorted(todo):
                passed = "OK" in recs.get(c, ())
                if not passed and not (rep.get(c) == "OK"):
                    continue
                x = by.get(c)
                how = f"recorded as {recs.get(c)}, reported as {rep.get(c)}"
                if x is None or not x.done:
                    if passed and recs[c] != o.record_map(r.before).get(c):
                        out.append(o.v("pass-without-execution", f"{where}: {c} is {how}, executed {x}; {o.tail(r)}"))
                    continue
                want = want_of(r, x, deco)
                if want not in (o.OK, None) and (passed or want == o.FAIL):
                    out.append(o.v("wrong-pass", f"{where}: {x} must be {want}, is {how}; {o.tail(r)}"))
                text = o.out_text(r.spec.get(c, []), x)
                if c in deco:
                    text = with_suffix(r, results[1], x)
                if passed and text is not None and text not in (o.output(r.after, c), o.expect(r.after, c)):
                    out.append(o.v("pass-incomplete", f"{where}: {x} is {how}, its output is {o.output(r.after, c)!r}, must be {text!r}; {o.tail(r)}"))
        # 3. the failure shows
        if o.is_run(argv) and faults and o.good(r) and "q" not in [e[6] for e in o.evs(r, "input")]:
            missing = unfinished(r, argv, results[1][n])
            if missing:
                out.append(o.v("hidden-failure", f"{where}: status {st}, but {missing}; {o.tail(r)}"))
        # 4. without a fault, everything is as if there never had been one
        if o.is_run(argv) and not faults:
            out += normal(r, argv, n, st, recs, ex, last, prev, deco)
        for x in ex:
            if x.done:
                last[x.case] = want_of(r, x, deco)
        if not o.is_run(argv):
            for c, x in oc.items():
                if x.new is not None:
                    last[c] = o.OK
        prev = prev or bool(faults)
        if out:
            break
    return out


def want_of(r, x, deco):
    """As oracle.result_of; decorators write lines of their own, which may turn OK into DIFF"""
    w = o.result_of(r, x)
    if x.case in deco:
        base, after = o.out_text(r.spec.get(x.case, []), x), o.expect(r.after, x.case)
        if w == o.OK or base is not None and after is not None and after.startswith(base):
            return None
    return w


def with_suffix(r, twins, x):
    """The whole output of a decorated case: its body's lines and what the decorators wrote in a run without faults"""
    steps = r.spec.get(x.case, [])
    base = o.out_text(steps, x)
    for twin in twins:
        if twin.spec.get(x.case, []) != steps:
            continue
        for y in o.execs(twin):
            if y.case == x.case and base is not None:
                tb = o.out_text(steps, y)
                for t in (o.output(twin.after, x.case), o.expect(twin.after, x.case)):
                    if t is not None and tb is not None and t.startswith(tb):
                        return base + t[len(tb):]
    return None


def unfinished(r, argv, twin):
    out = []
    recs = o.record_map(r.after)
    last = {x.case: x for x in o.execs(r)}
    for c in sorted(o.selected(r.suite, argv, r.before)):
        if recs.get(c) != ["OK"]:
            out.append(f"{c} is recorded as {recs.get(c)}")
    if any(n is None for n, *_ in o.records(r.after)):
        out.append(f"records {o.records(r.after)}")
    for c in sorted(o.todo(r.suite, argv, r.before)):
        x = last.get(c)
        if x is None:
            out.append(f"{c} was not executed")
            continue
        want = [f"{s[1]} {x.no}" for s in r.spec.get(c, []) if s[0] in ("logx", "errx")]
        log = (o.text(r.after, f"books/.out/{c}.log") or "").split("\n")
        if any(w not in log for w in want) and "--- Logging error ---" not in log:
            out.append(f"the log of {c} is {log}, must have {want}")
        if o.has_bin(twin.after, c) and not o.has_bin(r.after, c):
            out.append(f"{c} has no stored result")
        if not any(a in argv for a in ("-i", "-I")) and r.spec.get(c) == twin.spec.get(c):
            mine, clean = (sorted(accept.folder(t.after, f"books/.out/{c}") or accept.folder(t.after, f"books/{c}") or {}) for t in (r, twin))
            if mine != clean:
                out.append(f"{c} has the stored files {mine} instead of {clean}")
    if r.after.get("books/index.md") != twin.after.get("books/index.md"):
        out.append("the index is incomplete")
    return out


def normal(r, argv, n, st, recs, ex, last, prev, deco):
    out = []
    where = f"item {n} {argv} {'after a fault' if prev else ''}"
    if r.ended != "exit" or st is None or st[0] == "raise":
        return [o.v("broken-after-fault", f"{where}: ended {r.ended} {st}; {o.tail(r)}")]
    todo = o.todo(r.suite, argv, r.before)
    done = {x.case: x for x in ex}
    early = "-f" in argv or "q" in [e[6] for e in o.evs(r, "input")]
    allok = True
    for c in sorted(o.selected(r.suite, argv, r.before)):
        if c not in todo:
            if last.get(c) not in (o.OK, None):
                out.append(o.v("invented-pass", f"{where}: {c} is skipped as passed, its latest execution gave {last.get(c)}"))
            continue
        x = done.get(c)
        if x is None:
            if any(not o.has_bin(r.after, d) for d in o.dep_names(r.suite, c)):
                allok = False
                continue
            fails_before_start = any(d[0] in ("snap", "fns") for n2, it, *_ in project.case_names(r.suite) if n2 == c for d in it.get("dec", []))
            if not early and not fails_before_start:
                out.append(o.v("not-executed", f"{where}: {c} was not executed; {o.tail(r)}"))
            allok = None if allok else allok
            continue
        want = want_of(r, x, deco)
        if want is None:
            allok = None if allok else allok
        elif want != o.OK:
            allok = False
        if want is not None and recs.get(c) != [want] and not (early and o.is_parallel(argv) and c not in recs):
            out.append(o.v("wrong-verdict", f"{where}: {x} must be {want}, is recorded {recs.get(c)}; {o.tail(r)}"))
    if allok is not None and not early and allok != (st == ("status", 0)):
        out.append(o.v("wrong-status", f"{where}: status {st}, everything passed: {allok}; {o.tail(r)}"))
    return out


def nontrivial(sc, results):
    rs = results[0]
    return any([e for e in o.evs(r, "fault") if e[5] != "SHORT"] for r in rs) and any(not o.faulted_run(r) and o.execs(r) for r in rs[1:])


def probes(sc, results):
    out = []
    for r in results[0]:
        for e in o.evs(r, "fault")[:1]:
            st = o.call_status(r)
            out.append(f"{e[5]} on {e[6]}")
            out.append("faulted command ended with " + str(st))
    return out
