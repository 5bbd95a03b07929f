"""C21: review and forget change only what they are asked to."""
import copy, re
from sim import gen, oracle as o, accept, project
from sim.checks import c07

COUNT = {"quick": 300, "thorough": 9000}
NONTRIVIAL = "a review or forget met results that it had to leave alone next to ones that it had to change"
KINDS = ["ok", "diff", "diff", "diff", "fail", "raise:value", "opaque"]
REVIEWS = [["-w"], ["-w", "-i"], ["-w", "-i"], ["-w", "-i"], ["-w", "-I"], ["-w", "-a"], ["-w", "-u"], ["-w", "-c"], ["-w", "-c", "-i"],
           ["-w", "-f", "-i"], ["-w", "-f"], ["-w", "-i", "-v"], ["-w", "-I", "-L"], ["-w", "-a", "-f"], ["-w", "-a", "-i"], ["--review", "-i"],
           ["-w", "-i", "-p2"], ["-w", "-I", "-c"], ["-w", "-a", "-u", "-v"], ["-w", "-r", "-i"], ["-w", "-s", "-i"], ["-w", "-u", "-i"], ["-w", "-u", "-I", "-f"]]
FORGETS = [["--forget"], ["--forget"], ["--forget", "-c"], ["--forget", "-r"], ["--forget", "-a"], ["--forget", "-v", "-i"]]
RUNS = [[], [], [], ["-f"], ["-c"], ["-a"], ["-i"], ["-u"]]


def bodies(rng, S, p):
    return {c: c07.body(rng, c, rng.choice(KINDS), rng.choice([1, 1, 2])) for c in gen.names(S) if rng.random() < p}


def scenarios(rng, run, tier, i):
    n = rng.choice([1, 2, 3, 4, 5, 7])
    S = gen.suite(rng, n, mods=rng.choice([1, 2, 3]), p_dep=0.25, p_res=0.1, p_setup=0.3, odd=rng.random() < 0.2)
    spec = {c: c07.body(rng, c) for c in gen.names(S)}
    items = []
    if rng.random() < 0.6:
        items.append(gen.item(["-a"], rng))
    if rng.random() < 0.95:
        par = gen.pflag(rng) if rng.random() < 0.4 else []
        it = gen.item(par + rng.choice(RUNS) + gen.selection(rng, S, 0.15), rng, spec=bodies(rng, S, rng.choice([0.3, 0.6, 1])))
        it["answers"] = [rng.choice(["c", "c", "a", "q"]) for _ in range(20)] + ["c"] * 20
        items.append(it)
        if rng.random() < 0.15:
            it["stops"] = [{"at": rng.randint(1, 40 * n), "kind": rng.choice(["kill", "torn", "sigint"]), "frac": gen.frac(rng)}]
    if rng.random() < 0.15 and len(S["modules"]) > 1:
        # cases that are gone stay recorded
        S2 = copy.deepcopy(S)
        gone = S2["modules"].pop()["file"]
        for c, it2, *_ in project.case_names(S2):
            if any(d.startswith(gone) for d in it2.get("deps", [])):
                it2["deps"] = [d for d in it2["deps"] if not d.startswith(gone)]
        it = gen.item(["-l"], rng, suite=S2)
        items.append(it)
        S_now = S2
    else:
        S_now = S
    cut = None
    for k in range(rng.choice([1, 2, 2, 3])):
        z = rng.random()
        if z < 0.65:
            it = gen.item(rng.choice(REVIEWS) + gen.selection(rng, S_now, 0.35), rng)
        else:
            it = gen.item(rng.choice(FORGETS) + gen.selection(rng, S_now, 0.7), rng)
        it["answers"] = [rng.choice(["a", "a", "a", "c", "c", "c", "q", "v", "l", "d", "D", "x", "", "A"]) for _ in range(30)] + ["c"] * 20
        y = rng.random()
        if y < 0.08:
            it["answers"].insert(rng.randint(0, 4), "^C")
        elif y < 0.12:
            it["answers"] = it["answers"][:rng.randint(0, 4)]
        items.append(it)
        if rng.random() < 0.25:
            cut = len(items) - 1
            if "-w" in it["calls"][0]["argv"] and rng.random() < 0.5:
                # the same again
                again = gen.item(rng.choice([it["calls"][0]["argv"], ["-w", "-a"], ["-w", "-I"]]), rng)
                again["answers"] = ["a"] * rng.choice([1, 5, 20]) + ["c"] * 20
                items.append(again)
        if rng.random() < 0.3:
            items.append(gen.item((gen.pflag(rng) if rng.random() < 0.3 else []) + ["-c"] + gen.selection(rng, S_now, 0.3), rng,
                                  spec=bodies(rng, S_now, 0.3)))
    if rng.random() < 0.7:
        items.append(gen.item((gen.pflag(rng) if rng.random() < 0.3 else []) + ["-c"] + gen.selection(rng, S_now, 0.2), rng))
    sc = {"suite": S, "spec": spec, "worlds": [{"items": items}]}
    if cut is None:
        yield sc
        return
    probe = copy.deepcopy(sc)
    probe["worlds"][0]["items"][cut]["oplog"] = True
    r = run(probe)[0]
    if len(r) > cut:
        hot = [e[5] + d for e in o.evs(r[cut], "op") if e[6] in ("rename", "rmdir", "remove") for d in (0, 1)]
        for k in range(4 if hot else 2):
            s = copy.deepcopy(sc)
            at = rng.choice(hot) if hot and k < 3 else rng.randint(1, max(r[cut].ops, 2))
            s["worlds"][0]["items"][cut]["stops"] = [{"at": at, "frac": gen.frac(rng),
                                                      "kind": rng.choice(["kill", "kill", "torn", "sigint"])}]
            yield s


LINE = r"(?:  ({alt})\.\.|(?:^|\n)({alt}) )(?:(\d+ ms|ok in \d+ ms\.)|(DIFFERED in \d+ ms)|(FAILED in \d+ ms))\n"


def presented(r, names):
    """[(case, verdict)] of the result lines that were printed"""
    alt = "|".join(re.escape(n) for n in sorted(names, key=len, reverse=True))
    return [(m[1] or m[2], o.OK if m[3] else o.DIFF if m[4] else o.FAIL)
            for m in re.finditer(LINE.format(alt=alt), r.stdout.decode("utf-8", "replace"))]


def judge(sc, results):
    out = []
    for n, r in enumerate(results[0]):
        if r.ended in ("hang", "spin"):
            break
        argv = o.argv_of(r)
        where = f"item {n} {argv} stop {r.stopinfo}"
        if "-w" in argv or "--review" in argv:
            out += review(r, argv, where)
        elif "--forget" in argv:
            out += forget(r, argv, where)
        elif "-c" in argv and o.is_run(argv) and not r.stopinfo:
            out += cont(r, argv, where)
        if out:
            break
    return out


def raw(tree):
    return [(c, v, float(d)) for c, v, d in o.records(tree) if c is not None]


def review(r, argv, where):
    out = []
    old, new = raw(r.before), raw(r.after)
    ran = [e for e in r.events if e[4] in ("start", "setup")]
    if ran:
        return [o.v("review-executes", f"{where}: {ran[:3]}")]
    sel = o.selected(r.suite, argv, r.before)
    ps = accept.prompts(r)
    stopped = bool(r.stopinfo) or any(p[2] in ("^C", None) for p in ps)
    status = o.call_status(r)
    if not stopped and (status is None or status[0] == "raise"):
        return [o.v("review-crash", f"{where}: {status} {r.ended} {o.tail(r)}")]
    # what was to be presented, and what became of it
    want, shown, taken, abort = [], [], set(), False
    for c, verdict, d in old:
        v = verdict
        if not abort and c in sel and not ("-c" in argv and verdict == o.OK):
            shown.append((c, verdict))
            mine = [p[2] for p in ps if p[1] == c]
            if verdict != o.FAIL and ("a" in mine or verdict == o.DIFF and "-a" in argv):
                v = o.OK
                taken.add(c)
            if verdict == o.OK and "-u" in argv:
                taken.add(c)
            if "q" in mine or "-f" in argv and v != o.OK:
                abort = True
        want.append((c, v, d))
    got = presented(r, [c for c, *_ in old] + gen.names(r.suite))
    if got != shown and not (stopped and got == shown[:len(got)]):
        out.append(o.v("presented", f"{where}: presents {got} instead of {shown}; recorded {old}; {o.tail(r)}"))
    if not stopped:
        if new != want:
            out.append(o.v("review-records", f"{where}: leaves {new} instead of {want}; before {old}; prompts {[p[1:] for p in ps]}"))
    else:
        names = [c for c, *_ in old]
        if [c for c, *_ in new] != names:
            out.append(o.v("review-records", f"{where}: leaves {new} of {old}"))
    out += never(old, new, taken, where)
    for k in changed(r):
        if k == "books/.out/cases.txt" or any(of_case(k, c) for c in taken):
            continue
        if aside(r, k):
            continue
        out.append(o.v("review-files", f"{where}: changes {k}; accepted {sorted(taken)}"))
        break
    return out


def never(old, new, taken, where):
    """Nothing turns into a pass, appears or is altered on its own, also when killed"""
    had = {c: v for c, v, d in reversed(old)}
    for c, v, d in new:
        if c not in had or v != had[c] and not (v == o.OK and c in taken):
            return [o.v("turned", f"{where}: {c} is recorded as {v}, before {had.get(c)}; accepted {sorted(taken)}")]
    return []


def aside(r, k):
    """A new file next to the records, written to replace them"""
    return k.rpartition("/")[0] == "books/.out" and (k == "books/.out/cases.txt.new" or r.before.get(k) is None) and k != "books/.out/metrics.json"


def changed(r):
    return [x[1:] for x in o.diff_trees(r.before, r.after) if not x.endswith("/") and x[1:].startswith("books/")]


def of_case(k, c):
    return any(k == p + ".md" or k.startswith(p + "/") for p in (f"books/{c}", f"books/.out/{c}"))


def forget(r, argv, where):
    out = []
    ran = [e for e in r.events if e[4] in ("start", "setup")]
    if ran:
        return [o.v("forget-executes", f"{where}: {ran[:3]}")]
    old, new = raw(r.before), raw(r.after)
    sel = o.selected(r.suite, argv, r.before)
    want = [x for x in old if x[0] not in sel]
    status = o.call_status(r)
    if not r.stopinfo:
        if status is None or status[0] == "raise":
            return [o.v("forget-crash", f"{where}: {status} {r.ended} {o.tail(r)}")]
        if new != want:
            out.append(o.v("forget-records", f"{where}: leaves {new} instead of {want}; before {old}"))
    elif new not in (old, want):
        out.append(o.v("forget-records", f"{where}: leaves {new} of {old} instead of {want}"))
    out += never(old, new, set(), where)
    for k in changed(r):
        if k != "books/.out/cases.txt" and not aside(r, k):
            out.append(o.v("forget-files", f"{where}: changes {k}"))
            break
    return out


def cont(r, argv, where):
    """The following run with continue executes exactly what is not recorded as a pass"""
    if "-f" in argv or r.ended != "exit" or o.call_status(r) is None:
        return []
    todo = o.todo(r.suite, argv, r.before)
    ran = {x.case for x in o.execs(r)}
    if ran - todo:
        return [o.v("continue-extra", f"{where}: executes {sorted(ran - todo)}; recorded {raw(r.before)}")]
    lost = [c for c in todo - ran if not o.dep_names(r.suite, c)]
    if lost:
        return [o.v("continue-lost", f"{where}: does not execute {lost}; recorded {raw(r.before)}; {o.tail(r)}")]
    return []


def nontrivial(sc, results):
    for r in results[0]:
        argv = o.argv_of(r)
        if "-w" in argv or "--forget" in argv or "--review" in argv:
            old, new = raw(r.before), raw(r.after)
            if old != new and set(old) & set(new):
                return True
    return False


def probes(sc, results):
    out = []
    for r in results[0]:
        argv = o.argv_of(r)
        kind = "review" if "-w" in argv or "--review" in argv else "forget" if "--forget" in argv else None
        if kind:
            if r.stopinfo:
                out.append(f"{kind} stopped by {r.stopinfo[0]}")
            if len(raw(r.before)) > 1:
                out.append(f"{kind} of several results")
            if any(c not in gen.names(r.suite) for c, *_ in raw(r.before)):
                out.append(f"{kind} with results of removed cases")
            for p in accept.prompts(r):
                if p[2] in ("a", "q", "^C", None):
                    out.append(f"answer {p[2]}")
    return out
