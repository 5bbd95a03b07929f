"""C02: a parallel run gives the results of the sequential run."""
import copy
from sim import gen, oracle as o, scen, project

COUNT = {"quick": 360, "thorough": 9000}
NONTRIVIAL = "the parallel run executed cases on at least two workers"
KINDS = ["ok", "ok", "ok", "diff", "fail", "raise:value", "raise:custom", "raise:assert", "raise:exit", "raise:badstr", "raise:oddmsg", "opaque"]


def body(rng, n, kind):
    steps = []
    if rng.random() < 0.8:
        steps.append(["sleep", rng.choice([0.0005, 0.01, 0.05, 0.2, 1.0]) * (0.5 + rng.random())])
    steps.append(["t", "case " + n.replace("/", " ")])
    for _ in range(rng.randint(0, 3)):
        steps.append(rng.choice([["log", "", "log of " + n], ["log", "some.logger", "named log of " + n], ["err", "err of " + n],
                                 ["i", "info of " + n], ["out", "printed by " + n], ["h", "Header " + n.replace("/", " ")],
                                 ["kv", "key", n], ["tlist", [n, "x"]], ["file", "f.txt", n], ["tmp", "t.txt", n],
                                 ["tmpdir", "d", n], ["image", "img.txt", n], ["it", "thing", 3], ["i", rng.choice(gen.ODD)],
                                 ["t", rng.choice(gen.ODD)], ["log", "", rng.choice(gen.ODD)], ["err", rng.choice(gen.ODD)]]))
    steps.append(["t", "value " + ("2" if kind == "diff" else "1")])
    steps.append([rng.choice(["deps", "tdeps", "tdeps"])])
    if rng.random() < 0.3:
        steps.append(["sleep", rng.choice([0.0005, 0.01, 0.3])])
    steps.append(["assert", kind != "fail"])
    if kind.startswith("raise:"):
        steps.append(["raise", kind[6:]])
    steps.append(["t", "the end"])
    r = rng.choice([["static", 1], ["static", 2], ["none"], ["json", {"k": [1, n]}], ["json", 0], ["json", False], ["val", n], None])
    if kind == "opaque":
        r = ["opaque"]
    if rng.random() < 0.2:
        steps.append(["retdeps"])
    elif r:
        steps.append(["ret", r])
    return steps


def scenarios(rng, run, tier, i):
    n = rng.choice([3, 4, 5, 6, 8]) if i % 8 else rng.choice([10, 14, 20])
    S = gen.suite(rng, n, mods=rng.choice([1, 2, 3]), odd=rng.random() < 0.3, p_dep=rng.choice([0.2, 0.5, 0.7]))
    snaps = {}
    if rng.random() < 0.3:              # some cases use snapshots
        for c, it, *_ in project.case_names(S):
            if rng.random() < 0.5:
                it.setdefault("dec", [rng.choice([["fns", ["f0"]], ["snap", ["SIM_A", "SIM_B"]], ["mock", {"SIM_A": "mocked"}],
                                                  ["missing", {"SIM_C": "given"}]])])
                snaps[c] = it["dec"]
    asks = rng.random() < 0.2           # the user answers
    kinds = ["ok", "diff"] if asks else KINDS
    S["env"] = {"SIM_A": "a value", "SIM_B": "b"}

    def changes(rng, S, p):
        return {c: snapped(rng, c, body(rng, c, rng.choice(kinds))) for c in gen.names(S) if rng.random() < p}

    def snapped(rng, c, steps):
        for d in snaps.get(c, []):
            if d[0] == "fns":
                steps.insert(1, ["call", "f0", [rng.choice([1, 1, 2])], {}])
            else:
                steps.insert(1, ["getenv", rng.choice(["SIM_A", "SIM_C"])])
        return steps
    spec = {c: snapped(rng, c, body(rng, c, "ok")) for c in gen.names(S)}
    pre = []
    if rng.random() < 0.8:
        pre.append(gen.item(["-a"] + (["-s"] if rng.random() < 0.8 else []), rng))
    if rng.random() < 0.5:
        it = gen.item(rng.choice([[], ["-c"], ["-a"], ["-f"]]) + gen.selection(rng, S), rng)
        it["spec"] = changes(rng, S, 0.3)
        pre.append(it)
    flags = rng.choice([[], [], ["-v"], ["-a"], ["-u"], ["-c"], ["-r"], ["-a", "-u"], ["-L"], ["-v", "-L", "-c"], ["-c", "-a"], ["-s"]])
    if snaps and rng.random() < 0.6:
        flags = rng.choice([["-s"], ["-s", "-a"], ["-S"], ["-S", "-a"], ["-s", "-c"]])
    if asks:
        flags = rng.choice([["-i"], ["-I"], ["-i", "-v"], ["-i", "-c"], ["-I", "-u"]]) + (["-s"] if snaps else [])
    sel = gen.selection(rng, S, 0.4)
    sp = changes(rng, S, rng.choice([0, 0.2, 0.5]))
    last = []
    for par in (False, True):
        it = gen.item(gen.pflag(rng) + flags + sel if par else flags + sel, rng)
        it["spec"] = sp
        it["dirseed"] = 5 + i
        if par and rng.random() < 0.3:
            it["lines"] = rng.choice([1, 1, "instr"])
        last.append(it)
    more = []
    if rng.random() < 0.3:              # and the following run sees the same
        more.append(gen.item(rng.choice([[], ["-c"], ["-w"], ["-l", "-c"]]) + sel, rng))
    sc = {"suite": S, "spec": spec, "worlds": [{"items": copy.deepcopy(pre) + [it] + copy.deepcopy(more)} for it in last]}
    sc["env"] = S.pop("env")
    if asks:
        sc["answers"] = [rng.choice(["a", "a", "c"])] * 100
    if rng.random() < 0.3:
        sc["handlers"] = ["%(levelname)s:%(name)s:%(message)s"]
    yield sc


IGNORE = ("books/.out/.batches", "books/.out/metrics.json", "books/.out/output.txt", "books/.out/cases.txt", ".coverage")


def clean(b):
    return None if b is None else scen.ADDR.sub(b"0x", b)


def final(rs):
    """the first item where the two worlds use different arguments"""
    return None


def judge(sc, results):
    seq, par = results
    out = []
    for k, (a, b) in enumerate(zip(seq, par)):
        av, bv = a.item["calls"][0]["argv"], b.item["calls"][0]["argv"]
        if a.ended != "exit":
            return out
        if b.ended != "exit":
            return [o.v("parallel-" + str(b.ended), f"{bv}: {b.hang} {o.tail(b)}")]
        sa, sb = o.call_status(a), o.call_status(b)
        if sa is None or sa[0] == "raise":
            return out                       # what a crashing sequential run leaves is not the reference
        if sb != sa:
            out.append(o.v("exit-status", f"{av} gives {sa}, {bv} gives {sb}; {o.tail(b)}"))
        ra, rb = o.record_map(a.after), o.record_map(b.after)
        for c in sorted(set(ra) | set(rb)):
            if ra.get(c) != rb.get(c):
                out.append(o.v("verdict", f"{c}: {av} gives {ra.get(c)}, {bv} gives {rb.get(c)}; {o.tail(b)}"))
        da = sorted((x.case, x.deps) for x in o.execs(a))
        db = sorted((x.case, x.deps) for x in o.execs(b))
        for x, y in zip(da, db):
            if x != y:
                out.append(o.v("dependencies", f"{av}: {x}, {bv}: {y}"))
                break
        if len(da) != len(db):
            out.append(o.v("executions", f"{av}: {[x[0] for x in da]}, {bv}: {[x[0] for x in db]}"))
        for f in sorted(set(a.after) | set(b.after)):
            if f.startswith(IGNORE) or "__pycache__" in f:
                continue
            x, y = a.after.get(f, b"-absent-"), b.after.get(f, b"-absent-")
            if clean(x) != clean(y):
                kind = f.rsplit(".", 1)[-1] if "." in f.rsplit("/", 1)[-1] else "dir"
                out.append(o.v("file-" + ("exp-" if not f.startswith("books/.out") else "") + kind,
                               f"{f}: {av} leaves {(x or b'-dir-')[:500]!r}, {bv} leaves {(y or b'-dir-')[:500]!r}"))
        if out:
            return out
    return out


def nontrivial(sc, results):
    return any(len({x.proc for x in o.execs(r)}) >= 2 for r in results[1])


def probes(sc, results):
    out = []
    for r in results[1]:
        for c, vs in o.record_map(r.after).items():
            out += ["verdict " + v for v in vs]
        if o.is_parallel(o.argv_of(r)):
            if o.evs(r, "input"):
                out.append("interactive")
            if any(it.get("dec") for _, it, *_ in project.case_names(r.suite)):
                out.append("snapshots " + ("captured" if "-s" in o.argv_of(r) or "-S" in o.argv_of(r) else "replayed"))
            if r.item.get("lines"):
                out.append("preemption at lines")
    return out
