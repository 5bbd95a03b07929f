"""C04: cases sharing an exclusive resource never run at the same time."""
from sim import gen, oracle as o, project
from sim.checks import c01

COUNT = {"quick": 400, "thorough": 12000}
NONTRIVIAL = "two cases declaring a common resource were executed in one parallel run with more than one worker"
KINDS = ["raise:value", "raise:exit", "opaque", "fail", "diff", "unreadable", "raise:base"]


def scenarios(rng, run, tier, i):
    n = rng.choice([3, 4, 5, 6, 8]) if i % 8 else rng.choice([10, 14])
    S = gen.suite(rng, n, mods=rng.choice([1, 2, 3]), p_dep=rng.choice([0, 0.2, 0.5]), p_res=rng.choice([0.5, 0.8, 1]),
                  reskinds=rng.choice([("res:x",), ("res:x", "res:y"), ("res:x", "idres:v/x", "port:7001", "intres:7001"),
                                       ("port:7001", "port:7002", "intres:7001"), ("res:x", "res:y", "res:z", "idres:w/y")]))
    spec = gen.spec(rng, S, logs=False)
    items = []
    if rng.random() < 0.5:
        items.append(gen.item(["-a"], rng))
    for k in range(rng.choice([1, 1, 2])):
        it = gen.item(rng.choice([["-p2"], ["-p3"], ["-p4"], ["-p8"], ["-p"]]) + rng.choice([[], [], ["-c"], ["-a"], ["-r"]])
                      + gen.selection(rng, S, 0.2), rng)
        it["spec"], it["files"] = {}, {}
        for c in gen.names(S):
            if rng.random() < rng.choice([0, 0.2, 0.4]):
                kind = rng.choice(KINDS)
                if kind == "unreadable":
                    it["files"][f"books/{c}.md"] = "case \udcff\udcfe broken\n"
                else:
                    it["spec"][c] = gen.body(rng, c, kind)
        items.append(it)
    yield {"suite": S, "spec": spec, "worlds": [{"items": items}]}


def judge(sc, results):
    out = []
    res = {n: project.resources(it) for n, it, *_ in project.case_names(sc["suite"])}
    for r in results[0]:
        argv = r.item["calls"][0]["argv"]
        if not o.is_parallel(argv):
            continue
        ex = o.execs(r)
        for a in range(len(ex)):
            for b in range(a + 1, len(ex)):
                x, y = ex[a], ex[b]
                both = res[x.case] & res[y.case]
                if both and (x.seq1 is None or y.seq0 < x.seq1):
                    out.append(o.v("overlap", f"{argv}: {x} and {y} hold {sorted(map(str, both))} at the same time"))
        if out:
            return out
        for v in c01.judge_run(r, argv):
            if v["class"] in ("hang", "run-crashed", "not-executed", "case-lost", "executed-twice"):
                out.append(v)
        if out:
            return out
    return out


def nontrivial(sc, results):
    res = {n: project.resources(it) for n, it, *_ in project.case_names(sc["suite"])}
    for r in results[0]:
        argv = r.item["calls"][0]["argv"]
        if o.is_parallel(argv) and o.workers(argv) > 1:
            ex = o.execs(r)
            if any(res[x.case] & res[y.case] for x in ex for y in ex if x is not y):
                return True
    return False


def probes(sc, results):
    return []
