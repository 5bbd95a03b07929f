"""C25: files that are not booktest's stay as they are."""
from sim import gen, oracle as o, accept, project
from sim.checks import c07

COUNT = {"quick": 260, "thorough": 9000}
NONTRIVIAL = "a command that had to change files (run, accept, review, forget, clean, set-up) ran next to files of the user"
USER = ["notes.txt", "data/big.csv", "data/deep/er/x.json", "simbook/helper.txt", "simbook/data.json", "simbook/alpha_test.py.bak", "simbook/alpha/fixture.txt",
        "books.bak/simbook/alpha/a.md", "coverage.txt", "coverage.xml.bak", ".coveragerc", "index.md", "cases.txt", "metrics.json", ".booktest.mine", ".booktest.bak",
        "home/.profile", "home/.booktest.bak", "home/books/x.md", "out.txt", ".out/x.md", "simbook/index.md", "tmp/x", "1.md", "log.txt", "simbook/cases.txt"]
NEAR = ["{c}.md.bak", "{c}.txt", "{c}.log", "{c}.bin", "{c}.json", "{c}.md~", "{c}_old.md", "{c}_old/snap.txt", "{c}2.md", "{c}.out", "{c}.md.orig", "{c}x/_env.json"]
BOOKS = ["README.md", "simbook/README.md", "simbook/gone.md", "simbook/gone/snap.txt", "simbook/alpha.md", ".git/config", "images/x.png", "index.html", "simbook/index.md",
         "cases.txt", "simbook/.hidden", "it's here.md"]
RUNS = c07.RUNS + [["-p2", "-i"], ["-a", "-u", "-f"], ["--cov"], ["--cov", "-a"], ["--cov"], ["-a", "-r"], ["-s", "-a"], ["-S", "-u"]]
READS = [["-l"], ["--garbage"], ["--path"], ["--print"], ["--config"], ["--view"], ["-l", "-c"], ["--garbage", "-r"], ["--view", "-a"], ["--print", "-u", "-r"]]


def world_files(rng, S):
    names = gen.names(S)
    mine = set(rng.sample(USER, rng.choice([3, 6, 12])))
    mine |= {"books/" + x for x in rng.sample(BOOKS, rng.choice([1, 3, 6]))}
    mine |= {"books/" + rng.choice(NEAR).format(c=rng.choice(names)) for _ in range(rng.choice([1, 3, 6]))}
    out = {x: f"mine: {x} {rng.random()}\n" for x in sorted(mine)}
    if rng.random() < 0.4:
        out["data/linked.txt"] = "linked\n"
        out["data/deep/linked.md"] = "linked too\n"
        out[rng.choice(["books/shared", "books/simbook/shared"])] = ["link", rng.choice(["../data", "../../data", "{scratch}/data"])]
    if rng.random() < 0.25:                       # expectations kept elsewhere
        for c in rng.sample(names, rng.choice([1, len(names)])):
            out["shared/" + c.replace("/", "_") + ".md"] = f"expected elsewhere {rng.random()}\n"
            out[f"books/{c}.md"] = ["link", "{scratch}/shared/" + c.replace("/", "_") + ".md"]
    return out


def scenarios(rng, run, tier, i):
    n = rng.choice([1, 2, 3, 4])
    S = gen.suite(rng, n, mods=rng.choice([1, 2]), p_dep=0.25, p_res=0.1, p_setup=0.25, odd=rng.random() < 0.3)
    if rng.random() < 0.3:
        for c, it, *_ in project.case_names(S):
            if rng.random() < 0.5 and not it.get("dec"):
                it["dec"] = [rng.choice([["snap", ["SIM_A", "SIM_B"]], ["fns", ["f0"]], ["mock", {"SIM_A": "m"}]])]
    link = rng.random() < 0.3

    def mk(c, kind="ok", ver=1):
        b = c07.body(rng, c, kind, ver)
        if link and rng.random() < 0.5:
            b.insert(1, ["link", "big", rng.choice(["data", "data/linked.txt", "home"])])
        if rng.random() < 0.2:
            b.insert(1, rng.choice([["tmp", "t.txt", "temp"], ["tmpdir", "d", "temp"], ["image", "p.png", "pixels " + c]]))
        return b
    spec = {c: mk(c) for c in gen.names(S)}
    files = world_files(rng, S)
    if link:
        files["data/linked.txt"] = "linked\n"
    items = []
    if rng.random() < 0.8:
        items.append(gen.item(["-a"] + rng.choice([[], ["-s"]]) + gen.selection(rng, S, 0.2), rng))
    for k in range(rng.choice([1, 2, 3, 4])):
        z = rng.random()
        if z < 0.18 and items:
            it = gen.item(rng.choice(READS) + gen.selection(rng, S, 0.3), rng)
        elif z < 0.36 and items:
            it = gen.item(["-w"] + rng.choice([["-a"], ["-i"], ["-I"], ["-u", "-a"], ["-i", "-v"]]) + gen.selection(rng, S, 0.3), rng)
        elif z < 0.44 and items:
            it = gen.item(["--forget"] + gen.selection(rng, S, 0.6), rng)
        elif z < 0.52:
            it = gen.item(["--clean"], rng)
        elif z < 0.58:
            it = gen.item(["--setup"], rng)
        else:
            par = gen.pflag(rng) if rng.random() < 0.4 else []
            it = gen.item(par + rng.choice(RUNS) + gen.selection(rng, S, 0.3), rng)
        setup = "--setup" in it["calls"][0]["argv"]
        it["spec"] = {c: mk(c, rng.choice(c07.KINDS), rng.choice([1, 1, 2])) for c in gen.names(S) if rng.random() < rng.choice([0.2, 0.6])}
        it["answers"] = [""] * 7 if setup else \
            [rng.choice(["a", "a", "c", "c", "q", "v", "l", "d", "D", "x", ""]) for _ in range(30)] + ["c"] * 20
        y = rng.random()
        if y < 0.22:
            it["stops"] = [{"at": rng.randint(1, 12 if setup else 40 * n), "kind": rng.choice(["kill", "torn", "sigint", "killmain"]), "frac": gen.frac(rng)}]
        elif y < 0.4:
            it["rules"] = [{"kinds": rng.choice([["write"], ["open_w"], ["rename"], ["remove", "rmdir"], ["mkdir"], ["open_r"], ["list"]]),
                            "glob": rng.choice(["*", "books/*", "books/simbook/*", "books/.out/*.md", "books/.out/*", "books/simbook/*/*"]),
                            "nth": rng.randint(1, 8), "persist": rng.random() < 0.3, "err": rng.choice(["ENOSPC", "EIO", "EACCES", "EXDEV"]),
                            "frac": gen.frac(rng)}]
        items.append(it)
    for it in items:
        it["env"] = {"SIM_A": "a", "SIM_B": "b"}
    yield {"suite": S, "spec": spec, "worlds": [{"items": items, "files": files}]}


def closure(S, names):
    out, todo = set(), list(names)
    while todo:
        c = todo.pop()
        if c not in out:
            out.add(c)
            todo += o.dep_names(S, c)
    return out


def of_case(rel, cases):
    """The case a file below books or books/.out belongs to (rel is relative to that), or None"""
    for c in cases:
        if rel.startswith(c + "/") or rel in (c + ".md", c + ".bin", c + ".txt", c + ".log"):
            return c
    return None


def allowed(r):
    """A predicate over paths: what this invocation may change"""
    cases = gen.names(r.suite)
    argvs = [c["argv"] for c in r.item["calls"]]
    runs = [a for a in argvs if o.is_run(a)]
    reviews = [a for a in argvs if set(a) & {"-w", "--review"}]
    touched = closure(r.suite, [c for a in runs for c in o.selected(r.suite, a, r.before)]) | {e[5] for e in o.evs(r, "start")}
    # whether a verdict allows -a and -u to accept is the matter of C07
    taken = {p[1] for p in accept.prompts(r) if p[2] == "a"}
    for a in argvs:
        if set(a) & {"-a", "-u"}:
            taken |= touched if o.is_run(a) else set(o.selected(r.suite, a, r.before)) if a in reviews else set()
    ups = {"/".join(p.split("/")[:k]) + "/" for c in cases for p in [c] for k in range(1, p.count("/") + 1)}

    broken = bool(r.stopinfo) or o.faulted_run(r)

    def pred(k):
        k0 = k.rstrip("/")
        if k0 == "books" and (runs or reviews or any("--forget" in a for a in argvs)):
            return k.endswith("/")
        if k.startswith("books/.out"):
            rel = k[len("books/.out"):].lstrip("/")
            c = of_case(rel, cases)
            if c is None:
                return bool(runs or reviews) or any(set(a) & {"--forget", "--clean"} for a in argvs)
            return c in touched or c in taken or any("--clean" in a for a in argvs)
        if k.startswith("books/"):
            rel = k[len("books/"):]
            if rel.startswith("index.md") and (runs or rel == "index.md"):
                return bool(runs)
            if rel in ups:
                return bool(runs or reviews) or any("--clean" in a for a in argvs) and k not in r.after
            c = of_case(rel, cases)
            if c is not None and rel[len(c):] in (".txt", ".bin", ".log"):
                c = None                           # a file of the user, next to the expectation
            if c is not None:
                return c in taken
            if broken and k not in r.before and (runs or reviews):
                return True                        # written aside, when it was interrupted
            return any("--clean" in a for a in argvs) and k in r.before and \
                (k not in r.after if k.endswith("/") else r.before[k] is not None)
        if k0.startswith(".coverage") and not k0.startswith(".coveragerc") or k0 == "coverage.xml":
            return any("--cov" in a for a in argvs)
        if k == ".booktest" or broken and "/" not in k and k not in r.before:
            return any("--setup" in a for a in argvs)
        return False
    return pred


def judge(sc, results):
    out = []
    for n, r in enumerate(results[0]):
        if r.ended in ("hang", "spin"):
            break
        ok = allowed(r)
        bad = o.diff_trees(r.before, r.after, lambda k: not ok(k))
        if bad:
            out.append(o.v("touched", f"item {n} {o.argv_of(r)} stop {r.stopinfo} faults {o.evs(r, 'fault')}: "
                                      f"changed {bad}; ran {sorted({x.case for x in o.execs(r)})} prompts {accept.prompts(r)}"))
            break
    return out


def nontrivial(sc, results):
    return any(o.is_run(o.argv_of(r)) or set(o.argv_of(r)) & {"-w", "--forget", "--clean", "--setup"} for r in results[0]) and \
        any(r.before != r.after for r in results[0])


def probes(sc, results):
    out = []
    for r in results[0]:
        a = o.argv_of(r)
        out.append("run" if o.is_run(a) else next((x for x in a if x.startswith("-")), "?"))
        if r.stopinfo:
            out.append("stopped")
        if any(k.startswith("books/") and isinstance(v, bytes) and v.startswith(b"@") for k, v in r.after.items()):
            out.append("links below the books")
    return out
