"""C22: clean removes garbage only."""
import copy, posixpath
from sim import gen, oracle as o, project
from sim.checks import c07

COUNT = {"quick": 220, "thorough": 10000}
NONTRIVIAL = "a cleaning met garbage next to expectations or snapshots that it had to leave alone"
CONF = [{}, {}, {}, {"books_path": "./books"}, {"books_path": "books/"}, {"books_path": "bk/deep"}, {"books_path": "./bk//deep/"}]
JUNK = ["old.md", "simbook/old.md", "simbook/alpha/zz.md", "simbook/alpha/zz/snap.txt", "simbook/alpha.md", "simbook/alpha", "index.md.bak", "Index.md",
        "simbook/index.md", "other/deep/er/x.md", ".out/old.txt", ".out/simbook/gone/g.md", ".hidden", "simbook/it's here.md", "simbook/ü $HOME.txt",
        "simbook/alpha/a.md.new", "simbook/alpha/a.txt", "simbook/alpha/ab/x.json", "simbook/alpha/a2.md", "simbook/alpha/-rf.md", "simbook/beta/a~",
        "simbook/alpha_test.py", "s", "simbook.md", ".out/.batches/9/cases.txt"]
MINE = ["_env.json", "sub/deep/x.json", ".hidden", "old.md", "it's.txt", "_requests.json", "-x", "index.md"]
RUNS = [[], [], ["-a"], ["-c"], ["-f"], ["-a", "-u"], ["-s", "-a"], ["-S"]]
CLEANS = [["--clean"]] * 6 + [["--clean", "-r"], ["--clean", "-c"], ["--clean", "-v", "-i"], ["--clean", "-a"]]
LISTS = [["--garbage"]] * 4 + [["--garbage", "-c"], ["--garbage", "-r"], ["--garbage", "-u", "-a"]]


def evolve(rng, S):
    """The suite after cases were removed, renamed or added"""
    S = copy.deepcopy(S)

    def drop(pred):
        for _, it, *_ in project.case_names(S):
            if any(pred(d) for d in it.get("deps", [])):
                it["deps"] = [d for d in it["deps"] if not pred(d)]
    for _ in range(rng.choice([1, 1, 2])):
        mod = rng.choice(S["modules"])
        z = rng.random()
        if z < 0.25 and len(S["modules"]) > 1:
            S["modules"].remove(mod)
            drop(lambda d: d.startswith(mod["file"]))
        elif z < 0.5 and len(mod["items"]) > 1:
            it = mod["items"].pop(rng.randrange(len(mod["items"])))
            drop(lambda d: d.startswith(f"{mod['file']}:{it['name']}"))
        elif z < 0.75:
            it = rng.choice(mod["items"])
            new = it["name"] + rng.choice(["x", "2"]) if it["kind"] == "func" else it["name"] + "X"
            if new in [x["name"] for x in mod["items"]]:
                continue
            drop(lambda d: d.startswith(f"{mod['file']}:{it['name']}"))
            it["name"] = new
        else:
            new = rng.choice(["new", "aa", "a_b"])
            if new not in [x["name"] for x in mod["items"]]:
                mod["items"].append({"kind": "func", "name": new})
    return S


def decorate(rng, S):
    for _, it, *_ in project.case_names(S):
        if rng.random() < 0.2 and "dec" not in it:
            it["dec"] = [rng.choice([["snap", ["SIM_A", "SIM_B"]], ["fns", ["f0"]]])]


def steps(rng, S, kinds):
    out = {}
    for c, it, *_ in project.case_names(S):
        b = c07.body(rng, c, rng.choice(kinds))
        for d in it.get("dec", []):
            b.insert(1, ["call", "f0", [1], {}] if d[0] == "fns" else ["getenv", "SIM_A"])
        if rng.random() < 0.5:
            b.insert(rng.randint(1, len(b) - 1), ["file", rng.choice(["snap.txt", "b.json", "sub.md"]), "content"])
        out[c] = b
    return out


def scenarios(rng, run, tier, i):
    n = rng.choice([1, 2, 3, 4, 6])
    conf = rng.choice(CONF)
    B = posixpath.normpath(conf.get("books_path", "books"))
    S = gen.suite(rng, n, mods=rng.choice([1, 2, 3]), p_dep=0.25, p_res=0.1, p_setup=0.2, odd=rng.random() < 0.3)
    decorate(rng, S)
    env = {"SIM_A": "a value", "SIM_B": "b"}
    now, items, spec = S, [], steps(rng, S, ["ok"])

    def add(argv, **kw):
        it = gen.item(argv, rng, env=env, **kw)
        it["answers"] = [rng.choice(["a", "c", "q"]) for _ in range(15)] + ["c"] * 20
        items.append(it)
        return it

    if rng.random() < 0.85:
        add(["-s", "-a"])
    for _ in range(rng.choice([0, 1, 1, 2])):
        if rng.random() < 0.5:
            now = evolve(rng, now)
            for c, st in steps(rng, now, ["ok"]).items():
                spec.setdefault(c, st)
            add(["-l"], suite=now)
        it = add((gen.pflag(rng) if rng.random() < 0.4 else []) + rng.choice(RUNS))
        if rng.random() < 0.5:
            it["spec"] = steps(rng, now, ["ok", "ok", "diff", "fail", "raise:value"])
        if rng.random() < 0.35:
            it["stops"] = [{"at": rng.randint(1, 50 * n), "kind": rng.choice(["kill", "kill", "torn", "sigint", "killmain"]), "frac": gen.frac(rng)}]
    if rng.random() < 0.6:
        now = evolve(rng, now)
        for c, st in steps(rng, now, ["ok"]).items():
            spec.setdefault(c, st)
        add(["--garbage"], suite=now)
    it = add(rng.choice(LISTS))
    files = {}
    for k in rng.sample(JUNK, rng.choice([0, 1, 3, 6])):
        files[f"{B}/{k}"] = "junk"
    for _ in range(rng.choice([0, 1, 2])):
        files[f"{B}/{rng.choice(gen.names(now))}/{rng.choice(MINE)}"] = "snapshot"
    if rng.random() < 0.2:
        files[f"{B}/index.md"] = "# the index"
    files = {k: v for k, v in files.items() if not any(x.startswith(k + "/") for x in list(files) + [f"{B}/{c}.md" for c in gen.names(now) + gen.names(S)])}
    it["files"] = files
    if rng.random() < 0.2:
        add(["--garbage"])["calls"].append({"argv": ["--clean"]})
    cut = len(items)
    add(rng.choice(CLEANS))
    if rng.random() < 0.7:
        add(rng.choice(LISTS))
    if rng.random() < 0.5:
        add(["--clean"])
    if rng.random() < 0.6:
        add(["-s"] + rng.choice([[], [], ["-c"], ["-p2"], ["-c", "-p3"]]))
        add(["--garbage"])
    sc = {"suite": S, "spec": spec, "worlds": [{"items": items, "config": conf}]}
    yield sc
    if rng.random() < 0.3:
        return
    r = run(copy.deepcopy(sc))[0]
    if len(r) <= cut:
        return
    for _ in range(2):
        s = copy.deepcopy(sc)
        it = s["worlds"][0]["items"][cut]
        if rng.random() < 0.5:
            it["stops"] = [{"at": rng.randint(1, max(r[cut].ops, 2)), "frac": gen.frac(rng), "kind": rng.choice(["kill", "kill", "torn", "sigint"])}]
        else:
            it["rules"] = [rng.choice([
                {"kinds": ["remove"], "glob": f"{B}/*", "nth": rng.randint(1, max(r[cut].ops, 2)), "err": rng.choice(["EACCES", "EROFS", "EIO", "EBUSY", "ENOENT"])},
                {"kinds": ["remove"], "glob": f"{B}/*", "nth": rng.randint(1, 3), "err": "EROFS", "persist": True},
                {"kinds": ["list"], "glob": rng.choice([B, f"{B}/*", "simbook", "simbook/*", "*"]), "nth": rng.randint(1, 4), "err": rng.choice(["EACCES", "EIO"])},
                {"kinds": ["open_r", "read"], "glob": rng.choice(["simbook/*", "*", f"{B}/.out/*", ".booktest"]), "nth": rng.randint(1, 6),
                 "err": rng.choice(["EACCES", "EIO"])}])]
        yield s


def books(sc, r):
    return posixpath.normpath(dict(sc["suite"].get("config", {}), **(sc["worlds"][0].get("config") or {})).get("books_path", "books"))


def garbage(tree, suite, B):
    """Everything below the books that is neither the expectation or a stored file of an existing case nor the index"""
    keep = {f"{B}/index.md"}
    dirs = []
    for c in gen.names(suite):
        keep.add(f"{B}/{c}.md")
        dirs.append(f"{B}/{c}/")
    return {k for k in tree if k.startswith(B + "/") and not k.endswith("/") and k not in keep and not any(k.startswith(d) for d in dirs)}


def judge(sc, results):
    for n, r in enumerate(results[0]):
        if r.ended in ("hang", "spin"):
            break
        B = books(sc, r)
        cmds = [c["argv"] for c in r.item["calls"]]
        where = f"item {n} {cmds} stop {r.stopinfo}"
        if any("--clean" in a for a in cmds):
            out = clean(sc, r, B, cmds, where)
        elif any("--garbage" in a for a in cmds):
            out = listing(sc, r, B, where)
        else:
            out = following(sc, r, B, n, results[0], where)
        if out:
            return out
    return []


def files_of(tree):
    return {k: v for k, v in tree.items() if not k.endswith("/")}


def mentioned(text):
    return sorted(posixpath.normpath(x) for x in text.decode("utf-8", "surrogateescape").split("\n") if x)


def changed(r):
    return [x for x in o.diff_trees(files_of(r.before), files_of(r.after)) if "__pycache__" not in x]


def listing(sc, r, B, where):
    if changed(r):
        return [o.v("listing-changes", f"{where}: {changed(r)}")]
    if [e for e in r.events if e[4] in ("start", "setup")]:
        return [o.v("executes", f"{where}")]
    want = sorted(garbage(r.before, r.suite, B))
    if not o.good(r):
        return [o.v("listing-fails", f"{where}: {o.call_status(r)} {o.tail(r)}")]
    got = mentioned(r.stdout)
    if got != want:
        return [o.v("listing", f"{where}: names {[x for x in got if x not in want]} more and {[x for x in want if x not in got]} less, {len(got)} in all; "
                    f"cases {gen.names(r.suite)}")]
    return []


def clean(sc, r, B, cmds, where):
    want = garbage(r.before, r.suite, B)
    if [e for e in r.events if e[4] in ("start", "setup")]:
        return [o.v("executes", f"{where}")]
    ch = changed(r)
    bad = [x for x in ch if x[0] != "-" or x[1:] not in want]
    if bad:
        return [o.v("clean-damage", f"{where}: {bad} of cases {gen.names(r.suite)}; faults {o.evs(r, 'fault')[:3]}")]
    gone = {x[1:] for x in ch}
    told = [x[len("removed "):] for x in r.stdout.decode("utf-8", "surrogateescape").split("\n") if x.startswith("removed ") and x.endswith(tuple(k[-1] for k in want))]
    told = sorted(posixpath.normpath(x) for x in told)
    faulted, stopped = o.faulted_run(r), bool(r.stopinfo)
    if not (stopped and r.stopinfo[0] != "sigint"):
        wrong = [x for x in told if x not in gone]
        if wrong:
            return [o.v("clean-report", f"{where}: says it removed {wrong}; gone {sorted(gone)}")]
    if stopped:
        return []
    good = all(o.good(r, i) for i in range(len(cmds)))
    if good and gone != want and not [e for e in o.evs(r, "fault") if e[6] == "list"]:
        return [o.v("clean-incomplete", f"{where}: leaves {sorted(want - gone)} and ends with success; faults {o.evs(r, 'fault')[:3]}")]
    if faulted:
        return []
    if not good:
        return [o.v("clean-fails", f"{where}: {[o.call_status(r, i) for i in range(len(cmds))]} {o.tail(r)}")]
    if told != sorted(want):
        return [o.v("clean-report", f"{where}: reports {told} of {sorted(want)}")]
    if len(cmds) > 1:
        named = [posixpath.normpath(x) for x in r.stdout.decode("utf-8", "surrogateescape").split("\n") if x and not x.startswith("removed ")]
        if sorted(named) != sorted(want):
            return [o.v("clean-listing", f"{where}: removes {sorted(gone)}, listed {sorted(named)}")]
    return []


def following(sc, r, B, n, rs, where):
    """A run after the cleaning gives the results that the remaining files imply"""
    if not o.is_run(o.argv_of(r)) or "-s" not in o.argv_of(r) or r.stopinfo or o.faulted_run(r) or not any("--clean" in c["argv"] for q in rs[:n] for c in q.item["calls"]):
        return []
    bad = [x.case for x in o.execs(r) if o.verdict(r.spec[x.case], x, o.expect(r.before, x.case, B)) != o.OK]
    if o.good(r) != (not bad):
        return [o.v("after-clean", f"{where}: ends with {o.call_status(r)}, failing cases {bad}; {o.tail(r)}")]
    return []


def nontrivial(sc, results):
    for r in results[0]:
        if any("--clean" in c["argv"] for c in r.item["calls"]):
            B = books(sc, r)
            g = garbage(r.before, r.suite, B)
            if g and [k for k in r.before if k.startswith(B + "/") and not k.endswith("/") and k not in g]:
                return True
    return False


def probes(sc, results):
    out = []
    seen = False
    for r in results[0]:
        if any("--clean" in c["argv"] for c in r.item["calls"]):
            seen = True
            if r.stopinfo:
                out.append(f"clean stopped by {r.stopinfo[0]}")
            for e in o.evs(r, "fault"):
                out.append(f"clean with a fault of {e[6]}")
            if any("/.batches/" in k for k in r.before):
                out.append("left-overs of a parallel run")
            if any(k.endswith(".new") for k in r.before):
                out.append("left-overs of a killed accept or index")
        elif not seen and r.stopinfo:
            out.append(f"run before it stopped by {r.stopinfo[0]}")
    for k in sc["worlds"][0].get("config") or {}:
        out.append(f"configured {k}")
    return out
