"""C03: dependencies finish first and deliver exactly their result."""
import copy
from sim import gen, oracle as o, project

COUNT = {"quick": 360, "thorough": 10000}
NONTRIVIAL = "a case with at least one dependency received a value"
KINDS = ["ok", "ok", "ok", "diff", "fail", "raise:value", "opaque"]
RETS = [["token"], ["token"], ["token"], ["token"], ["none"], ["json", 0], ["json", ""], ["json", []], ["json", False], ["val", 1],
        ["big", 40], ["big", 30000]]


def body(rng, n, kind="ok"):
    return gen.body(rng, n, kind, deps="deps", ret=rng.choice(RETS), logs=False)


def scenarios(rng, run, tier, i):
    n = rng.choice([3, 4, 5, 6, 8]) if i % 8 else rng.choice([11, 14])
    S = gen.suite(rng, n, mods=rng.choice([1, 2, 3]), p_dep=rng.choice([0.5, 0.8]), p_res=0.15, p_class=0.45, p_inst=0.5)
    spec = {c: body(rng, c) for c in gen.names(S)}
    if i % 30 == 11:
        # tests that modify what they receive (known finding "shared-result")
        for c in spec:
            spec[c][-1:] = [["mutdeps"]] * rng.choice([0, 1]) + [["ret", ["json", rng.choice([[], [1], {"k": 1}])]]]
    items = []
    users = [n for n in gen.names(S) if o.dep_names(S, n)]
    if i % 12 == 5 and users:
        # a process that keeps its results in memory, while workers replace them on disk
        it = gen.item([], rng)
        it["calls"] = [{"api": "exec", "cache": rng.choice(["none", "dict", "lru8"]), "argv": a + ["simbook"]}
                       for a in ([], gen.pflag(rng) + rng.choice([[], ["-a"]]))]
        for u in rng.sample(users, min(len(users), 3)):
            it["calls"].append({"api": "exec", "cache": it["calls"][0]["cache"], "argv": [u]})
        items.append(it)
    for k in range(rng.choice([2, 3, 4, 5]) if not items else 1):
        sel = gen.selection(rng, S, 0.6)
        flags = rng.choice([[], [], [], ["-c"], ["-r"], ["-a"], ["-u"], ["-f"]])
        mode = rng.random()
        if mode < 0.35:
            it = gen.item(gen.pflag(rng) + flags + sel, rng)
        elif mode < 0.65:
            it = gen.item(flags + sel, rng)
        else:
            cache = rng.choice(["none", "dict", "lru1", "lru2", "lru8", "nocache"])
            it = gen.item([], rng)
            it["calls"] = []
            for j in range(rng.choice([1, 2, 3])):
                par = gen.pflag(rng) if rng.random() < 0.25 else []
                it["calls"].append({"api": "exec", "cache": cache,
                                    "argv": par + rng.choice([[], [], ["-c"], ["-r"]]) + gen.selection(rng, S, 0.6)})
                if not o.positional(it["calls"][-1]["argv"]):
                    it["calls"][-1]["argv"].append("simbook")
            if any(o.is_parallel(c["argv"]) for c in it["calls"]):
                it["sched"] = gen.scen.sched(rng)
        it["spec"] = {c: body(rng, c, rng.choice(KINDS)) for c in gen.names(S) if rng.random() < 0.25}
        if rng.random() < 0.3:
            it["stops"] = [{"at": rng.randint(1, 30 * n), "kind": rng.choice(["kill", "torn", "torn", "killmain"]), "frac": gen.frac(rng)}]
        elif rng.random() < 0.2:
            it["rules"] = [{"kinds": rng.choice([["write"], ["open_w"], ["rename"], ["open_r"], ["read"], ["remove"]]),
                            "glob": "books/.out/*.bin*", "nth": rng.randint(1, 4), "persist": rng.random() < 0.3,
                            "err": rng.choice(["ENOSPC", "EIO", "SHORT"]), "frac": gen.frac(rng)}]
        items.append(it)
    sc = {"suite": S, "spec": spec, "worlds": [{"items": items}]}
    cut = [k for k, it in enumerate(items[:-1]) if "stops" in it and it["stops"][0]["kind"] == "torn"]
    if cut:
        # a result is cut, and something that depends on it follows
        k = cut[0]
        probe = copy.deepcopy(sc)
        del probe["worlds"][0]["items"][k]["stops"]
        probe["worlds"][0]["items"][k]["oplog"] = True
        r = run(probe)[0]
        hot = [e for e in o.evs(r[k], "op") if e[6] == "write" and (e[7] or "").rpartition("/")[2].count(".bin")] if len(r) > k else []
        if hot:
            e = rng.choice(hot)
            c = e[7][len("books/.out/"):].partition(".bin")[0]
            users = [n for n in gen.names(S) if c in o.dep_names(S, n)]
            sc = copy.deepcopy(sc)
            its = sc["worlds"][0]["items"]
            its[k]["stops"] = [{"at": e[5], "kind": "torn", "frac": gen.frac(rng)}]
            if users:
                its.insert(k + 1, gen.item([rng.choice(users)], rng))
    yield sc


def res_value(d):
    kind, _, rest = d.partition(":")
    if kind in ("port", "intres"):
        return repr(int(rest))
    if kind == "idres":
        return repr(rest.split("/")[0])
    return repr(rest)


def failing(steps, x):
    return x.how != "return" or not o.storable(steps) or any(s[0] == "fail" or (s[0] == "assert" and not s[1]) for s in steps)


def judge(sc, results):
    out = []
    known = {}                # case -> set of values its dependents may receive ("never" when it has none)
    cases = {n: it for n, it, *_ in project.case_names(sc["suite"])}
    for r in results[0]:
        if r.ended in ("hang", "spin"):
            return out + [o.v("hang", f"{r.item['calls']}: {r.hang} {o.tail(r)}")]
        ex = o.execs(r)
        ends = {}
        starts = {}
        for x in ex:
            starts[x.seq0] = x
            if x.done:
                ends[x.seq1] = x
        unsure = bool(r.stopinfo) or any(e[4] == "fault" for e in r.events)
        cur = None
        ran, open_ = set(), set()
        call_fresh = {}
        pend = {}
        met = {}              # process -> [(dependency, its value)] that tests of that process received and then modified
        for e in r.events:
            if e[4] == "call_begin":
                cur = r.item["calls"][e[5]]["argv"]
                ran, begun = {}, set()
                future = {}
                # what will still be executed in this call
                nxt = [f[0] for f in r.events if f[4] == "call_begin" and f[0] > e[0]]
                lim = nxt[0] if nxt else 1 << 60
                future = {}
                for x in ex:
                    if e[0] < x.seq0 < lim:
                        future.setdefault(x.case, []).append(x)
            elif e[0] in ends:
                x = ends[e[0]]
                steps = r.spec.get(x.case, [])
                if not failing(steps, x):
                    if unsure:
                        known.setdefault(x.case, set()).add(x.detail)
                        if x.case not in pend:
                            pend[x.case] = True
                    else:
                        known[x.case] = {x.detail}
            elif e[0] in starts:
                x = starts[e[0]]
                decl = cases[x.case].get("deps", [])
                targets = project.dep_cases(sc["suite"], x.case)
                if len(x.deps) != len(decl):
                    out.append(o.v("arguments", f"{cur}: {x.case} declares {decl}, receives {x.deps}"))
                    continue
                for d, t, got in zip(decl, targets, x.deps):
                    if t is None:
                        if got != res_value(d):
                            out.append(o.v("resource-value", f"{cur}: {x.case} declares {d}, receives {got}"))
                        continue
                    ts = t[1] if isinstance(t, tuple) else [t]
                    allowed = set()
                    for c in ts:
                        allowed |= known.get(c, set())
                        for y in future.get(c, []):
                            if len(ts) == 1 and (y.seq1 is None or y.seq1 > x.seq0):
                                out.append(o.v("order", f"{cur}: {x.case} starts at {x.seq0}, its dependency {c} runs {y}"))
                    mine = met.setdefault(x.proc, [])
                    if got not in allowed and any(m[0] == str(ts) for m in mine) and any(a[:1] in "[{" for a in allowed):
                        out.append(o.v("shared-result", f"{cur}: {x.case} receives {got[:200]} for {d}, as the test before it modified "
                                                        f"{sorted(allowed)}", where="received result modified"))
                        return out
                    if any(st[0] == "mutdeps" for st in r.spec.get(x.case, [])):
                        mine.append((str(ts), got))
                    if got not in allowed:
                        out.append(o.v("wrong-value", f"{cur}: {x.case} receives {got[:200]} for {d}, the latest results of {ts} are "
                                                      f"{[a[:200] for a in allowed] or 'none'}"))
        if len(r.item["calls"]) == 1 and not unsure:
            for c in o.unreached(r):
                out.append(o.v("not-started", f"{o.argv_of(r)}: {c} was never started, although its dependencies {o.dep_names(r.suite, c)} "
                                              f"have results; {o.tail(r)}"))
        if out:
            return out
    return out


def nontrivial(sc, results):
    return any(any(t is not None for t in project.dep_cases(sc["suite"], x.case)) for r in results[0] for x in o.execs(r))


def probes(sc, results):
    out = []
    for r in results[0]:
        for c in r.item["calls"]:
            if c.get("api") == "exec":
                out.append("cache " + c["cache"])
        for x in o.execs(r):
            if "None" in x.deps:
                out.append("None delivered")
    return out
