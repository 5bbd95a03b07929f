"""C08: accepting stores exactly the reviewed output, also when interrupted."""
import copy
from sim import gen, oracle as o, accept
from . import c07

COUNT = {"quick": 90, "thorough": 2600}
NONTRIVIAL = "a case was accepted, or a stop or fault hit an invocation that was accepting"
KINDS = ["ok", "ok", "diff", "diff", "diff", "fail"]
ACC = [["-a"], ["-a"], ["-a"], ["-u"], ["-a", "-u"], ["-i"], ["-I"], ["-a", "-c"], ["-a", "-v"], ["-i", "-a"]]


def scenarios(rng, run, tier, i):
    n = rng.choice([1, 2, 3, 4])
    S = gen.suite(rng, n, mods=rng.choice([1, 2]), p_dep=0.2, p_res=0.1, p_setup=0.1, odd=rng.random() < 0.25)
    spec = {c: c07.body(rng, c, p=0.7) for c in gen.names(S)}
    cr = rng.choice(gen.names(S)) if rng.random() < 0.07 else None
    items = []
    if rng.random() < 0.8:
        items.append(gen.item(["-a"], rng))
    answers = [rng.choice(["a", "a", "a", "c", "l", "v"]) for _ in range(20)] + ["c"] * 20
    target = None
    for k in range(rng.choice([1, 1, 2, 3])):
        par = gen.pflag(rng) if rng.random() < 0.35 else []
        if rng.random() < 0.35 and k:
            it = gen.item(["-w"] + rng.choice([["-a"], ["-i"], ["-I"], ["-u"], ["-u", "-a"]]) + gen.selection(rng, S, 0.2), rng)
        else:
            it = gen.item(par + rng.choice(ACC) + gen.selection(rng, S, 0.2), rng)
        if rng.random() < 0.8:
            it["spec"] = {}
            for c in gen.names(S):
                if rng.random() < 0.6:
                    it["spec"][c] = c07.body(rng, c, rng.choice(KINDS), rng.choice([1, 2, 3]), p=0.7)
        else:
            it["spec"] = dict(items[-1].get("spec", {})) if items else {}
        it["answers"] = answers
        items.append(it)
    k = rng.randrange(len(items))
    # an unchanged rerun, and accepting again
    last = items[-1]
    items.append(gen.item(rng.choice([[], [], ["-p3"], ["-w", "-I"], ["-u"], ["-a"]]), rng, spec=dict(last.get("spec", {})), answers=answers))
    if rng.random() < 0.5:
        items.append(gen.item(rng.choice([["-a"], ["-w", "-a"], ["-w", "-I"], []]), rng, spec=dict(last.get("spec", {})), answers=answers))
    for b in [spec] + [it.get("spec", {}) for it in items]:
        if cr in b and not any("\r" in str(x[1:2]) for x in b[cr]):
            b[cr] = list(b[cr])
            b[cr].insert(len(b[cr]) - 1, ["t", "carriage\rreturn"])
    sc = {"suite": S, "spec": spec, "worlds": [{"items": items}]}
    yield sc
    probe = copy.deepcopy(sc)
    probe["worlds"][0]["items"] = probe["worlds"][0]["items"][:k + 1]
    probe["worlds"][0]["items"][k]["oplog"] = True
    r = run(probe)[0][k]
    total = max(r.ops, 2)
    hot = [e[5] + d for e in o.evs(r, "op") if e[7] and e[7].startswith("books/simbook/") or e[6] in ("rename", "rmdir", "remove")
           for d in (0, 1)] or [1]
    for j in range(6):
        s = copy.deepcopy(sc)
        it = s["worlds"][0]["items"][k]
        if j < 4:
            it["stops"] = [{"at": rng.choice(hot) if j < 3 else 1 + int(total * rng.random()), "kind": rng.choice(["kill", "kill", "torn", "sigint", "killmain"]),
                            "frac": gen.frac(rng)}]
        else:
            it["rules"] = [{"kinds": rng.choice([["rename"], ["rename"], ["remove"], ["rmdir"], ["write"], ["open_w"], ["mkdir"]]),
                            "glob": rng.choice(["books/*", "books/simbook/*", "books/.out/simbook/*"]), "nth": rng.randint(1, 6),
                            "persist": rng.random() < 0.3, "err": rng.choice(["ENOSPC", "EIO", "EACCES"]), "frac": gen.frac(rng)}]
        yield s


def judge(sc, results):
    out = []
    ledger = {}
    fresh = {}                # case -> the execution whose output its expectation holds
    for n, r in enumerate(results[0]):
        argv = o.argv_of(r)
        if r.ended in ("hang", "spin"):
            break
        before_ledger = dict(ledger)
        oc = accept.judge_invocation(r, ledger)
        hit = bool(r.stopinfo) or o.faulted_run(r)
        where = f"item {n} {argv} stop {r.stopinfo} faults {o.evs(r, 'fault')}"
        for c, x in oc.items():
            if returns(r, c):
                continue                # which verdict it gets is the known finding, see below
            got = accept.state(r.after, c)
            new = x.new
            if new is None:
                if got.md != x.old.md or got.dir != x.old.dir:
                    # not accepted: C07 judges that, except for cut texts
                    if got.md not in (x.old.md, (ledger.get(c) or [None])[0]):
                        out.append(o.v("damaged", f"{where}: the expectation of {c} was {x.old.md!r}, is {got.md!r}"))
                continue
            if x.why.startswith("review") and c in before_ledger and before_ledger[c][2] and new.md != before_ledger[c][0]:
                out.append(o.v("not-the-reviewed-output", f"{where}: {c} accepted {new.md!r}, its execution wrote {before_ledger[c][0]!r}"))
            if not hit:
                if got.md != new.md:
                    out.append(o.v("not-accepted-exactly", f"{where}: {c} ({x.why}) expectation is {got.md!r}, the reviewed output was {new.md!r}"))
                elif (got.dir or None) != (new.dir or None):
                    out.append(o.v("snapshots-not-exact", f"{where}: {c} ({x.why}) snapshots are {got.dir}, that execution made {new.dir}"))
                continue
            if got.md not in (x.old.md, new.md):
                out.append(o.v("torn-expectation", f"{where}: {c} expectation was {x.old.md!r}, accepted was {new.md!r}, is {got.md!r}"))
            elif not accept.dir_ok(got.dir, x.old.dir, new.dir, True):
                out.append(o.v("mixed-snapshots", f"{where}: {c} snapshots were {x.old.dir}, accepted were {new.dir}, are {got.dir}"))
            elif x.old.dir and new.dir and got.md == x.old.md and got.dir == new.dir and x.old.dir != new.dir and got.md != new.md:
                out.append(o.v("snapshots-without-expectation", f"{where}: {c} has the old expectation and the new snapshots"))
        if out:
            break
        if not hit and o.is_run(argv):
            # what was accepted passes when it runs unchanged
            recs = o.record_map(r.after)
            for x in o.execs(r):
                if x.case in fresh and fresh[x.case] == r.spec.get(x.case) and x.done and recs.get(x.case) != ["OK"]:
                    out.append(o.v("rerun-differs", f"{where}: {x.case} was accepted and reran unchanged, but is {recs.get(x.case)}; {o.tail(r)}",
                                   **({"where": "carriage return"} if returns(r, x.case) else {})))
        for x in o.execs(r):
            fresh.pop(x.case, None) if oc[x.case].new is not None else None
        if not hit:
            for c, x in oc.items():
                if x.new is not None and o.is_run(argv) and not o.dep_names(r.suite, c):
                    fresh[c] = r.spec.get(c)
                elif x.new is not None:
                    fresh.pop(c, None)
        else:
            fresh.clear()
        if out:
            break
    return out


def returns(r, c):
    return "\\r" in str([s for s in r.spec.get(c, []) if s[0] == "t"])


def nontrivial(sc, results):
    ledger = {}
    return any(x.new is not None for r in results[0] for x in accept.judge_invocation(r, ledger).values())


def probes(sc, results):
    ledger = {}
    out = []
    for r in results[0]:
        oc = accept.judge_invocation(r, ledger)
        for c, x in oc.items():
            if x.new is None:
                continue
            got = accept.state(r.after, c)
            if r.stopinfo or o.faulted_run(r):
                out.append("hit while accepting: " + ("new" if got.md == x.new.md else "old") + " text, " +
                           ("no folder" if got.dir is None else "new folder" if got.dir == x.new.dir else "old folder" if got.dir == x.old.dir
                            else "part of the old folder"))
    return out
