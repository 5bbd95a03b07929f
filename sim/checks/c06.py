"""C06: after a kill or an interrupt, continuing neither loses nor invents passes."""
import copy
from sim import gen, oracle as o

COUNT = {"quick": 90, "thorough": 2600}
NONTRIVIAL = "a run was killed or interrupted after at least one body started, and a later run continued"
KINDS = ["ok", "ok", "ok", "diff", "diff", "fail", "raise:value", "opaque"]
OTHER = [["-l"], ["-l", "-c"], ["-w"], ["-w", "-i"], ["-w", "-c"], ["--garbage"], ["--path"], ["--print"], ["--config"], ["--view"],
         ["-w", "-I"], ["-w", "-a"], ["--clean"]]


def scenarios(rng, run, tier, i):
    n = rng.choice([2, 3, 4, 5, 6])
    S = gen.suite(rng, n, mods=rng.choice([1, 2]), p_dep=0.35, p_res=0.15, p_setup=0.3, odd=rng.random() < 0.25)
    spec = gen.spec(rng, S)
    for c in spec:
        if rng.random() < 0.3:
            spec[c].insert(rng.randint(1, len(spec[c])), rng.choice([["file", "snap.txt", "content " + c], ["tmp", "t.txt", "temp"],
                                                                    ["image", "pic", "picture of " + c]]))
            if any(s[0] == "image" for s in spec[c]):
                spec[c] = [s for s in spec[c] if s[0] != "image"] + [["file", "img.txt", "x"]]
    items = []
    if rng.random() < 0.75:
        items.append(gen.item(["-a"], rng))
    elif rng.random() < 0.5:
        items.append(gen.item(["-a"] + gen.selection(rng, S, 1.0), rng))
    # the run that is stopped
    ov = {c: gen.body(rng, c, rng.choice(KINDS)) for c in gen.names(S) if rng.random() < rng.choice([0, 0.3, 0.6])}
    par = gen.pflag(rng) if rng.random() < 0.45 else []
    it = gen.item(par + rng.choice([[], [], [], ["-c"], ["-a"], ["-u"], ["-f"], ["-a", "-c"], ["-i"], ["-a", "-u"], ["-S"], ["-v"]])
                  + gen.selection(rng, S, 0.3), rng)
    it["spec"] = ov
    it["answers"] = [rng.choice(["a", "c", "c", "q", "l"]) for _ in range(20)] + ["c"] * 10
    items.append(it)
    k = len(items) - 1
    tail = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        t = gen.item(rng.choice(OTHER) + gen.selection(rng, S, 0.2), rng)
        t["answers"] = [rng.choice(["a", "c", "c", "q"]) for _ in range(12)] + ["c"] * 10
        tail.append(t)
    if rng.random() < 0.3:
        # a second interrupted run
        t = gen.item((gen.pflag(rng) if rng.random() < 0.4 else []) + rng.choice([["-c"], [], ["-a"]]) + gen.selection(rng, S, 0.3), rng)
        t["stops"] = [{"at": rng.randint(1, 50 * n), "kind": rng.choice(["kill", "torn", "sigint"]), "frac": gen.frac(rng)}]
        t["spec"] = dict(ov) if rng.random() < 0.5 else {}
        tail.append(t)
    last = gen.item((gen.pflag(rng) if rng.random() < 0.4 else []) + ["-c"] + rng.choice([[], [], ["-a"], ["-v"], ["-L"]])
                    + (gen.selection(rng, S, 0.15)), rng)
    last["spec"] = dict(ov) if rng.random() < 0.5 else {}
    tail.append(last)
    if rng.random() < 0.3:
        tail.append(gen.item(["-c"] + (gen.pflag(rng) if rng.random() < 0.3 else []), rng, spec=dict(last["spec"])))
    items += tail
    sc = {"suite": S, "spec": spec, "worlds": [{"items": items}]}
    probe = copy.deepcopy(sc)
    probe["worlds"][0]["items"] = probe["worlds"][0]["items"][:k + 1]
    r = run(probe)[0][k]
    total = max(r.ops, 2)
    first = next((e[0] for e in r.events if e[4] == "start"), None)
    for j in range(7):
        s = copy.deepcopy(sc)
        kind = rng.choice(["kill", "kill", "kill", "torn", "torn", "killmain", "sigint", "sigint_main"])
        if kind == "killmain" and not par:
            kind = "kill"
        at = 1 + int(total * (j + rng.random()) / 6) if j < 6 else rng.randint(1, min(15, total))
        s["worlds"][0]["items"][k]["stops"] = [{"at": at, "kind": kind, "frac": gen.frac(rng)}]
        yield s


def judge(sc, results):
    out = []
    last = {}                    # case -> (result of its latest finished execution, where)
    stopped = False
    for n, r in enumerate(results[0]):
        argv = o.argv_of(r)
        cut = bool(r.stopinfo)
        st = o.call_status(r)
        after_stop = stopped
        stopped = stopped or cut
        if not cut:
            if r.ended != "exit" or st is None or st[0] == "raise":
                if r.ended in ("hang", "spin") or after_stop:
                    out.append(o.v("broken-after-stop", f"item {n} {argv}: ended={r.ended} {r.hang} {st} {o.tail(r)}"))
                return out
        elif r.stopinfo[0].startswith("sigint") and r.ended != "exit":
            out.append(o.v("hang-after-interrupt", f"item {n} {argv}: ended={r.ended} {r.hang} {o.tail(r)}"))
            return out
        # what is recorded as a pass before this command is a pass
        todo = o.todo(r.suite, argv, r.before)
        ex = o.execs(r)
        if o.is_run(argv):
            done = {x.case for x in ex}
            if not cut:
                recs = o.record_map(r.after)
                stop_early = "-f" in argv or "q" in [e[6] for e in o.evs(r, "input")]
                for c in sorted(todo - done):
                    if any(not o.has_bin(r.after, d) for d in o.dep_names(r.suite, c)):
                        if c in recs and recs[c] != ["FAIL"]:
                            out.append(o.v("wrong-verdict", f"item {n} {argv}: {c} has no usable dependency, recorded {recs[c]}"))
                        continue
                    if not stop_early:
                        out.append(o.v("not-executed", f"item {n} {argv}: {c} was not executed; records before "
                                                       f"{o.record_map(r.before)}; {o.tail(r)}"))
                for c in sorted(done - todo):
                    out.append(o.v("executed-again", f"item {n} {argv}: {c} was executed, though its pass was recorded"))
                for x in ex:
                    want = o.result_of(r, x)
                    got = recs.get(x.case)
                    if want is not None and got != [want]:
                        out.append(o.v("wrong-verdict", f"item {n} {argv}: {x} must be {want}, recorded {got}; {o.tail(r)}"))
            elif not o.is_parallel(argv):
                # every execution before the last one that was started has been recorded
                recs = o.record_map(r.after)
                for x in ex[:-1]:
                    want = o.result_of(r, x)
                    if x.done and want is not None and recs.get(x.case) != [want]:
                        out.append(o.v("result-lost", f"item {n} {argv} stop {r.stopinfo}: {x} {want} is recorded as {recs.get(x.case)}"))
            if cut:
                pre, post = o.record_map(r.before), o.record_map(r.after)
                for c, vs in pre.items():
                    if c not in todo and post.get(c) != vs:
                        out.append(o.v("record-lost", f"item {n} {argv} stop {r.stopinfo}: the record {vs} of {c} became {post.get(c)}"))
            for x in ex:
                if x.done:
                    last[x.case] = (o.result_of(r, x), f"item {n} {x}")
        else:
            # results accepted in a review become passes
            for c, vs in o.record_map(r.after).items():
                pre = o.record_map(r.before).get(c)
                if pre and pre[0] == "DIFF" and vs[0] == "OK" and c in last and \
                        accepted(r, c):
                    last[c] = ("OK", f"accepted in item {n}")
        for c, vs in o.record_map(r.after).items():
            if vs[0] == "OK" and c in last and last[c][0] not in ("OK", None):
                out.append(o.v("invented-pass", f"item {n} {argv} stop {r.stopinfo}: {c} is recorded as passed, but its latest finished "
                                                f"execution gave {last[c]}"))
            if vs[0] == "OK" and c not in last:
                out.append(o.v("invented-pass", f"item {n} {argv}: {c} is recorded as passed, but never finished an execution"))
        if out:
            return out
    return out


def accepted(r, c):
    return r.before.get(f"books/.out/{c}.md") is not None and r.after.get(f"books/.out/{c}.md") is None and \
        r.after.get(f"books/{c}.md") == r.before.get(f"books/.out/{c}.md") or \
        (r.before.get(f"books/.out/{c}.md") is None and r.after.get(f"books/{c}.md") is not None)


def nontrivial(sc, results):
    rs = results[0]
    for n, r in enumerate(rs):
        if r.stopinfo and o.execs(r) and any("-c" in o.argv_of(q) and o.is_run(o.argv_of(q)) for q in rs[n + 1:]):
            return True
    return False


def probes(sc, results):
    out = []
    for r in results[0]:
        if r.stopinfo:
            out.append("stop in " + ("parallel" if o.is_parallel(o.argv_of(r)) else "sequential" if o.is_run(o.argv_of(r)) else "command"))
    return out
