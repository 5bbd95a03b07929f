"""C14: function snapshots and mocks give the recorded results."""
import json
from sim import gen, oracle as o, project

COUNT = {"quick": 400, "thorough": 12000}
NONTRIVIAL = "a decorated case executed"
SNAP = ["f0", "f1", "f2", "svc.sm", "svc2.sm", "Svc.cm", "Svc.st", "simlib2.f0"]
CALLED = SNAP + ["f0", "f1", "f2"]
ARGS = [[], [1], [1, 2], ["1"], [[1, 2]], [{"a": 1}], [{"a": [1]}], ["ü"], [None], [True], [1.5]]
KW = [{}, {}, {}, {"k": 1}, {"k": "v"}]
MOCKS = {"f0": "mock0", "f1": "mock1", "f2": "mock0", "Svc.m": "mockm", "svc.sm": "mock1", "Svc.cm": "mock0", "Svc.st": "mock1",
         "g0": "amock", "simlib2.f0": "mock0"}
FUNCS = [None, ["count"], [{"a": 1}, {"a": 2}], [[1], [2], [3]], ["raise", {"ok": 1}], ["x", None, 0], [{"v": [1, {"w": 2}]}], ["count"]]


def decorate(rng, it):
    dec = []
    if rng.random() < 0.8:
        dec.append(["fns", rng.sample(SNAP, rng.choice([1, 2, 3, 4]))])
    if rng.random() < 0.4:
        names = rng.sample(sorted(MOCKS), rng.choice([1, 1, 2, 3]))
        pairs = [[n, MOCKS[n]] for n in names]
        if rng.random() < 0.15:
            pairs.insert(rng.randint(0, len(pairs)), ["unpatchable", "mock0"])
        dec.append(["mockfns", pairs])
    if rng.random() < 0.25:
        dec.append(["setup"])
    rng.shuffle(dec)
    it["dec"] = dec


def owner(it, fn):
    """Which decorator answers calls of fn: the innermost that replaces it."""
    out = None
    for d in it.get("dec", []):
        if d[0] == "fns" and fn in d[1]:
            out = "snap"
        elif d[0] == "mockfns":
            for n, m in d[1]:
                if n == fn or n == "Svc.m" and fn in ("svc.m", "svc2.m"):
                    out = m
    return out


def setup_fails(it):
    return any(d[0] == "mockfns" and any(n == "unpatchable" for n, m in d[1]) for d in it.get("dec", []))


def calls(rng, it, fns, n, pool):
    out = []
    for _ in range(n):
        fn = rng.choice(pool)
        s = ["call", fn, rng.choice(ARGS), rng.choice(KW)]
        if it.get("async") and fn == "g0":
            s[0] = "acall"
        r = rng.random()
        if r < 0.3:
            s.append("mutate")
        elif r < 0.6 and fns.get(fn) is None and owner(it, fn):
            s.append("print")
        out.append(s)
    return out


def body(rng, it, fns, kind="ok", ver=1):
    own = [f for f in SNAP if owner(it, f)]
    pool = own * 3 + CALLED if rng.random() < 0.8 else (own or CALLED)
    pool = pool + (["svc.m", "svc2.m"] if owner(it, "svc.m") else []) + (["g0"] * 2 if it.get("async") and owner(it, "g0") else [])
    if rng.random() < 0.3:
        pool = rng.sample(pool, min(2, len(pool)))
    steps = [["t", f"case {ver}"]]
    cs = calls(rng, it, fns, rng.choice([1, 2, 3, 5]), pool)
    for s in cs:
        if rng.random() < 0.5 and s[0] == "call":
            steps.append(["try", [s]])
            if rng.random() < 0.3:
                steps.append(["try", [list(s)]])
        else:
            steps.append(s)
        if rng.random() < 0.2:
            steps.append(["sleep", rng.choice([0.001, 0.1])])
    if rng.random() < 0.2:
        groups = [[["try", [s]] for s in calls(rng, it, fns, rng.choice([1, 2]), [p for p in pool if p != "g0"] or ["f0"]) if
                   s.pop() not in ("print",) or s.append({}) is None] for _ in range(rng.choice([2, 3]))]
        for g in groups:
            for t in g:
                s = t[1][0]
                del s[4:]
                while len(s) < 4:
                    s.append({})
        steps.append(["threads", groups])
    if kind == "fail":
        steps.append(["assert", False])
    elif kind == "diff":
        steps.append(["t", "something else"])
    elif kind.startswith("raise:"):
        steps.append(["raise", kind[6:]])
    steps.append(["ret", ["static", 1]])
    return steps


FLAGS = [[], [], [], ["-s", "-a", "-u"], ["-S", "-a", "-u"], ["-s"], ["-S"], ["-s", "-a", "-u"], ["-u"]]
RAISES = ["value", "exit", "cancel", "assert"]


def functions(rng):
    out = {}
    for n in set(CALLED) | {"svc.m", "svc2.m"}:
        f = rng.choice(FUNCS)
        if f is not None:
            out[n] = f
    return out


def scenarios(rng, run, tier, i):
    S = gen.suite(rng, rng.choice([1, 2, 3]), mods=1, p_dep=0.1, p_res=0, p_setup=0.1, p_inst=0.2, p_async=0.4, odd=rng.random() < 0.2)
    its = {c: it for c, it, *_ in project.case_names(S)}
    for it in its.values():
        if rng.random() < 0.85 and "dec" not in it:
            decorate(rng, it)
    fns = functions(rng)
    spec = {c: body(rng, its[c], fns) for c in its}
    items = []
    if rng.random() < 0.85:
        items.append(gen.item(rng.choice([["-s", "-a", "-u"], ["-S", "-a", "-u"], ["-s", "-a", "-u", "-p2"]]), rng))
        if rng.random() < 0.6 and "threads" in str(spec):
            items[-1]["lines"] = rng.choice([1, "instr"])
            items[-1]["sched"]["linemean"] = rng.choice([3, 10, 40])
    for _ in range(rng.choice([1, 2, 3])):
        argv = list(rng.choice(FLAGS)) + (gen.pflag(rng) if rng.random() < 0.25 else [])
        it = gen.item(argv, rng)
        if rng.random() < 0.5:
            it["spec"] = {c: body(rng, its[c], fns, rng.choice(["ok", "ok", "diff", "fail", "raise:" + rng.choice(RAISES)]))
                          for c in its if rng.random() < 0.6}
        if rng.random() < 0.5:
            it["fns"] = functions(rng)
        if rng.random() < 0.6 and "threads" in str([spec, it.get("spec")]):
            it["lines"] = rng.choice([1, "instr"])
            it["sched"]["linemean"] = rng.choice([3, 10, 40])
        if rng.random() < 0.12:
            it["rules"] = [{"kinds": rng.choice([["open_w"], ["write"], ["mkdir"]]), "glob": rng.choice(["*/.functions*", "*.md", "*.txt"]),
                            "nth": rng.randint(1, 4), "err": rng.choice(["ENOSPC", "EIO"]), "frac": gen.frac(rng)}]
        items.append(it)
    lat = {f: [rng.choice([0.001, 0.01, 0.2]) for _ in range(3)] for f in CALLED if rng.random() < 0.4}
    yield {"suite": S, "spec": spec, "fns": fns, "fnlat": lat, "fp": True, "worlds": [{"items": items}]}


def mode_of(argv):
    return "refresh" if "-S" in argv else "complete" if "-s" in argv else "replay"


def events_of(r, x):
    """Events of an execution: those of its process between its start and its end."""
    end = x.seq1 or 1 << 60
    return [e for e in r.events if e[2] == x.proc and x.seq0 < e[0] <= end and e[4] in ("obs", "realcall", "mockcall", "end")]


def per_thread(evs):
    out = {}
    for e in evs:
        out.setdefault(e[3], []).append(e)
    return out


def judge(sc, results):
    out = []
    stored = {}              # case -> {key: set of allowed images}
    fresh = {}               # case -> spec whose captured run was accepted
    for k, r in enumerate(results[0]):
        if r.ended in ("hang", "spin"):
            break
        argv = o.argv_of(r)
        mode = mode_of(argv)
        its = {c: it for c, it, *_ in project.case_names(r.suite)}
        faulted = o.faulted_run(r) or bool(r.stopinfo)
        recs = o.record_map(r.after)
        where = f"item {k} {argv}"
        bad = False
        for x in o.execs(r):
            if x.case not in its:
                continue
            it = its[x.case]
            if setup_fails(it):
                out.append(o.v("ran-after-failed-setup", f"{where}: {x.case}"))
                continue
            st = stored.get(x.case, {})
            used, usedby = {}, {}
            unjson = False
            for tid, evs in per_thread(events_of(r, x)).items():
                pend = []                  # real calls not yet observed
                mocks = []
                for e in evs:
                    if e[4] == "realcall":
                        pend.append(e)
                        own = owner(it, e[5])
                        key = (e[5], e[6])
                        if own not in (None, "snap"):
                            out.append(o.v("mocked-function-called", f"{where}: {x.case} called {key}, that is mocked by {own}"))
                        elif own == "snap" and (mode == "replay" or mode == "complete" and key in st):
                            out.append(o.v("snapshotted-function-called", f"{where}: {x.case} called {key} in mode {mode}, stored {st.get(key)}"))
                        elif own == "snap":
                            if e[7] == "unjson":
                                unjson = True
                            elif e[7] != "raise":
                                usedby.setdefault(key, {})[tid] = e[7]
                    elif e[4] == "mockcall":
                        mocks.append(e[5])
                    elif e[4] == "obs" and e[6] == "call":
                        fn, args, res = e[7], e[8], e[9]
                        own = owner(it, fn)
                        key = (fn, args)
                        mine = [p for p in pend if p[5] == fn and p[6] == args]
                        if own is None:
                            if not mine or mine[-1][7] != res:
                                out.append(o.v("undecorated-call", f"{where}: {x.case} got {res} from {key}, that nothing replaces; real calls {mine}"))
                        elif own != "snap":
                            a, kw = json.loads(args)
                            if json.loads(res) != [own, a, kw] or own not in mocks:
                                out.append(o.v("mock-not-called", f"{where}: {x.case} got {res} from {key}, that is mocked by {own}"))
                        elif mode != "refresh" and key in st:
                            used[key] = st[key]
                            if res not in st[key]:
                                out.append(o.v("replayed-wrong", f"{where}: {x.case} got {res} from {key}, recorded was {sorted(st[key])}"))
                        elif mode == "replay":
                            out.append(o.v("answered-without-snapshot", f"{where}: {x.case} got {res} from {key}, that has no snapshot"))
                        elif not mine or mine[-1][7] != res:
                            out.append(o.v("capture-changed-result", f"{where}: {x.case} got {res} from {key}, the real calls gave {mine}"))
                        pend = []
                        mocks = []
                    elif e[4] == "obs" and e[6] == "caught":
                        pend = []
            for key, by in usedby.items():
                used[key] = set(by.values())
            if out:
                break
            steps = r.spec.get(x.case, [])
            failed = x.how != "return" or ["assert", False] in steps
            if unjson and recs.get(x.case) != ["FAIL"]:
                out.append(o.v("unstorable-result", f"{where}: {x.case} is {recs.get(x.case)}"))
            if not faulted:
                if x.how == "raise" and recs.get(x.case) != ["FAIL"]:
                    out.append(o.v("raise-not-failing", f"{where}: {x.case} is {recs.get(x.case)}"))
                if fresh.get(x.case) == steps and x.case in fresh and mode == "replay" and not failed and recs.get(x.case) != ["OK"]:
                    out.append(o.v("rerun-differs", f"{where}: {x.case} was captured, accepted and reran unchanged, but is {recs.get(x.case)}; {o.tail(r)}"))
            if "-u" in argv and not failed:
                if recs.get(x.case) == ["OK"]:
                    stored[x.case] = used
                    if not any(s[0] == "threads" for s in steps) and "-a" in argv and mode != "replay" and stable(r.item.get("fns", sc.get("fns", {})), steps) and not o.dep_names(r.suite, x.case):
                        fresh[x.case] = steps
                    else:
                        fresh.pop(x.case, None)
                else:
                    if not faulted and "-a" in argv:
                        out.append(o.v("not-accepted", f"{where}: {x.case} is {recs.get(x.case)}; {o.tail(r)}"))
                    bad = True
        for c, it in its.items():
            if setup_fails(it) and not faulted and c in o.todo(r.suite, argv, r.before) and recs.get(c) != ["FAIL"]:
                out.append(o.v("failed-setup-not-failing", f"{where}: {c} is {recs.get(c)}"))
        for c in o.unreached(r, {c for c, it in its.items() if setup_fails(it)}):
            out.append(o.v("not-started", f"{where}: the body of {c} was never started; {o.tail(r)} {o.output(r.after, c)}"))
        if out or bad or faulted and "-u" in argv:
            break
    return out


def stable(fns, steps):
    """Whether replaying gives the same output: what is printed comes from functions that answer the same every time."""
    return not any(fns.get(q[1]) is not None for q in flat(steps) if q[0] in ("call", "acall") and len(q) > 4 and q[4] == "print")


def flat(steps):
    for s in steps:
        if s[0] == "try":
            yield from flat(s[1])
        else:
            yield s


def nontrivial(sc, results):
    return any(x.how is not None for r in results[0] for x in o.execs(r))


def probes(sc, results):
    out = []
    for r in results[0]:
        its = {c: it for c, it, *_ in project.case_names(r.suite)}
        m = mode_of(o.argv_of(r))
        for x in o.execs(r):
            it = its[x.case]
            for e in events_of(r, x):
                if e[4] == "obs" and e[6] == "call":
                    out.append(f"{m}: call of a {'free' if owner(it, e[7]) is None else 'snapshotted' if owner(it, e[7]) == 'snap' else 'mocked'} function")
                elif e[4] == "obs" and e[6] == "caught":
                    out.append(f"{m}: call failed")
    return out
