"""C15: environment snapshots and mocks are exact and undone."""
import copy, json
from sim import gen, oracle as o, accept, project

COUNT = {"quick": 240, "thorough": 7000}
NONTRIVIAL = "a decorated case executed, or its set-up failed"
VARS = ["SIM_A", "SIM_B", "SIM_C", "SIM_D"]
VALUES = ["1", "", "two words", "ü", "a=b", "x" * 50] * 3 + ["no\udcfftext", "y" * 9000]
PROBE_NAMES = ("return", "raise")


def decorate(rng, it):
    """Adds decorators, outermost first: "dec" is the model's form, "decos" the source text."""
    free = list(VARS)
    rng.shuffle(free)
    dec = []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        kind = rng.choice(["snap", "snap", "mock", "missing"])
        if kind == "snap":
            if not free:
                continue
            names = [free.pop() for _ in range(min(len(free), rng.choice([1, 1, 2, 3])))]
            if rng.random() < 0.1:
                names.append(names[0])
            dec.append(["snap", names])
        else:
            env = {n: rng.choice(VALUES + [None]) for n in rng.sample(VARS, rng.choice([1, 1, 2, 3]))}
            if kind == "mock" and rng.random() < 0.12:
                env[rng.choice(VARS)] = 7              # not a string: the set-up fails part-way
            dec.append([kind, env])
    it["dec"] = dec


def body(rng, it, name, kind="ok", ver=1):
    steps = []
    if rng.random() < 0.5:
        steps.append(["sleep", rng.choice([0.001, 0.05, 0.3])])
    steps.append(["t", f"case {ver}"])
    stable = stable_vars(it.get("dec", []))
    for n in VARS:
        if rng.random() < 0.5:
            steps.append(["getenv", n, 1] if n in stable and rng.random() < 0.7 else ["getenv", n])
    for n in VARS:
        if rng.random() < 0.3:
            steps.append(["env", n, rng.choice(VALUES + [None, None])])
    if rng.random() < 0.4:
        steps.append([rng.choice(["sleep", "asleep"]), rng.choice([0.001, 0.2])])
    if kind == "fail":
        steps.append(["assert", False])
    elif kind == "diff":
        steps.append(["uniq", "x"])
        steps.append(["t", "differing"])
    elif kind.startswith("raise:"):
        steps.append(["raise", kind[6:]])
    if rng.random() < 0.3:
        steps.append(["file", "data.txt", f"{ver}"])
    steps.append(["ret", ["static", 1]])
    return steps


def stable_vars(dec):
    """Variables whose value inside the test is the same when captured and when replayed."""
    out = {}
    for d in dec:
        if d[0] == "snap":
            for n in d[1]:
                out[n] = True
        elif d[0] == "mock":
            for n in d[1]:
                out[n] = True
        else:
            for n in d[1]:
                out[n] = False
    return {n for n, s in out.items() if s}


def env(rng):
    return {n: rng.choice(VALUES) for n in VARS if rng.random() < 0.55}


FLAGS = [[], [], [], ["-s"], ["-s", "-a"], ["-S", "-a"], ["-S"], ["-s", "-a", "-u"], ["-a"], ["-s", "-c"], ["-u"], ["-f"]]
RAISES = ["value", "os", "exit", "cancel", "kbd", "assert", "base", "genexit", "badstr", "oddmsg"]


def scenarios(rng, run, tier, i):
    n = rng.choice([1, 2, 3, 4])
    S = gen.suite(rng, n, mods=1, p_dep=0.15, p_res=0, p_setup=0.1, p_inst=0.2, p_async=0.4, odd=rng.random() < 0.2)
    items_of = {c: it for c, it, *_ in project.case_names(S)}
    for it in items_of.values():
        if rng.random() < 0.85 and "dec" not in it:
            decorate(rng, it)
    spec = {c: body(rng, items_of[c], c) for c in items_of}
    items = []
    if rng.random() < 0.75:
        items.append(gen.item(rng.choice([["-s", "-a"], ["-S", "-a"], ["-s", "-a", "-p2"]]), rng, env=env(rng)))
    for _ in range(rng.choice([1, 2, 3])):
        argv = list(rng.choice(FLAGS)) + (gen.pflag(rng) if rng.random() < 0.3 else []) + gen.selection(rng, S, 0.15)
        it = gen.item(argv, rng, env=env(rng))
        if rng.random() < 0.5:
            it["spec"] = {}
            for c in items_of:
                if rng.random() < 0.5:
                    kind = rng.choice(["ok", "ok", "diff", "fail"] + ["raise:" + rng.choice(RAISES)] * 2)
                    it["spec"][c] = body(rng, items_of[c], c, kind, rng.choice([1, 1, 2]))
        if rng.random() < 0.08:
            c = rng.choice(sorted(items_of))
            it["files"] = {f"books/{c}/.env.json": rng.choice(["", "{\"SIM_A\": ", "{\"SIM_A\": null}", "{}"])}
        if rng.random() < 0.2:
            it["rules"] = [{"kinds": rng.choice([["open_w"], ["write"], ["open_r"]]), "glob": rng.choice(["*/.env.json", "*/.env.json", "*.md"]),
                            "nth": rng.randint(1, 3), "err": rng.choice(["ENOSPC", "EIO", "EACCES"]), "frac": gen.frac(rng)}]
        elif rng.random() < 0.2:
            it["stops"] = [{"time": int(rng.random() * 1.2e9), "kind": "sigint"}]
        items.append(it)
    yield {"suite": S, "spec": spec, "fp": True, "worlds": [{"items": items}]}


def capturing(argv):
    return "-s" in argv or "-S" in argv


def enter(dec, stored, argv, env):
    """(environment inside, captured {name: value}, failed) - stored None means unreadable"""
    env = dict(env)
    captured = {}
    for kind, a in dec:
        if kind == "snap":
            if "-S" not in argv and stored is None:
                return env, captured, True
            st = {} if "-S" in argv else stored
            for n in a:
                if n in st:
                    captured[n] = st[n]
                    put(env, n, st[n])
                elif capturing(argv):
                    captured[n] = env.get(n)
                else:
                    return env, captured, True
        elif kind == "mock":
            for n, v in a.items():
                if v is not None and not isinstance(v, str):
                    return env, captured, True
                put(env, n, v)
        else:
            for n, v in a.items():
                if n not in env and not capturing(argv):
                    put(env, n, v)
    return env, captured, False


def put(env, n, v):
    if v is None:
        env.pop(n, None)
    else:
        env[n] = v


def touched(dec):
    out = set()
    for kind, a in dec:
        out |= set(a)
    return out


def stored_env(tree, case):
    d = tree.get(f"books/{case}/.env.json")
    if d is None:
        return {}
    try:
        v = json.loads(d)
        return v if isinstance(v, dict) else None
    except ValueError:
        return None


def judge(sc, results):
    out = []
    passing_text = {}
    passing = {}               # case -> spec of its accepted, recorded execution
    for k, r in enumerate(results[0]):
        if r.ended in ("hang", "spin"):
            break
        argv = o.argv_of(r)
        items_of = {c: it for c, it, *_ in project.case_names(r.suite)}
        where = f"item {k} {argv} env {r.item.get('env')}"
        cut = bool(r.stopinfo) or any(x.detail == "KeyboardInterrupt" for x in o.execs(r))
        faulted = o.faulted_run(r)
        byno = {x.no: x for x in o.execs(r)}
        cur = {}               # process -> environment as the model has it
        open_ = {}             # process -> (exec, env before, env inside)
        recs = o.record_map(r.after)
        caps = {}
        for e in r.events:
            p = e[2]
            if e[4] in ("call_begin", "job", "call_end", "jobend"):
                fp = e[8] if e[4] == "call_end" else e[6]
                if e[4] in ("call_begin", "job"):
                    if p not in cur:
                        cur[p] = dict(fp["env"])
                if p in open_:
                    leave(cur, open_, p, items_of)
                if fp["env"] != cur[p]:
                    out.append(o.v("environment-not-restored", f"{where}: at {e[4]} in process {p} the environment was {fp['env']}, before the "
                                   f"cases it was {cur[p]}; cases of the process {[x.case for x in byno.values() if x.proc == p]}"))
            elif e[4] == "start":
                x = byno[e[6]]
                if p in open_:
                    leave(cur, open_, p, items_of)
                dec = items_of[x.case].get("dec", [])
                inside, cap, failed = enter(dec, stored_env(r.before, x.case), argv, cur[p])
                if failed:
                    out.append(o.v("ran-without-snapshot", f"{where}: {x.case} ran, although its set-up {dec} must fail with stored "
                                   f"{stored_env(r.before, x.case)} and environment {cur[p]}"))
                    break
                if x.fp["env"] != inside:
                    out.append(o.v("wrong-environment", f"{where}: inside {x.case} with {dec}, stored {stored_env(r.before, x.case)}, outside {cur[p]} "
                                   f"the environment was {x.fp['env']}, expected {inside}"))
                    break
                caps[x.no] = cap
                open_[p] = [x, inside]
            elif e[4] == "setenv" and p in open_:
                put(open_[p][1], e[6], e[7])
            elif e[4] == "obs" and e[6] == "env" and p in open_ and open_[p][1].get(e[7]) != e[8]:
                out.append(o.v("wrong-value", f"{where}: {e[5]} saw {e[7]}={e[8]!r}, expected {open_[p][1].get(e[7])!r}"))
        if out:
            break
        for c, it in items_of.items():
            mine = [x for x in byno.values() if x.case == c]
            dec = it.get("dec", [])
            for x in mine:
                if not cut and not faulted and x.how in ("return", "raise") and any(d[0] == "snap" for d in dec) and x.no in caps:
                    try:
                        got = json.loads(r.after.get(f"books/.out/{c}/.env.json") or r.after.get(f"books/{c}/.env.json") or b"null")
                    except ValueError:
                        got = "unreadable"
                    if got != caps[x.no]:
                        out.append(o.v("captured-wrong", f"{where}: {c} ran with {caps[x.no]}, but wrote the snapshot {got}"))
            if cut or faulted:
                continue
            if c in o.todo(r.suite, argv, r.before) and not mine and "-f" not in argv and recs.get(c) != ["FAIL"] and not o.dep_names(r.suite, c):
                out.append(o.v("failed-setup-not-failing", f"{where}: {c} did not run and is recorded as {recs.get(c)}"))
            for x in mine:
                if x.how == "raise" and recs.get(c) not in (["FAIL"], None):
                    out.append(o.v("raise-not-failing", f"{where}: {c} raised and is recorded as {recs.get(c)}"))
                st = stored_env(r.before, c)
                if passing.get(c) == r.spec.get(c) and c in passing and not capturing(argv) and x.how == "return" and recs.get(c) not in ([["OK"], None] if "-f" in argv else [["OK"]]) \
                        and o.expect(r.before, c) == passing_text.get(c):
                    out.append(o.v("replay-differs", f"{where}: {c} was captured and accepted, reran unchanged and is {recs.get(c)}; {o.tail(r)}"))
        must_fail = {c for c, it in items_of.items() if enter(it.get("dec", []), stored_env(r.before, c), argv, {})[2]}
        for c in o.unreached(r, must_fail):
            out.append(o.v("not-started", f"{where}: the body of {c} was never started; {o.tail(r)} {o.output(r.after, c)}"))
        for x in byno.values():
            c = x.case
            if capturing(argv) and "-a" in argv and not cut and not faulted and x.how == "return" and recs.get(c) == ["OK"] \
                    and "assert" not in str(r.spec.get(c)) and "-c" not in argv:
                passing[c], passing_text[c] = r.spec.get(c), o.expect(r.after, c)
            elif o.expect(r.after, c) != o.expect(r.before, c) or cut or faulted:
                passing.pop(c, None)
        for c in list(passing):
            if f"books/{c}/.env.json" in (results[0][k + 1].item.get("files") or {} if k + 1 < len(results[0]) else {}):
                passing.pop(c)
        if out:
            break
    return out


def leave(cur, open_, p, items_of):
    """The environment after a case: what its decorators touched is as before, the rest is what the body left."""
    x, inside = open_.pop(p)
    after = dict(inside)
    t = touched(items_of[x.case].get("dec", []))
    for n in t:
        put(after, n, cur[p].get(n))
    cur[p] = after


def nontrivial(sc, results):
    return any(x.how is not None for r in results[0] for x in o.execs(r))


def probes(sc, results):
    out = []
    for r in results[0]:
        items_of = {c: it for c, it, *_ in project.case_names(r.suite)}
        ran = {x.case: x for x in o.execs(r)}
        for c, it in items_of.items():
            if c in ran and it.get("dec"):
                out.append(f"decorated case {ran[c].how}" + (" while capturing" if capturing(o.argv_of(r)) else ""))
            elif it.get("dec") and c in o.todo(r.suite, o.argv_of(r), r.before):
                out.append("set-up failed")
    return out
