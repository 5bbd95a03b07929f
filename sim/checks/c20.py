"""C20: timing helpers judge elapsed time, not the wall clock."""
import copy
from sim import gen, oracle as o, project
from sim.checks import c16

COUNT = {"quick": 200, "thorough": 6000}
NONTRIVIAL = "the system clock was stepped while a case ran or between cases, and cases were judged"
FLAGS = [[], [], [], ["-f"], ["-a"], ["-c"], ["-u"], ["-v"], ["-i"], ["-f", "-c"], ["-L"], ["-S"]]
KINDS = ["ok", "ok", "ok", "diff", "fail", "raise:value"]
STEPS = [3600, -3600, 86400 * 365, -86400 * 365, 1, -1, 0.05, -0.05, 30, -30, -50 * 365 * 86400, 5 * 365 * 86400]
DURS = [0.001, 0.01, 0.05, 0.2, 1.0, 3.0, 0.007, 0.07, 0.7, 2.1]
LONG = [700.0, 3700.0, 90000.0, 40 * 86400.0]


def body(rng, case, kind, long=0):
    steps = []
    if rng.random() < 0.4:
        steps.append(["sleep", rng.choice([0.01, 0.3, 1.5])])
    steps.append(["t", "case " + case.replace("/", " ")])
    if rng.random() < 0.3:
        steps.append(["h", "Timings"])
    for j in range(rng.choice([1, 1, 2, 3])):
        dur = rng.choice(DURS if rng.random() >= long else LONG)
        z = rng.random()
        if z < 0.55:
            f = rng.choice([0.2, 0.9, 0.999, 1, 1, 1.001, 1.01, 1.5, 5, 1000, 0])
            limit = dur * 1000 * f + (2 if f > 1 else 0) * rng.choice([0, 1])
            steps.append(["tms", dur, rng.choice([limit, int(limit), limit, float("inf")]), 0])
        else:
            steps.append(["ims", dur, 0])
        if rng.random() < 0.2:
            steps.append(["wall", rng.choice(STEPS)])
        if rng.random() < 0.3:
            steps.append(["uniq", "between"])
    steps.append(["t", "value " + ("changed" if kind == "diff" else "same")])
    steps.append(["assert", kind != "fail"])
    if kind.startswith("raise:"):
        steps.append(["raise", kind[6:]])
    steps.append(["ret", ["static", 1]])
    return steps


def fast(steps):
    """The same body with other durations that keep all limits"""
    return [[s[0], s[1], max(s[2], s[1] * 1000 * 1.5 + 5), 0] if s[0] == "tms" else list(s) for s in steps]


def redo(rng, steps, long=0):
    out = []
    for s in steps:
        if s[0] == "tms":
            out.append([s[0], rng.choice([s[1], s[1] / 3, s[1] / 100]), s[2], 0])
        elif s[0] == "ims":
            out.append([s[0], rng.choice(DURS if rng.random() >= long else LONG), 0])
        else:
            out.append(list(s))
    return out


def scenarios(rng, run, tier, i):
    n = rng.choice([1, 2, 3, 4, 6])
    S = gen.suite(rng, n, mods=rng.choice([1, 2]), p_dep=0.25, p_res=0.1, p_setup=0.1)
    ns = gen.names(S)
    spec = {c: fast(body(rng, c, "ok")) for c in ns}
    items = []
    if rng.random() < 0.85:
        items.append(gen.item(["-a"], rng))
    for _ in range(rng.choice([1, 1, 2])):
        par = gen.pflag(rng) if rng.random() < 0.5 else []
        it = gen.item(par + rng.choice(FLAGS) + gen.selection(rng, S, 0.15), rng)
        if rng.random() < 0.15:
            it["calls"].append({"argv": (gen.pflag(rng) if rng.random() < 0.4 else []) + rng.choice(FLAGS)})
        it["spec"] = {}
        # a parallel run polls 100 times a second, and its waits for input are bounded
        long = 0.07 if not any(o.is_parallel(c["argv"]) for c in it["calls"]) else 0
        for c in ns:
            z = rng.random()
            if z < 0.35:
                it["spec"][c] = redo(rng, spec[c], long)
            elif z < 0.55:
                it["spec"][c] = body(rng, c, rng.choice(KINDS), long)
        it["answers"] = ["c"] * 40
        items.append(it)
    sc = {"suite": S, "spec": spec, "worlds": [{"items": items}, {"twin": 0, "items": []}]}
    # where the clock is stepped
    r = run(copy.deepcopy(dict(sc, worlds=[{"items": items}])))[0]
    steps = 0
    for k, it in enumerate(items):
        if k >= len(r):
            break
        specs = it.get("spec", {})
        if k == 0 and len(items) > 1 and rng.random() < 0.5:
            continue
        at = [e[1] - r[k].events[0][1] for e in r[k].events if e[4] in ("start", "end", "job", "jobend", "call_begin")] or [0]
        it["wallsteps"] = []
        for _ in range(rng.choice([0, 1, 1, 2, 4])):
            t = rng.choice(at) + rng.choice([1, 1, 1, -1]) * int(rng.choice([0.0001, 0.003, 0.02, 0.5]) * 1e9 * rng.random())
            it["wallsteps"].append([max(t, 1), int(rng.choice(STEPS) * 1e9)])
        for c in specs:
            specs[c] = copy.deepcopy(specs[c])
            for s in specs[c]:
                if s[0] in ("tms", "ims") and rng.random() < 0.5:
                    s[-1] = rng.choice(STEPS)
                    steps += 1
    if rng.random() < 0.15:
        k = len(items) - 1
        items[k]["stops"] = [{"at": rng.randint(1, max(r[k].ops, 2)), "kind": "sigint"}]
        sc["worlds"].pop()
    yield sc


def judge(sc, results):
    out = []
    for w, rs in enumerate(results):
        for n, r in enumerate(rs):
            if r.ended in ("hang", "spin"):
                out.append(o.v("hang", f"world {w} item {n}: {r.hang}")) if not w else None
                return out
            where = f"world {w} item {n} {[c['argv'] for c in r.item['calls']]}" + \
                    f" clock steps {r.item.get('wallsteps')} {[e[5] for e in o.evs(r, 'clock')]} stop {r.stopinfo}"
            out += verdicts(r, where)
            if out:
                return out
            if r.stopinfo and r.ended == "exit":
                # the run ends as promptly as without a step of the clock
                end = max([e[1] for e in r.events if e[4] == "call_end"], default=0)
                busy = max([r.stopinfo[2]] + [x.t1 or x.t0 for x in o.execs(r)])
                if end - busy > c16.BOUND:
                    out.append(o.v("slow-stop", f"{where}: ended {(end - busy) / 1e9} s after the stop and the last running case"))
    if len(results) > 1 and not out:
        for n, (a, b) in enumerate(zip(*results)):
            where = f"item {n} {[c['argv'] for c in a.item['calls']]} clock steps {a.item.get('wallsteps')} " \
                    f"{[e[5] for e in o.evs(a, 'clock')]}"
            if late(a) != late(b):
                break                      # the schedule made a call take longer in one of the worlds
            out += twins(a, b, where)
            if out or racy(a):
                break
    return out


def plain(steps):
    """The body for the reference model: timings are lines with a compared prefix or with nothing compared"""
    out = []
    for s in steps:
        if s[0] == "tms":
            out.append(["pfx", "timed "])
        elif s[0] == "ims":
            out.append(["i", "info"])
        else:
            out.append(s)
    return out


def verdicts(r, where):
    out = []
    exact = len(r.item["calls"]) == 1 and not r.stopinfo
    rec = o.record_map(r.after)
    obs = {}
    for e in o.obs(r):
        if e[6] in ("tms", "ims"):
            obs.setdefault(e[7], []).append(e[6:])
    for x in o.execs(r):
        late = sure = False
        unsure = False
        for kind, no, rv, limit, inner, outer in obs.get(x.no, []):
            if inner is None:
                continue
            if rv != 7:
                out.append(o.v("value", f"{where}: {x}: the timed call returned {rv!r} instead of 7"))
            if kind == "tms":
                if inner / 1e6 > limit * 1.000001:
                    late = True
                elif outer / 1e6 > limit * 0.999999:
                    unsure = True
        if x.how is None or not exact or x.case not in rec or unsure:
            continue
        steps = r.spec.get(x.case, [])
        got = rec[x.case][0]
        if any(s[0] == "h" for s in steps):
            if got == o.FAIL and not late and x.how == "return" and not any(s[0] == "assert" and not s[1] for s in steps):
                out.append(o.v("timing-fails", f"{where}: {x}: failed, and no limit was exceeded: {obs.get(x.no)}: {o.tail(r)}"))
            elif got != o.FAIL and late:
                out.append(o.v("late-passes", f"{where}: {x}: {got}, and a limit was exceeded: {obs.get(x.no)}"))
            continue
        want = o.verdict(plain(steps), x, o.expect(r.before, x.case))
        if late and x.how == "return":
            want = o.FAIL
        if want == o.DIFF and got == o.OK and "-a" in o.argv_of(r):
            continue
        if want is not None and got != want:
            cls = "late-passes" if late else "timing-fails" if got == o.FAIL else "verdict"
            out.append(o.v(cls, f"{where}: {x}: {got} instead of {want}: {obs.get(x.no)}: {o.tail(r)}"))
    return out[:1]


def racy(r):
    """Which cases are started before a parallel run stops depends on the schedule"""
    return any(o.is_parallel(c["argv"]) and "-f" in c["argv"] for c in r.item["calls"])


def late(r):
    """The timed calls that seem to have taken longer than their limits"""
    return sorted(e[5] for e in o.obs(r) if e[6] == "tms" and e[11] / 1e6 > e[9] * 0.999999)


def twins(a, b, where):
    for i, c in enumerate(a.item["calls"]):
        sa, sb = o.call_status(a, i), o.call_status(b, i)
        if sa != sb:
            return [o.v("status", f"{where}: call {i} ends with {sa}, without the steps with {sb}: {o.tail(a)}")]
    if racy(a):
        return []
    xa, xb = sorted(x.case for x in o.execs(a)), sorted(x.case for x in o.execs(b))
    if xa != xb:
        return [o.v("cases", f"{where}: executes {xa}, without the steps {xb}")]
    ra, rb = o.record_map(a.after), o.record_map(b.after)
    if ra != rb:
        return [o.v("verdicts", f"{where}: records {ra}, without the steps {rb}")]
    return []


def nontrivial(sc, results):
    return any((o.evs(r, "clock") or r.item.get("wallsteps")) and o.execs(r) for r in results[0])


def probes(sc, results):
    out = []
    for r in results[0]:
        spans = [(x.t0, x.t1) for x in o.execs(r) if x.t1]
        for e in o.evs(r, "clock"):
            out.append("clock stepped " + ("back" if e[5] < 0 else "forward") + " in a case")
        for e in o.obs(r):
            if e[6] == "tms" and e[10] is not None:
                out.append("limit exceeded" if e[10] / 1e6 > e[9] else "limit kept")
    return out
