"""C16: fail-fast, quitting and Ctrl-C stop the run promptly."""
import copy, re
from sim import gen, oracle as o, accept, project
from sim.checks import c21

COUNT = {"quick": 110, "thorough": 3200}
NONTRIVIAL = "a run was stopped by fail-fast, a quit answer or Ctrl-C while selected cases were left"
BOUND = 15 * 10**9               # simulated ns from the stop, or the end of the last case that was running, to the end of the run
KINDS = ["ok", "ok", "ok", "diff", "fail", "raise:value", "opaque"]
FLAGS = [["-f"], ["-f"], ["-f", "-v"], ["-f", "-a"], ["-i"], ["-I"], ["-i", "-f"], ["-I", "-v"], [], [], ["-c"], ["-f", "-c"], ["-a"],
         ["-u", "-f"], ["-L"], ["-I", "-f", "-L"], ["-S", "-f"], ["-i", "-v"]]


def scenarios(rng, run, tier, i):
    n = rng.choice([2, 4, 6, 8, 10, 12])
    S = gen.suite(rng, n, mods=rng.choice([1, 2]), p_dep=rng.choice([0, 0.3]), p_res=0.15, p_setup=0.3, odd=rng.random() < 0.2)
    ns = gen.names(S)
    spec = gen.spec(rng, S)
    items = []
    if rng.random() < 0.9:
        items.append(gen.item(["-a"], rng))
    par = gen.pflag(rng) if rng.random() < 0.6 else []
    it = gen.item(par + rng.choice(FLAGS) + gen.selection(rng, S, 0.15), rng)
    p = rng.choice([0, 0.1, 0.2, 0.5])
    it["spec"] = {c: gen.body(rng, c, rng.choice(KINDS)) for c in ns if rng.random() < p}
    if rng.random() < 0.5:
        c = rng.choice(ns)
        it["spec"][c] = gen.body(rng, c, rng.choice(["diff", "fail", "raise:value", "raise:exit", "opaque"]))
    it["answers"] = [rng.choice(["c", "c", "c", "a", "v", "q", "x"]) for _ in range(30)] + ["c"] * 20
    it["watch"] = ["\tFAIL\t", "\tDIFF\t", "\tOK\t"]
    if rng.random() < 0.05:
        it["setup_fail"] = rng.choice(["setup", "teardown"])
    items.append(it)
    k = len(items) - 1
    if rng.random() < 0.3:
        w = gen.item(["-w"] + rng.choice([["-i"], ["-i"], ["-I"], ["-f"], ["-i", "-f"], ["-I", "-f", "-v"], ["-a", "-f"]])
                     + gen.selection(rng, S, 0.15), rng)
        w["answers"] = [rng.choice(["c", "c", "a", "q", "v", "x"]) for _ in range(20)] + ["c"] * 20
        items.append(w)
    sc = {"suite": S, "spec": spec, "worlds": [{"items": items}]}
    if rng.random() < 0.6:
        yield sc
    probe = copy.deepcopy(sc)
    r = run(probe)[0][k]
    ex = o.execs(r)
    total = max(r.ops, 2)
    if not ex or any(x.t1 is None for x in ex):
        if "-p" not in str(par):
            return
    t0 = min([x.t0 for x in ex] or [0])
    t1 = max([x.t1 or x.t0 for x in ex] or [1])
    base = next(e[1] for e in r.events if e[4] == "call_begin")
    marks = [e[1] - base for e in r.events if e[4] in ("end", "job", "jobend", "start", "written") and t0 <= e[1] <= t1]
    for j in range(3):
        s = copy.deepcopy(sc)
        t = s["worlds"][0]["items"][k]
        kind = rng.choice(["sigint", "sigint", "sigint_main"]) if par else "sigint"
        z = rng.random()
        if z < 0.35 and marks:
            at = rng.choice(marks) + rng.choice([-1, 0, 1, 1, 1]) * rng.randint(0, 15_000_000)
            t["stops"] = [{"time": max(at, t0 + 1), "kind": kind}]
        elif z < 0.5:
            t["stops"] = [{"time": int(t0 + 1 + (t1 - t0) * rng.random()), "kind": kind}]
        elif z < 0.9:
            t["stops"] = [{"at": rng.randint(1, total), "kind": kind}]
        else:
            # Ctrl-C at a prompt
            if "-I" not in t["calls"][0]["argv"]:
                t["calls"][0]["argv"].append("-I")
            a = t["answers"]
            a.insert(rng.randint(0, 5), "^C")
        yield s


def reported(r):
    """{case: verdict} of the result lines that were printed, the last per case"""
    names = sorted((n for n, *_ in project.case_names(r.suite)), key=len, reverse=True)
    alt = "|".join(re.escape(n) for n in names)
    text = r.stdout.decode("utf-8", "replace")
    out = {}
    for m in re.finditer(rf"(?:  ({alt})\.\.|(?:^|\n)({alt}) )(?:(\d+ ms|ok in \d+ ms\.)|(DIFFERED in \d+ ms)|(FAILED in \d+ ms))\n", text):
        out[m[1] or m[2]] = "OK" if m[3] else "DIFF" if m[4] else "FAIL"
    return out


def stops(r):
    """[(why, seq, t)] of what asks this run to stop, as far as it is visible to the process that starts cases"""
    argv = o.argv_of(r)
    par = o.is_parallel(argv)
    out = []
    ex = o.execs(r)
    written = [e for e in o.evs(r, "written") if e[5] == "books/.out/cases.txt" and e[2] == 0]
    if "-f" in argv:
        if par:
            for e in written:
                for line in e[6].split("\n"):
                    p = line.split("\t")
                    if len(p) == 3 and p[1] in ("FAIL", "DIFF") and any(x.case == p[0] and x.seq0 < e[0] for x in ex):
                        out.append((f"-f {p[0]} {p[1]}", e[0], e[1]))
        else:
            rec = o.record_map(r.after)
            for x in ex:
                if x.done and o.result_of(r, x) in ("FAIL", "DIFF"):
                    out.append((f"-f {x}", x.seq1, x.t1))
    for p in accept.prompts(r):
        if p[2] == "q":
            e = next(e for e in o.evs(r, "input") if e[0] == p[0])
            out.append(("q", e[0], e[1]))
        elif p[2] == "^C":
            e = next(e for e in o.evs(r, "input") if e[0] == p[0])
            out.append(("^C", e[0], e[1]))
    if r.stopinfo:
        out.append((r.stopinfo[0], r.stopinfo[4], r.stopinfo[2]))
    return sorted(out, key=lambda s: s[1])


def judge(sc, results):
    out = []
    for n, r in enumerate(results[0]):
        argv = o.argv_of(r)
        if "-w" in argv:
            out += review(r, argv, f"item {n} {argv}")
            continue
        if not o.is_run(argv):
            continue
        if n == 0 and argv == ["-a"]:
            if r.ended != "exit":
                return out
            continue
        ex = o.execs(r)
        st = stops(r)
        where = f"item {n} {argv} stops {st[:3]}"
        if r.ended != "exit":
            out.append(o.v("hang", f"{where}: ended={r.ended} {r.hang} {o.tail(r)}"))
            return out
        if st:
            why, seq, t = st[0]
            later = [x for x in ex if x.seq0 > seq]
            if not o.is_parallel(argv) and why.startswith("sigint") and later and between(r, ex, seq):
                later = later[1:]            # this case was already being set up
            if not o.is_parallel(argv) and later:
                out.append(o.v("started-after-stop", f"{where}: {later} started after {why} at seq {seq}; {o.tail(r)}"))
            if o.is_parallel(argv) and len(later) > o.workers(argv, r.item.get("cpus", 8)):
                out.append(o.v("started-after-stop", f"{where}: {len(later)} cases started after {why} at seq {seq}: {later}; {o.tail(r)}"))
            end = max([e[1] for e in r.events if e[4] == "call_end"], default=r.sim_ns)
            busy = max([t] + [x.t1 or x.t0 for x in ex] + [e[1] for e in o.evs(r, "input")])
            if end - busy > BOUND:
                out.append(o.v("slow-stop", f"{where}: ended {(end - busy) / 1e9} s after the stop and the last running case"))
            rec = o.record_map(r.after)
            for c, v in reported(r).items():
                ok = {v} | ({"OK"} if v == "DIFF" else set())
                if len(rec.get(c, ())) != 1 or rec[c][0] not in ok:
                    out.append(o.v("reported-not-recorded", f"{where}: {c} was reported as {v}, recorded {rec.get(c)}; {o.tail(r)}"))
        if out:
            break
    return out


def review(r, argv, where):
    """After quit, or a result left failing or differing under -f, a review presents nothing more"""
    if r.ended != "exit":
        return [o.v("hang", f"{where}: ended={r.ended} {r.hang} {o.tail(r)}")]
    ps = accept.prompts(r)
    at = [k for k, p in enumerate(ps) if p[2] == "q"]
    if at and at[0] != len(ps) - 1:
        return [o.v("asked-after-quit", f"{where}: answers {[p[1:] for p in ps]}; {o.tail(r)}")]
    got = c21.presented(r, gen.names(r.suite))
    if at and got and ps[-1][1] is not None and got[-1][0] != ps[-1][1]:
        return [o.v("asked-after-quit", f"{where}: presents {got} after quitting at {ps[-1][1]}; {o.tail(r)}")]
    if "-f" in argv:
        rec = o.record_map(r.after)
        for c, v in got[:-1]:
            if [x for x in rec.get(c, ())] and rec[c][0] != o.OK:
                return [o.v("asked-after-fail", f"{where}: presents {got}; {c} was left {rec[c]}; {o.tail(r)}")]
    return []


def between(r, ex, seq):
    """Whether the last case that finished before seq had been recorded by then, in a sequential run"""
    done = [x for x in ex if x.done and x.seq1 <= seq]
    if any(x.seq0 <= seq and not (x.done and x.seq1 <= seq) for x in ex):
        return False
    return not done or any(e[5] == "books/.out/cases.txt" and e[0] <= seq and e[0] > done[-1].seq1 and done[-1].case + "\t" in e[6]
                           for e in o.evs(r, "written"))


def nontrivial(sc, results):
    for r in results[0]:
        if not o.is_run(o.argv_of(r)):
            continue
        if stops(r) and {x.case for x in o.execs(r)} < o.todo(r.suite, o.argv_of(r), r.before):
            return True
    return False


def probes(sc, results):
    out = []
    for r in results[0]:
        if "-w" in o.argv_of(r) and any(p[2] == "q" for p in accept.prompts(r)):
            out.append("quit a review")
        if not o.is_run(o.argv_of(r)):
            continue
        st = stops(r)
        if st:
            later = len([x for x in o.execs(r) if x.seq0 > st[0][1]])
            out.append(f"{'parallel' if o.is_parallel(o.argv_of(r)) else 'sequential'} stop by {st[0][0].split(' ')[0]}")
            if later:
                out.append("cases started by running workers after the stop")
    return out
