"""Runs one property's check: seeded search over scenarios in several processes, minimisation, replay, evidence."""
import sys, os, json, time, random, subprocess, zlib, importlib, traceback, signal, copy, hashlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable
CHUNKS = 8


def load(prop):
    return importlib.import_module(f"sim.checks.{prop.lower()}")


def known_findings():
    p = os.path.join(ROOT, "known_findings.json")
    if os.path.exists(p):
        return json.load(open(p))
    return {"findings": [], "fixed": []}


def is_known(prop, v, sc):
    for f in known_findings()["findings"]:
        if f["property"] == prop and f["class"] == v["class"]:
            need = f.get("where")
            if need is None or need in v.get("where", ""):
                return f
    return None


# ---- worker side --------------------------------------------------------------------------------------------
def chunk_main(prop, tier, seed, chunk, n, deadline, outfile):
    from sim import boot
    boot.boot()
    from sim import scen, guest, world
    chk = load(prop)
    try:
        cpus = sorted(os.sched_getaffinity(0))
        os.sched_setaffinity(0, {cpus[chunk % len(cpus)]})
    except OSError:
        pass
    out = open(outfile, "w")

    def emit(**kw):
        out.write(json.dumps(kw, default=repr) + "\n")
        out.flush()
    emit(type="start", pid=os.getpid())
    start = guest.real_mono()
    stats = new_stats()
    for i in range(chunk, n, CHUNKS):
        if guest.real_mono() - start > deadline:
            emit(type="cut", at=i)
            break
        rng = random.Random(f"{seed}:{prop}:{i}")

        def run(sc, probe=False):
            results = scen.execute(sc)
            account(stats, sc, results)
            return results
        try:
            gen = chk.scenarios(rng, run, tier, i)
            for sc in gen:
                results = run(sc)
                vs = chk.judge(sc, results)
                stats["judged"] += 1
                sh = scen.shape(results)
                stats["shapes"].add(sh)
                if getattr(chk, "nontrivial", None) is None or chk.nontrivial(sc, results):
                    stats["nontrivial"].add(sh)
                for p in getattr(chk, "probes", lambda *a: [])(sc, results):
                    stats["probes"][p] = stats["probes"].get(p, 0) + 1
                if stats["judged"] in (1, 9, 40):
                    d1 = scen.digest(results)
                    again = scen.execute(sc)
                    d2 = scen.digest(again)
                    stats["pairs"] += 1
                    if d1 != d2:
                        emit(type="nondet", index=i, sc=sc, what=scen.compare(results, again))
                    if len(stats["samples"]) < 2:
                        stats["samples"].append(sample(sc, results, chk))
                new = [v for v in vs if not is_known(prop, v, sc)]
                for v in vs:
                    if v not in new:
                        stats["known"] += 1
                if new:
                    emit(type="violation", index=i, sc=sc, v=new[0], all=[v["class"] for v in new])
                    stats["violations"] += 1
                    emit(type="stats", stats=pack(stats))
                    return
        except Exception:
            emit(type="error", index=i, error=traceback.format_exc())
            return
        if i // CHUNKS % 20 == 19:
            emit(type="tick", i=i)
    emit(type="stats", stats=pack(stats))


def new_stats():
    return {"judged": 0, "runs": 0, "sim_ns": 0, "switches": 0, "ops": {}, "faults": {}, "stops": {}, "shapes": set(),
            "nontrivial": set(), "probes": {}, "pairs": 0, "samples": [], "violations": 0, "known": 0, "procs": 0,
            "ended": {}, "interleavings": set()}


def pack(s):
    s = dict(s)
    for k in ("shapes", "nontrivial", "interleavings"):
        s[k] = sorted(s[k])
    return s


def account(stats, sc, results):
    for rs in results:
        for r in rs:
            stats["runs"] += 1
            stats["sim_ns"] += r.sim_ns
            stats["switches"] += r.switches
            stats["ended"][r.ended] = stats["ended"].get(r.ended, 0) + 1
            for k, v in r.kinds.items():
                stats["ops"][k] = stats["ops"].get(k, 0) + v
            procs = set()
            for e in r.events:
                procs.add(e[2])
                if e[4] == "fault":
                    k = f"{e[5]} on {e[6]}"
                    stats["faults"][k] = stats["faults"].get(k, 0) + 1
                elif e[4] == "clock":
                    stats["faults"]["clock step"] = stats["faults"].get("clock step", 0) + 1
                elif e[4] == "obs" and len(e) > 6 and e[6] == "err":
                    stats["faults"]["network failure seen"] = stats["faults"].get("network failure seen", 0) + 1
                elif e[4] == "worker_died":
                    stats["faults"]["worker died"] = stats["faults"].get("worker died", 0) + 1
            stats["procs"] += len(procs - {-1})
            if r.stopinfo:
                k = r.stopinfo[0]
                if k in ("kill", "torn") and r.stopinfo[3]:
                    k += " at " + str(r.stopinfo[3][0])
                stats["stops"][k] = stats["stops"].get(k, 0) + 1


def sample(sc, results, chk):
    s = copy.deepcopy(sc)
    ev = []
    for rs in results:
        for r in rs:
            ev.append({"argv": [c.get("argv") for c in r.item["calls"]], "ended": r.ended, "calls": r.calls,
                       "sim_s": r.sim_ns / 1e9, "switches": r.switches, "events": len(r.events)})
    text = json.dumps(s, default=repr)
    if len(text) > 6000:
        for k in ("spec",):
            s.pop(k, None)
        text = json.dumps(s, default=repr)
    return {"scenario": json.loads(text) if len(text) <= 12000 else text[:6000], "outcome": ev}


def judge_file(path):
    """Fresh process: executes a scenario file and prints what the check says about it."""
    from sim import boot
    boot.boot()
    from sim import scen
    rec = json.load(open(path))
    chk = load(rec["property"])
    results = scen.execute(rec["scenario"])
    vs = chk.judge(rec["scenario"], results)
    return rec, vs, scen.digest(results), results


def minimise_main(path, budget):
    from sim import boot
    boot.boot()
    from sim import minimise
    rec = json.load(open(path))
    chk = load(rec["property"])
    out = minimise.minimise(rec["scenario"], chk, rec["violation"]["class"], budget)
    if out is not None:
        rec["scenario"], rec["violation"], rec["digest"], rec["minimised"] = out
        json.dump(rec, open(path, "w"), indent=1)


# ---- main side -------------------------------------------------------------------------------------------------
def env_for(hashseed):
    e = dict(os.environ)
    e["PYTHONHASHSEED"] = str(hashseed)
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONPATH"] = ROOT
    e["LANG"] = e["LC_ALL"] = "C.UTF-8"
    e["TZ"] = "UTC"
    for k in list(e):
        if k.startswith(("BOOKTEST_", "SIM_")) and k not in ("SIM_REPO", "SIM_DUMP"):
            del e[k]
    return e


def hashseed(seed, chunk):
    return zlib.crc32(f"{seed}:{chunk}".encode()) % 4294967295


def cleanup():
    for n in os.listdir("/dev/shm"):
        if n.startswith("simbt."):
            pid = n.split(".")[1]
            if not os.path.exists(f"/proc/{int(pid)}"):
                import shutil
                shutil.rmtree("/dev/shm/" + n, ignore_errors=True)


def main(prop, tier, seed, count=None, keep=False):
    t0 = time.monotonic()
    cleanup()
    chk = load(prop)
    n = count or chk.COUNT[tier]
    cap = {"quick": 300, "thorough": 3000}[tier]
    work = f"/dev/shm/simbt.{os.getpid()}.run"
    os.makedirs(work, exist_ok=True)
    evpath = os.path.join(ROOT, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evpath), exist_ok=True)
    print(f"{prop}: VERIF_SEED={seed} tier={tier} scenarios={n}", flush=True)
    procs = []
    for c in range(CHUNKS):
        out = os.path.join(work, f"c{c}")
        open(out, "w").close()
        p = subprocess.Popen([PY, "-m", "sim.runner", "chunk", prop, tier, str(seed), str(c), str(n), str(cap), out],
                             cwd=ROOT, env=env_for(hashseed(seed, c)), start_new_session=True)
        procs.append((c, p, out))
    found, errors, cuts, nondet = None, [], 0, []
    stats = []
    done = set()
    pos = {}
    try:
        while len(done) < len(procs) and found is None:
            time.sleep(0.05)
            for c, p, out in procs:
                if c in done:
                    continue
                rc = p.poll()
                with open(out) as f:
                    f.seek(pos.get(c, 0))
                    data = f.read()
                    if not data.endswith("\n"):
                        data = data[:data.rfind("\n") + 1]
                    pos[c] = pos.get(c, 0) + len(data.encode())
                for line in data.splitlines():
                    m = json.loads(line)
                    if m["type"] == "violation":
                        if found is None:
                            found = (c, m)
                    elif m["type"] == "error":
                        errors.append(m)
                    elif m["type"] == "cut":
                        cuts += 1
                    elif m["type"] == "nondet":
                        nondet.append(m)
                    elif m["type"] == "stats":
                        stats.append(m["stats"])
                if rc is not None:
                    done.add(c)
                    if rc != 0:
                        errors.append({"error": f"chunk {c} exit status {rc}"})
            if time.monotonic() - t0 > cap + 240:
                errors.append({"error": "wall limit"})
                break
    finally:
        for c, p, out in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
    search_s = time.monotonic() - t0
    status = 0
    replay = None
    if found:
        c, m = found
        status, replay = report(prop, seed, tier, c, m)
        if status == 2:
            errors.append({"error": "violation did not replay: " + json.dumps(m["v"])[:500]})
    elif errors:
        status = 2
    kf = known_findings()
    if status == 0:
        for f in kf["findings"]:
            if f["property"] == prop:
                print(f"KNOWN-FINDING: property={prop} {f['what']}")
    write_evidence(evpath, prop, tier, seed, stats, search_s, time.monotonic() - t0, cuts, nondet, 1 if status == 1 else 0,
                   chk, n, replay)
    for e in errors[:3]:
        print("ERROR", e.get("error"), file=sys.stderr)
    for x in nondet[:2]:
        print("NONDETERMINISM at scenario", x["index"], str(x["what"])[:1500], file=sys.stderr)
        if keep:
            json.dump({"property": prop, "scenario": x["sc"]}, open(os.path.join(ROOT, "evidence", f"nondet-{prop}.json"), "w"))
    import shutil
    if not keep:
        shutil.rmtree(work, ignore_errors=True)
    cleanup()
    tot = sum(s["runs"] for s in stats)
    if status == 0:
        print(f"{prop}: held on {sum(s['judged'] for s in stats)} scenarios, {tot} simulated runs, "
              f"{time.monotonic() - t0:.1f}s")
    return status


def report(prop, seed, tier, c, m):
    rdir = os.path.join(ROOT, "replays")
    os.makedirs(rdir, exist_ok=True)
    name = f"{prop}-{seed}-{m['index']}.json"
    path = os.path.join(rdir, name)
    rec = {"property": prop, "seed": seed, "tier": tier, "index": m["index"], "hashseed": hashseed(seed, c),
           "violation": m["v"], "scenario": m["sc"], "minimised": None, "digest": None}
    json.dump(rec, open(path, "w"), indent=1)
    budget = 60 if tier == "quick" else 240
    env = env_for(rec["hashseed"])
    try:
        subprocess.run([PY, "-m", "sim.runner", "minimise", path, str(budget)], cwd=ROOT, env=env, timeout=budget + 200)
    except subprocess.TimeoutExpired:
        pass
    ok, out = confirm(path, env)
    if not ok:
        json.dump(rec, open(path, "w"), indent=1)
        ok, out = confirm(path, env)
    if not ok:
        print(out, file=sys.stderr)
        return 2, path
    rec = json.load(open(path))
    v = rec["violation"]
    print(f"  violation class: {v['class']}")
    print(f"  {v['detail'][:1500]}")
    print(f"  seed {seed}, scenario {m['index']}, minimised: {json.dumps(rec.get('minimised'))}")
    print(f"VIOLATION property={prop} replay={os.path.relpath(path, ROOT)}", flush=True)
    return 1, path


def confirm(path, env):
    try:
        p = subprocess.run([PY, "-m", "sim.runner", "judge", path], cwd=ROOT, env=env, timeout=400,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    except subprocess.TimeoutExpired:
        return False, "timeout"
    return p.returncode == 1, p.stdout


def replay_main(path, verbose=False):
    rec = json.load(open(path))
    env = env_for(rec.get("hashseed", 0))
    p = subprocess.run([PY, "-m", "sim.runner", "judge", os.path.abspath(path)] + (["-v"] if verbose else []), cwd=ROOT,
                       env=env)
    return p.returncode


def judge_main(path, verbose):
    rec, vs, dig, results = judge_file(path)
    want = rec.get("violation", {}).get("class")
    if verbose:
        for rs in results:
            for r in rs:
                print("----", [c.get("argv") for c in r.item["calls"]], r.item.get("stops"), r.item.get("rules"), r.ended,
                      r.hang, r.calls, r.stopinfo)
                for e in r.events:
                    print("   ", json.dumps(e))
                print(r.stdout.decode("utf-8", "replace"))
                print(r.stderr.decode("utf-8", "replace"))
                for k, v in sorted(r.after.items()):
                    if k.startswith("books") and v is not None and not k.endswith(".bin"):
                        print("   >", k, v[:300])
    for v in vs:
        print(v["class"], "-", v["detail"][:1500])
    print("digest", dig, "recorded", rec.get("digest"))
    if any(v["class"] == want for v in vs):
        if rec.get("digest") and rec["digest"] != dig:
            print("digest differs from the recorded one")
        print(f"VIOLATION property={rec['property']} replay={path}")
        return 1
    return 0


def write_evidence(path, prop, tier, seed, stats, search_s, wall, cuts, nondet, violations, chk, n, replay):
    def merge(key):
        out = {}
        for s in stats:
            for k, v in s[key].items():
                out[k] = out.get(k, 0) + v
        return dict(sorted(out.items()))
    shapes, nt = set(), set()
    for s in stats:
        shapes.update(s["shapes"])
        nt.update(s["nontrivial"])
    runs = sum(s["runs"] for s in stats)
    judged = sum(s["judged"] for s in stats)
    cov = {
        "evaluations": judged,
        "distinct_nontrivial": len(nt),
        "rule": "one evaluation is one simulated history, generated from the seed, executed and judged; distinct by the "
                "hash of the global order of visible steps (process, thread, event) over the history; non-trivial: "
                + getattr(chk, "NONTRIVIAL", "at least one test body ran"),
        "samples": [x for s in stats for x in s["samples"]][:3],
        "simulated_process_invocations": runs,
        "simulated_processes": sum(s["procs"] for s in stats),
        "seeds_per_hour": round(judged / max(search_s, 0.001) * 3600),
        "invocations_per_hour": round(runs / max(search_s, 0.001) * 3600),
        "simulated_seconds": round(sum(s["sim_ns"] for s in stats) / 1e9, 1),
        "scheduling_steps": sum(s["switches"] for s in stats),
        "distinct_interleavings": len(shapes),
        "operations_at_seams": merge("ops"),
        "faults_fired": merge("faults"),
        "kills_and_interrupts_fired": merge("stops"),
        "how_invocations_ended": merge("ended"),
        "probes_hit": merge("probes"),
        "determinism_pairs_compared": sum(s["pairs"] for s in stats),
        "determinism_pairs_differing": len(nondet),
        "known_findings_seen": sum(s["known"] for s in stats),
        "scenarios_planned": n,
        "chunks_cut_by_time": cuts,
        "real_code": ["all of /repo/booktest", "asyncio", "threading.Thread", "pickle", "requests and httpx client layers",
                      "logging", "tmpfs file system"],
        "stubs": ["multiprocessing.Pool (spawn semantics on simulated processes)", "HTTP transports (scripted server)",
                  "clock and timers", "thread scheduler and locks", "shell commands mkdir/rm/cat", "user input"],
        "replay": replay,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["process kill model: data written to the kernel survives, user-space buffers do not; no power loss",
                          "one simulated machine; the worker pool stub has the semantics of multiprocessing.Pool"],
          "wall_s": round(wall, 2), "violations": violations}
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, path)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "chunk":
        chunk_main(a[1], a[2], int(a[3]), int(a[4]), int(a[5]), float(a[6]), a[7])
    elif a[0] == "minimise":
        minimise_main(a[1], float(a[2]))
    elif a[0] == "judge":
        sys.exit(judge_main(a[1], "-v" in a))
