"""Shrinks a failing scenario: fewer invocations, cases, steps, faults and scheduling decisions, same violation class."""
import copy, json, time
from . import scen, guest, project

now = guest.real_mono


def judge(sc, chk, cls):
    try:
        rs = scen.execute(sc, record=True)
        vs = chk.judge(sc, rs)
    except Exception:
        return None
    for v in vs:
        if v["class"] == cls:
            return v, rs
    return None


def minimise(sc, chk, cls, budget):
    end = now() + budget
    tries = 0
    first = judge(sc, chk, cls)
    if first is None:
        return None
    best, bestv, bestrs = sc, first[0], first[1]
    size0 = len(json.dumps(sc))
    progress = True
    rounds = 0
    while progress and now() < end and rounds < 6:
        progress = False
        rounds += 1
        for gen in (drop_items, drop_faults, drop_cases, drop_steps, simplify_items, drop_suite_bits):
            again = True
            start = 0
            while again and now() < end:
                again = False
                for pos, cand in enumerate(gen(best)):
                    if pos < start:
                        continue
                    if now() > end:
                        break
                    tries += 1
                    j = judge(cand, chk, cls)
                    if j is not None:
                        best, bestv, bestrs = cand, j[0], j[1]
                        progress = again = True
                        start = pos
                        break
    # freeze the schedule as explicit decisions, then shorten it
    frozen = copy.deepcopy(best)
    for wd, rs in zip(frozen["worlds"], bestrs):
        for it, r in zip(wd["items"], rs):
            it["sched"] = {"decisions": [list(d) for d in r.decisions]}
    j = judge(frozen, chk, cls)
    tries += 1
    if j is not None:
        best, bestv, bestrs = frozen, j[0], j[1]
        for wi, wd in enumerate(best["worlds"]):
            for ii in range(len(wd["items"])):
                lo = 0
                hi = len(best["worlds"][wi]["items"][ii]["sched"]["decisions"])
                # shortest failing prefix by bisection (not monotone: only accepted when it fails)
                while lo < hi and now() < end:
                    mid = (lo + hi) // 2
                    cand = copy.deepcopy(best)
                    d = cand["worlds"][wi]["items"][ii]["sched"]["decisions"]
                    cand["worlds"][wi]["items"][ii]["sched"]["decisions"] = d[:mid]
                    j = judge(cand, chk, cls)
                    tries += 1
                    if j is not None:
                        best, bestv, bestrs = cand, j[0], j[1]
                        hi = mid
                    else:
                        lo = mid + 1
    rs = scen.execute(best)
    info = {"tries": tries, "bytes": [size0, len(json.dumps(best))],
            "decisions": sum(len((it.get("sched") or {}).get("decisions") or []) for wd in best["worlds"]
                             for it in wd["items"])}
    return best, bestv, scen.digest(rs), info


def drop_items(sc):
    for wi, wd in enumerate(sc["worlds"]):
        if len(wd["items"]) > 1:
            for ii in range(len(wd["items"])):
                if wd["items"][ii].get("keep"):
                    continue
                c = copy.deepcopy(sc)
                it = c["worlds"][wi]["items"].pop(ii)
                if it.get("suite") and ii < len(c["worlds"][wi]["items"]) and \
                        not c["worlds"][wi]["items"][ii].get("suite"):
                    c["worlds"][wi]["items"][ii]["suite"] = it["suite"]
                yield c


def drop_faults(sc):
    for wi, wd in enumerate(sc["worlds"]):
        for ii, it in enumerate(wd["items"]):
            for key in ("rules", "stops", "wallsteps"):
                for n in range(len(it.get(key) or [])):
                    c = copy.deepcopy(sc)
                    c["worlds"][wi]["items"][ii][key].pop(n)
                    yield c
            if len(it["calls"]) > 1:
                for n in range(len(it["calls"])):
                    c = copy.deepcopy(sc)
                    c["worlds"][wi]["items"][ii]["calls"].pop(n)
                    yield c


def mentions(suite, file, name):
    for mod in suite["modules"]:
        for it in mod["items"]:
            for f in [it] + it.get("methods", []):
                for d in f.get("deps", []):
                    if d == f"{file}:{name}":
                        return True
    return False


def drop_cases(sc):
    if "pinned" in sc:
        return
    su = sc["suite"]
    for mi, mod in enumerate(su["modules"]):
        for ii, it in enumerate(mod["items"]):
            if it["kind"] == "func":
                if mentions(su, mod["file"], it["name"]):
                    continue
                c = copy.deepcopy(sc)
                c["suite"]["modules"][mi]["items"].pop(ii)
                yield clean(c)
            else:
                for ki, m in enumerate(it["methods"]):
                    if mentions(su, mod["file"], it["name"] + "." + m["name"]):
                        continue
                    c = copy.deepcopy(sc)
                    c["suite"]["modules"][mi]["items"][ii]["methods"].pop(ki)
                    if not c["suite"]["modules"][mi]["items"][ii]["methods"]:
                        c["suite"]["modules"][mi]["items"].pop(ii)
                    yield clean(c)


def clean(c):
    c["suite"]["modules"] = [m for m in c["suite"]["modules"] if m["items"]]
    names = {n[0] for n in project.case_names(c["suite"])}
    for wd in c["worlds"]:
        for it in wd["items"]:
            for call in it["calls"]:
                call["argv"] = [a for a in call["argv"] if "simbook/" not in a or any(
                    n == a.removeprefix("skip:") or n.startswith(a.removeprefix("skip:") + "/") for n in names)]
    c["spec"] = {k: v for k, v in c.get("spec", {}).items() if k in names}
    return c


def drop_steps(sc):
    for case, steps in sc.get("spec", {}).items():
        for n in range(len(steps)):
            c = copy.deepcopy(sc)
            c["spec"][case].pop(n)
            yield c
    for wi, wd in enumerate(sc["worlds"]):
        for ii, it in enumerate(wd["items"]):
            for case, steps in (it.get("spec") or {}).items():
                c = copy.deepcopy(sc)
                c["worlds"][wi]["items"][ii]["spec"].pop(case)
                yield c


def simplify_items(sc):
    for wi, wd in enumerate(sc["worlds"]):
        for ii, it in enumerate(wd["items"]):
            if it.get("lines"):
                c = copy.deepcopy(sc)
                c["worlds"][wi]["items"][ii].pop("lines")
                yield c
            s = it.get("sched") or {}
            if s.get("decisions") is None and s.get("mean") != 40:
                c = copy.deepcopy(sc)
                c["worlds"][wi]["items"][ii]["sched"] = {"seed": s.get("seed", 0), "policy": "random", "mean": 40, "stall": 0}
                yield c


def drop_suite_bits(sc):
    su = sc["suite"]
    for mi, mod in enumerate(su["modules"]):
        for ii, it in enumerate(mod["items"]):
            fs = [(None, it)] if it["kind"] == "func" else list(enumerate(it["methods"]))
            for ki, f in fs:
                for key in ("deps", "decos"):
                    for n in range(len(f.get(key, []))):
                        c = copy.deepcopy(sc)
                        t = c["suite"]["modules"][mi]["items"][ii]
                        if ki is not None:
                            t = t["methods"][ki]
                        t[key].pop(n)
                        yield c
                if f.get("async"):
                    c = copy.deepcopy(sc)
                    t = c["suite"]["modules"][mi]["items"][ii]
                    if ki is not None:
                        t = t["methods"][ki]
                    t["async"] = 0
                    yield c
    if su.get("setup"):
        c = copy.deepcopy(sc)
        c["suite"].pop("setup")
        yield c
