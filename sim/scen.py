"""Scenarios: JSON values that say everything about a set of simulated histories, and their execution."""
import copy, hashlib, json, re
from . import world, project

ADDR = re.compile(rb"0x[0-9a-f]{6,}|simbt\.\d+\.\d+")
ADDRS = re.compile(ADDR.pattern.decode())


def twin(sc, wd):
    """A world with the history of another one, but without its steps of the clock ("twin": number of that world).  Being
    derived, it stays in step with that world while a scenario is minimised."""
    items = copy.deepcopy(sc["worlds"][wd["twin"]]["items"])

    def calm(steps):
        return [s[:-1] + [0] if s[0] in ("tms", "ims") else s for s in steps if s[0] != "wall"]
    for it in items:
        it.pop("wallsteps", None)
        spec = dict(sc.get("spec", {}))
        spec.update(it.get("spec", {}))
        it["spec"] = {c: calm(st) for c, st in spec.items()}
    return dict(wd, items=items)


def execute(sc, record=False):
    """Runs all worlds of a scenario; returns a list (per world) of lists of Result."""
    out = []
    for wd in sc["worlds"]:
        if wd.get("twin") is not None:
            wd = twin(sc, wd)
        w = world.World({k: v for k, v in wd.items() if k != "items"})
        try:
            rs = []
            suite = None
            for n, item in enumerate(wd["items"]):
                it = dict(item)
                su = item.get("suite") or (sc["suite"] if n == 0 else None)
                files = {}
                if su is not None:
                    if suite is not None:
                        for f in project.files(suite):
                            files[f] = None
                    files.update(project.files(su, wd.get("config")))
                    suite = su
                if n == 0:
                    files.update(wd.get("files", {}))
                files.update(item.get("files", {}))
                it["files"] = files
                spec = dict(sc.get("spec", {}))
                spec.update(item.get("spec", {}))
                it["spec"] = spec
                for key in ("net", "fns", "fnlat", "fp", "env", "handlers", "cpus", "answers", "setup_fail", "watch"):
                    if key not in it and key in sc:
                        it[key] = sc[key]
                it["record"] = record
                it["stops"] = [dict(s) for s in item.get("stops", [])]
                r = w.run(it)
                r.suite = suite
                r.spec = spec
                r.item = item
                rs.append(r)
            out.append(rs)
        finally:
            w.close()
    return out


def digest(results):
    h = hashlib.sha256()
    for rs in results:
        for r in rs:
            h.update(ADDRS.sub("0x", json.dumps([r.events, r.ended, r.hang, r.ops, r.sim_ns, r.switches], default=repr)).encode(
                "utf-8", "surrogatepass"))
            h.update(ADDR.sub(b"0x", r.stdout))
            for k, v in sorted(r.after.items()):
                h.update(k.encode("utf-8", "surrogateescape"))
                if v is not None and not k.endswith((".coverage",)):
                    h.update(ADDR.sub(b"0x", v))
    return h.hexdigest()[:16]


def shape(results):
    """Identifies the interleaving: order of the visible steps across processes and threads."""
    h = hashlib.sha256()
    for rs in results:
        for r in rs:
            for e in r.events:
                h.update(f"{e[2]}.{e[3]}.{e[4]}.{e[5] if len(e) > 5 else ''};".encode())
            h.update(f"{r.ended};".encode())
    return h.hexdigest()[:16]


def sched(rng, parallel=True):
    pol = rng.choice(["random", "random", "prio", "prio", "fair"])
    s = {"seed": rng.randrange(1 << 30), "policy": pol, "mean": rng.choice([1, 2, 4, 10, 40]),
         "stall": rng.choice([0, 0, 0.01, 0.05, 0.15]), "change": rng.choice([0.01, 0.05, 0.2])}
    if not parallel:
        s["mean"] = 40
    return s


def compare(a, b):
    """The first differences between two executions of one scenario."""
    out = []
    for ra, rb in zip(a, b):
        for i, (x, y) in enumerate(zip(ra, rb)):
            for e, f in zip(x.events, y.events):
                if ADDRS.sub("0x", json.dumps(e)) != ADDRS.sub("0x", json.dumps(f)):
                    out.append(f"item {i} event {e} / {f}")
                    break
            if (x.ended, x.ops, x.sim_ns, x.switches, len(x.events)) != (y.ended, y.ops, y.sim_ns, y.switches, len(y.events)):
                out.append(f"item {i} {(x.ended, x.ops, x.sim_ns, x.switches, len(x.events))} / "
                           f"{(y.ended, y.ops, y.sim_ns, y.switches, len(y.events))}")
            for k in sorted(set(x.after) | set(y.after)):
                p, q = x.after.get(k), y.after.get(k)
                if p != q and (p is None or q is None or ADDR.sub(b"0x", p) != ADDR.sub(b"0x", q)):
                    out.append(f"item {i} file {k} {p and p[:800]} / {q and q[:800]}")
            if ADDR.sub(b"0x", x.stdout) != ADDR.sub(b"0x", y.stdout):
                out.append(f"item {i} stdout {x.stdout[-800:]} / {y.stdout[-800:]}")
    return out
