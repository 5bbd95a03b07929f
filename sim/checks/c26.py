"""C26: the book index lists every case once, in a lasting order."""
import copy, json, re
from sim import gen, oracle as o, project
from sim.checks import c07, c22

COUNT = {"quick": 120, "thorough": 6000}
NONTRIVIAL = "the index of one suite was written at least twice, or a run was stopped or failed after an index had been there"
RUNS = [[], [], ["-a"], ["-f"], ["-c"], ["-i"], ["-u", "-a"], ["-v"], ["-f", "-i"], ["-r"], ["-I"]]
OTHER = [["-l"], ["-l"], ["-l"], ["-w"], ["-w", "-a"], ["-w", "-i"], ["--forget"], ["--garbage"], ["--clean"], ["--path"], ["--config"], ["--print"]]
INDEX = "books/index.md"


def books_imported(rng, S):
    """Modules that import books (or instances) of others"""
    for k, mod in enumerate(S["modules"][1:], 1):
        src = rng.choice(S["modules"][:k])
        for it in src["items"]:
            if it["kind"] == "class" and rng.random() < 0.6:
                names = [it["name"]] + [v for v, _ in it.get("instances", [])]
                mod.setdefault("extra", []).append(f"from simbook.{project.clean_mod(src['file'])} import {', '.join(names)}")


def into_folders(rng, S):
    """The modules in folders of their own"""
    text = json.dumps(S)
    for mod in S["modules"]:
        f = mod["file"]
        d = rng.choice(["d1", "d2", "sub/deep", "sub", "x"])
        text = text.replace(f'"{f}"', f'"{d}/{f}"').replace(f'"{f}:', f'"{d}/{f}:')
    return json.loads(text)


def scenarios(rng, run, tier, i):
    n = rng.choice([1, 2, 3, 5, 8, 12])
    S = gen.suite(rng, n, mods=rng.choice([1, 2, 3, 3]), p_dep=0.15, p_res=0.05, p_setup=0.15, p_class=0.5, odd=rng.random() < 0.3)
    if rng.random() < 0.5:
        S = into_folders(rng, S)
    if rng.random() < 0.5:
        books_imported(rng, S)
    spec = {c: gen.body(rng, c, rng.choice(["ok", "ok", "diff", "fail", "raise:value"])) for c in gen.names(S)}
    items, last = [], S
    for k in range(rng.choice([2, 3, 4])):
        if k and rng.random() < 0.2:
            last = c22.evolve(rng, last)
            for m in last["modules"]:
                m.pop("extra", None)
        if rng.random() < 0.3:
            it = gen.item(rng.choice(OTHER) + gen.selection(rng, last, 0.15), rng)
        else:
            par = gen.pflag(rng) if rng.random() < 0.4 else []
            it = gen.item(par + rng.choice(RUNS) + gen.selection(rng, last, 0.3), rng)
        it["suite"] = last
        it["spec"] = {c: gen.body(rng, c, rng.choice(["ok", "diff"]), ver=2) for c in gen.names(last) if rng.random() < 0.2}
        it["answers"] = [rng.choice(["a", "c", "c", "q", "v"]) for _ in range(20)] + ["c"] * 20
        items.append(it)
    sc = {"suite": S, "spec": spec, "worlds": [{"items": items}]}
    runs = [k for k, it in enumerate(items) if o.is_run(it["calls"][0]["argv"])]
    if not runs or rng.random() < 0.35:
        yield sc
        return
    cut = runs[-1]
    if rng.random() < 0.5:
        items.append(gen.item(rng.choice([[], ["-c"], ["-l"]]), rng, suite=last))
    probe = copy.deepcopy(sc)
    probe["worlds"][0]["items"] = probe["worlds"][0]["items"][:cut + 1]
    probe["worlds"][0]["items"][cut]["oplog"] = True
    r = run(probe)[0]
    if len(r) <= cut:
        return
    hot = [e[5] + d for e in o.evs(r[cut], "op") if (e[7] or "").startswith(INDEX) for d in (0, 1)]
    for _ in range(3):
        s = copy.deepcopy(sc)
        it = s["worlds"][0]["items"][cut]
        if rng.random() < 0.6:
            it["stops"] = [{"at": rng.choice(hot) if hot and rng.random() < 0.8 else rng.randint(1, max(r[cut].ops, 2)), "frac": gen.frac(rng),
                            "kind": rng.choice(["kill", "torn", "torn", "sigint", "killmain"])}]
        else:
            it["rules"] = [{"kinds": rng.choice([["write"], ["write"], ["open_w"], ["rename"], ["remove"]]),
                            "glob": rng.choice([INDEX + "*", INDEX + "*", "books/*"]), "nth": rng.randint(1, 4), "persist": rng.random() < 0.3,
                            "err": rng.choice(["ENOSPC", "EIO", "SHORT", "TORN", "EACCES"]), "frac": gen.frac(rng)}]
        yield s


HEAD = re.compile(r"^((?:    )*) \* (.*)$")
LEAF = re.compile(r"^((?:    )*) \* \[(.*)\]\((.*)\.md\)$")


def parse(data):
    """The listed names and the headings in their order, or a string that tells what is wrong."""
    text = data.decode("utf-8", "replace")
    if not text.startswith("# Books overview:\n"):
        return f"no title: {text[:60]!r}"
    if not text.endswith("\n"):
        return "cut at the end"
    domain, out, heads = [], [], []
    for l in text.split("\n")[1:]:
        if not l:
            continue
        m = LEAF.match(l)
        if m:
            d = len(m[1]) // 4
            if d > len(domain) or "/".join(domain[:d] + [m[2]]) != m[3]:
                return f"line {l!r} is below {domain}"
            domain = domain[:d]
            out.append(m[3])
            continue
        m = HEAD.match(l)
        if not m or len(m[1]) // 4 > len(domain):
            return f"line {l!r} below {domain}"
        new = domain[:len(m[1]) // 4] + [m[2]]
        if new == domain[:len(new)]:
            return f"heading {l!r} below itself"
        domain = new
        heads.append("/".join(domain))
    return out, heads


def plain(S):
    """No names of books that are scattered over those of other modules, no module next to a folder of its name"""
    files = [project.clean(m["file"]) for m in S["modules"]]
    return not any(it.get("instances") for m in S["modules"] for it in m["items"]) and \
        not any(m.get("extra") for m in S["modules"]) and not any(a.startswith(b + "/") for a in files for b in files)


def wrong(data, names, S):
    """What is wrong with an index of these cases, None when nothing is"""
    if data is None:
        return "there is none"
    got = parse(data)
    if isinstance(got, str):
        return got
    got, heads = got
    if sorted(got) != sorted(set(names)):
        twice = sorted({c for c in got if got.count(c) > 1})
        return f"listed twice {twice}, missing {sorted(set(names) - set(got))}, too many {sorted(set(got) - set(names))}"
    if plain(S) and len(heads) != len(set(heads)):
        return f"cases of one module are scattered: {heads}"
    return None


def judge(sc, results):
    out = []
    seen, listed = {}, {}
    for n, r in enumerate(results[0]):
        if r.ended in ("hang", "spin"):
            break
        argv = o.argv_of(r)
        names = [c for c, *_ in project.case_names(r.suite)]
        key = repr(r.suite)
        where = f"item {n} {argv} stop {r.stopinfo} faults {o.evs(r, 'fault')}"
        old, new = r.before.get(INDEX), r.after.get(INDEX)
        sound = not r.stopinfo and not o.faulted_run(r)
        st = o.call_status(r)
        if not o.is_run(argv):
            if new != old:
                out.append(o.v("changed-by-other", f"{where}: {old!r} became {new!r}"))
            if argv == ["-l"] and sound and st == ("status", 0):
                lines = [l[2:] for l in r.stdout.decode("utf-8", "replace").split("\n") if l.startswith("  ")]
                if listed.setdefault(key, lines) != lines:
                    out.append(o.v("list-order", f"{where}: listed {lines}, before {listed[key]}"))
        elif sound and st is not None and st[0] == "status":
            w = wrong(new, names, r.suite)
            if w:
                out.append(o.v("index-wrong", f"{where}: {w}: {o.tail(r)}"))
            elif seen.setdefault(key, new) != new:
                out.append(o.v("index-order", f"{where}: {new.decode()!r}, for the same sources earlier {seen[key].decode()!r}"))
        elif new != old:
            w = wrong(new, names, r.suite)
            if w:
                out.append(o.v("index-damaged", f"{where}: {w}; now {new!r}, was {old!r}"))
            elif seen.setdefault(key, new) != new:
                out.append(o.v("index-order", f"{where}: {new.decode()!r}, for the same sources earlier {seen[key].decode()!r}"))
        if out:
            break
    return out


def nontrivial(sc, results):
    keys = [repr(r.suite) for r in results[0] if o.is_run(o.argv_of(r))]
    return len(keys) != len(set(keys)) or any((r.stopinfo or o.faulted_run(r)) and r.before.get(INDEX) for r in results[0])


def probes(sc, results):
    out = []
    for r in results[0]:
        if (r.stopinfo or o.faulted_run(r)) and o.is_run(o.argv_of(r)):
            out.append("broken run: " + ("index as before" if r.before.get(INDEX) == r.after.get(INDEX) else "index replaced"))
            if any(k.startswith(INDEX + ".") for k in r.after):
                out.append("index written aside was left")
    if any(m.get("extra") for m in sc["suite"]["modules"]):
        out.append("books imported by other modules")
    return out
