"""Generators of suites, bodies and schedules."""
import zlib
from . import project, scen

FILES = ["alpha_test.py", "beta_test.py", "gamma_test.py"]
CLS = ["Delta", "Omega", "Kappa", "SigmaTau", "Lambda", "Theta", "Zeta", "Iota"]
FN = ["a", "b", "c", "d", "e", "f", "g", "k"]
FNP = ["a", "ab", "abc", "b", "a_b", "ba", "a1", "k"]          # names that are the beginning of others
FNU = ["größe", "b", "件名", "ж", "e", "é", "ñandú", "k"]


def suite(rng, n=6, mods=2, p_dep=0.35, p_res=0.2, p_async=0.3, p_class=0.35, p_inst=0.3, p_setup=0.3, odd=False,
          p_two=0.3, reskinds=("res:x", "res:y", "port:7001", "intres:7001", "idres:v/x")):
    """A random suite with about n cases."""
    S = {"modules": []}
    rng.salt = str(rng.getrandbits(20))      # bodies of one scenario agree, see body
    left = n
    fns = FN if rng.salt[-1] not in "127" else FNU if rng.salt[-1] == "7" else FNP
    pool = []                      # dependency targets so far: strings "file:name" (only earlier ones: acyclic)
    mods = min(mods, n)
    counts = [n // mods + (1 if i < n % mods else 0) for i in range(mods)]
    for mi in range(mods):
        file = FILES[mi]
        mod = {"file": file, "items": []}
        left = counts[mi]
        fi = 0
        ci = 0
        while left > 0:
            if rng.random() < p_class and left >= 2:
                k = rng.randint(1, min(3, left))
                cls = {"kind": "class", "name": CLS[ci % 8] + ("" if mi == 0 else str(mi)),
                       "methods": []}
                ci += 1
                prev = []
                for j in range(k):
                    m = {"name": "m" + fns[j]}
                    if rng.random() < p_async:
                        m["async"] = 1
                    deps = deps_for(rng, prev if prev and rng.random() < 0.8 else pool, p_dep, p_res, p_two, reskinds)
                    if deps:
                        m["deps"] = deps
                    cls["methods"].append(m)
                    prev.append(f"{file}:{cls['name']}.{m['name']}")
                if rng.random() < p_inst:
                    names = [f"simbook/{project.clean(file)}/p1", f"simbook/{project.clean(file)}/p2"]
                    if odd:
                        names = rng.choice([names, ["simbook/q.r", "simbook/q/r"], ["simbook/x y", "simbook/x"],
                                            ["simbook/it's", "simbook/ü$HOME"]])
                    cls["instances"] = [["one" + str(ci), names[0]], ["two" + str(ci), names[1]]]
                    if ci > 1 or mi > 0:
                        cls["instances"] = [["one" + str(ci), names[0] + f"_{mi}{ci}"], ["two" + str(ci), names[1] + f"_{mi}{ci}"]]
                mod["items"].append(cls)
                pool += prev
                left -= k
            else:
                f = {"kind": "func", "name": fns[fi % 8] + ("" if fi < 8 else str(fi))}
                fi += 1
                if rng.random() < p_async:
                    f["async"] = 1
                deps = deps_for(rng, pool, p_dep, p_res, p_two, reskinds)
                if deps:
                    f["deps"] = deps
                mod["items"].append(f)
                pool.append(f"{file}:{f['name']}")
                left -= 1
        S["modules"].append(mod)
    if rng.random() < p_setup:
        S["setup"] = 1
    if rng.random() < 0.12:
        S["config"] = {"test_paths": rng.choice(["simbook,none", "none,simbook", "none,simbook,nothing"])}
    return S


def deps_for(rng, pool, p_dep, p_res, p_two, reskinds):
    out = []
    if pool and rng.random() < p_dep:
        out.append(rng.choice(pool[-6:]))
        if len(pool) > 1 and rng.random() < p_two:
            d = rng.choice(pool)
            if d not in out:
                out.append(d)
    if rng.random() < p_res:
        out.append(rng.choice(reskinds))
        if rng.random() < 0.3:
            d = rng.choice(reskinds)
            if d not in out:
                out.append(d)
    if out and rng.random() < 0.3:
        rng.shuffle(out)
    return out


def names(S):
    return [n for n, *_ in project.case_names(S)]


ODD = ["trailing spaces  ", "", "   indented", "tab\there\t", "ü € 漢字 \U0001f600", "long " + "x" * 9000, "a | b ? c", "{\"k\": [1, 2.50, null]}",
       "  * 1,234.5e-7 %", "back\\slash 'q' \"q\" $HOME `x`", "\u2028 separators \x0b\x0c\x1c\x85 in a line", "nul \x00 character", ".", "not \udcff encodable \ud800"]


def body(rng, name, kind="ok", deps="deps", time=True, ver=1, ret=None, logs=True):
    """Steps of a body. Bodies of the same name and different kind/ver have the same lines at the same indexes."""
    steps = []
    if time and rng.random() < 0.8:
        steps.append([rng.choice(["sleep", "sleep", "asleep"]), rng.choice([0.0005, 0.01, 0.05, 0.2, 1.0]) * (0.5 + rng.random())])
    steps.append(["t", f"case {name.replace('/', ' ')} begins"])
    steps.append(["uniq", "run"])
    if logs and rng.random() < 0.4:
        steps.append(["logx", "log of " + name])
    if logs and rng.random() < 0.3:
        steps.append(["errx", "err of " + name])
    odd = zlib.crc32((rng.salt + name).encode()) % (2 * len(ODD))
    if odd < len(ODD):
        steps.append(["t", ODD[odd]])
    steps.append(["t", f"value {ver if kind != 'diff' else str(ver) + 'x'}"])
    if deps:
        steps.append([deps])
    if time and rng.random() < 0.3:
        steps.append(["sleep", rng.choice([0.0005, 0.01, 0.3])])
    if kind == "fail":
        steps.append(["assert", False])
    else:
        steps.append(["assert", True])
    if kind.startswith("raise:"):
        z = zlib.crc32((rng.salt + name).encode()) // 64 % 8
        steps.append(["raise", ("badstr" if z == 0 else "oddmsg" if z == 1 else "value") if kind == "raise:value" else kind[6:]])
    steps.append(["t", "the end"])
    r = ret or rng.choice([["token"], ["token"], ["none"], ["json", {"k": [1, name]}], ["json", 0], ["json", ""], ["val", name],
                           None])
    if kind == "opaque":
        r = rng.choice([["opaque"], ["opaque_in"]])
    if r is not None:
        steps.append(["ret", r])
    return steps


def spec(rng, S, kinds=None, **kw):
    return {n: body(rng, n, (kinds or {}).get(n, "ok"), **kw) for n in names(S)}


def item(argv, rng=None, **kw):
    d = {"calls": [{"argv": list(argv)}]}
    if rng is not None:
        par = any(a.startswith("-p") or a == "--parallel-count" for a in argv)
        d["sched"] = scen.sched(rng, par)
        d["dirseed"] = rng.randrange(1 << 20)
        d["delayseed"] = rng.randrange(1 << 20)
    d.update(kw)
    return d


def pflag(rng):
    return rng.choice([["-p1"], ["-p2"], ["-p2"], ["-p3"], ["-p3"], ["-p4"], ["-p8"], ["-p"], ["--parallel-count", "5"]])


def selection(rng, S, p=0.35):
    """Random positional arguments (possibly none)."""
    if rng.random() > p:
        return []
    ns = names(S)
    prefixes = set()
    for n in ns:
        parts = n.split("/")
        for i in range(2, len(parts) + 1):
            prefixes.add("/".join(parts[:i]))
    prefixes = sorted(prefixes)
    out = rng.sample(prefixes, min(len(prefixes), rng.choice([1, 1, 2])))
    if rng.random() < 0.4:
        out.append("skip:" + rng.choice(prefixes))
    return out


def frac(rng):
    """Where a write is cut: see guest.cut"""
    return rng.random() if rng.random() < 0.6 else rng.choice([2, 2, 3, 4, 5, 6, 7, 8])
