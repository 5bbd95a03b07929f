"""Generates the simulated project: Python sources whose bodies call simrt."""

# A suite is a list of modules:
# {"file": "alpha_test.py", "items": [
#    {"kind": "func", "name": "a", "async": 0, "deps": ["mod:func" | "mod:Class.method" | "res:x" | "port:n"],
#     "decos": ["snapshot_env('SIM_A')", ...]},
#    {"kind": "class", "name": "Beta", "methods": [func like items], "instances": [["p1", "simbook/beta/p1"], ...]}]}


def clean(name):
    return name[:-len("_test.py")] if name.endswith("_test.py") else name[:-3]


def module_name(file):
    return "simbook." + file[:-3].replace("/", ".")


def dep_expr(d, here, cls=None):
    kind, _, rest = d.partition(":")
    if kind == "res":
        return f"bt.Resource({rest!r})"
    if kind == "intres":
        return f"bt.Resource({int(rest)})"
    if kind == "idres":
        v, i = rest.split("/")
        return f"bt.Resource({v!r}, {i!r})"
    if kind == "port":
        return f"bt.port({rest})"
    file = kind
    if cls is not None and rest.startswith(cls + "."):
        return "test_" + rest.split(".", 1)[1]
    parts = rest.split(".")
    parts[-1] = "test_" + parts[-1]
    e = ".".join(parts)
    if file != here:
        e = module_name(file).rsplit(".", 1)[1] + "." + e
    return e


def imports(mod):
    out = set()

    def scan(it):
        for d in it.get("deps", []):
            f = d.partition(":")[0]
            if f.endswith(".py") and f != mod["file"]:
                out.add(f)
    for it in mod["items"]:
        scan(it)
        for m in it.get("methods", []):
            scan(m)
    return sorted(out)


def deco_text(d):
    """Source text of a structured decorator ["snap"|"mock"|"missing"|..., argument, ...]"""
    kind, a = d[0], d[1] if len(d) > 1 else None
    if kind == "snap":
        return "bt.snapshot_env(" + ", ".join(map(repr, a)) + ")"
    if kind == "mock":
        return f"bt.mock_env({a!r})"
    if kind == "missing":
        return f"bt.mock_missing_env({a!r})"
    if kind == "fns":
        return "bt.snapshot_functions(" + ", ".join("simlib." + n for n in a) + ")"
    if kind == "mockfns":
        return "bt.mock_functions({" + ", ".join(f"simlib.{n}: simlib.{m}" for n, m in a) + "})"
    if kind in ("requests", "httpx"):
        return f"bt.snapshot_{kind}(" + ", ".join(f"{k}={v!r}" for k, v in sorted((a or {}).items())) + ")"
    if kind == "setup":
        return "bt.setup_teardown(simlib.dec_setup)"
    raise KeyError(kind)


def render_func(it, here, path, indent="", cls=None):
    L = []
    for d in it.get("decos", []) + [deco_text(d) for d in it.get("dec", [])]:
        L.append(f"{indent}@{d}")
    if it.get("deps"):
        deps = ", ".join(dep_expr(d, here, cls) for d in it["deps"])
        dec = f"{indent}@bt.depends_on({deps})"
        if it.get("deps_inner"):
            L.append(dec)
        else:
            L.insert(0, dec)
    a = "async " if it.get("async") else ""
    fn = "await simrt.abody" if it.get("async") else "simrt.body"
    if cls is None:
        L.append(f"{indent}{a}def test_{it['name']}(t, *deps):")
        L.append(f"{indent}    return {fn}({(path + '/' + it['name'])!r}, t, deps)")
    else:
        L.append(f"{indent}{a}def test_{it['name']}(self, t, *deps):")
        L.append(f"{indent}    return {fn}(self.test_book_path() + {('/' + it['name'])!r}, t, deps)")
    L.append("")
    return L


def render(mod):
    L = ["import os", "import booktest as bt", "from sim import simrt", "import simlib"]
    for f in imports(mod):
        pkg, _, name = module_name(f).rpartition(".")
        L.append(f"from {pkg} import {name}")
    L += mod.get("extra", [])
    L.append("")
    base = "simbook/" + clean(mod["file"])
    for it in mod["items"]:
        if it["kind"] == "func":
            L += render_func(it, mod["file"], base)
        else:
            L.append(f"class {it['name']}(bt.TestBook):")
            if it.get("instances"):
                L.append("    def __init__(self, full_path):")
                L.append("        super().__init__(full_path)")
                L.append("")
            for m in it["methods"]:
                L += render_func(m, mod["file"], None, "    ", it["name"])
            L.append("")
            for var, full in it.get("instances", []):
                L.append(f"{var} = {it['name']}({full!r})")
            L.append("")
    return "\n".join(L) + "\n"


def clean_mod(f):
    return f[:-3].replace("/", ".")


SETUP = '''
from sim import simrt


def process_setup_teardown():
    simrt.setup_event("setup")
    yield
    simrt.setup_event("teardown")
'''

SIMLIB = '''
import asyncio
from sim import simrt, guest


def _answer(name, args, kwargs):
    import json, copy
    k = guest.K
    spec = simrt.CFG.get("fns", {}).get(name)
    n = COUNTS.get(name, 0)
    COUNTS[name] = n + 1
    a = "args" if spec is None else spec[min(n, len(spec) - 1)]
    lat = simrt.CFG.get("fnlat", {}).get(name)
    if lat:
        import time
        time.sleep(lat[n % len(lat)])
    if a == "args":
        r = [name, list(args), kwargs]
    elif a == "count":
        r = {"n": n, "fn": name}
    elif a in ("raise", "unjson"):
        r = a
    else:
        r = copy.deepcopy(a)
    simrt.log("realcall", name, json.dumps([args, kwargs], sort_keys=True, default=repr),
              a if a in ("raise", "unjson") else json.dumps(r, sort_keys=True))
    if a == "raise":
        raise simrt.SimError("scripted call failure")
    if a == "unjson":
        return {1, 2}
    return copy.deepcopy(r)


COUNTS = {}


def f0(*args, **kwargs):
    return _answer("f0", args, kwargs)


def f1(*args, **kwargs):
    return _answer("f1", args, kwargs)


def f2(*args, **kwargs):
    return _answer("f2", args, kwargs)


async def g0(*args, **kwargs):
    await asyncio.sleep(0.001)
    return _answer("g0", args, kwargs)


def mock0(*args, **kwargs):
    simrt.log("mockcall", "mock0")
    return ["mock0", list(args), kwargs]


def mock1(*args, **kwargs):
    simrt.log("mockcall", "mock1")
    return ["mock1", list(args), kwargs]


def mockm(self, *args, **kwargs):
    simrt.log("mockcall", "mockm")
    return ["mockm", list(args), kwargs]


async def amock(*args, **kwargs):
    await asyncio.sleep(0.001)
    simrt.log("mockcall", "amock")
    return ["amock", list(args), kwargs]


class Svc:
    def __init__(self, name):
        self.name = name

    def m(self, *args, **kwargs):
        return _answer(self.name + ".m", args, kwargs)

    def sm(self, *args, **kwargs):
        return _answer(self.name + ".sm", args, kwargs)

    @classmethod
    def cm(cls, *args, **kwargs):
        return _answer("Svc.cm", args, kwargs)

    @staticmethod
    def st(*args, **kwargs):
        return _answer("Svc.st", args, kwargs)


svc = Svc("svc")
svc2 = Svc("svc2")
unpatchable = "".join
import simlib2
ORIGINAL = [(o, dict(vars(o))) for o in (Svc, svc, svc2, simlib2)]
FUNCTIONS = {"f0": f0, "f1": f1, "f2": f2, "g0": g0}


def state():
    out = {n: globals()[n] is f for n, f in FUNCTIONS.items()}
    for o, d in ORIGINAL:
        out[getattr(o, "name", None) or o.__name__] = {k: v for k, v in vars(o).items()} == d
    out["more"] = sorted(set(globals()) & {"m", "sm", "cm", "st", "join"})
    return out


def dec_setup():
    guest.K.op("mark")
    simrt.log("deco", "setup")
    yield
    simrt.log("deco", "teardown")
    guest.K.op("mark")
'''


SIMLIB2 = '''
def f0(*args, **kwargs):
    import simlib
    return simlib._answer("simlib2.f0", args, kwargs)
'''


def case_names(suite):
    """(name, item, class item or None) of all cases, in file order"""
    out = []
    for mod in suite["modules"]:
        base = "simbook/" + clean(mod["file"])
        for it in mod["items"]:
            if it["kind"] == "func":
                out.append((base + "/" + it["name"], it, None, None))
            else:
                for var, full in it.get("instances", [[None, class_path(mod, it)]]):
                    for m in it["methods"]:
                        out.append((full + "/" + m["name"], m, it, full))
    return out


def class_path(mod, it):
    m = clean(mod["file"])
    c = it["name"].lower()
    for post in ("_testbook", "testbook", "_test_book", "test_book", "_book", "book", "_test", "test"):
        if c.endswith(post):
            c = c[:-len(post)]
            break
    import re
    snake = ""
    prev_lower = False
    for ch in it["name"]:
        if prev_lower and ch.isupper():
            snake += "_"
        snake += ch.lower()
        prev_lower = not ch.isupper()
    for post in ("_testbook", "testbook", "_test_book", "test_book", "_book", "book", "_test", "test"):
        if snake.endswith(post):
            snake = snake[:-len(post)]
            break
    if m.replace("_", "") == snake.replace("_", ""):
        return "simbook/" + m
    return "simbook/" + m + "/" + snake


def files(suite, config=None):
    out = {"simlib.py": SIMLIB, "simlib2.py": SIMLIB2, "simbook/__init__.py": ""}
    conf = {"test_paths": "simbook", "default_tests": "simbook"}
    conf.update(suite.get("config", {}))
    conf.update(config or {})
    out[".booktest"] = "# sim\n" + "".join(f"{k}={v}\n" for k, v in sorted(conf.items()))
    if suite.get("setup"):
        out["simbook/__booktest__.py"] = SETUP
    for mod in suite["modules"]:
        out["simbook/" + mod["file"]] = render(mod)
    return out


def dep_cases(suite, name):
    """Names of the cases a case depends on, in declaration order, with None for resources; by the documented rules:
    a method dependency resolves to the same instance first, otherwise to the first matching case."""
    cases = case_names(suite)
    item = full = cls = None
    for n, it, c, f in cases:
        if n == name:
            item, cls, full = it, c, f
    out = []
    for d in item.get("deps", []):
        kind, _, rest = d.partition(":")
        if not kind.endswith(".py"):
            out.append(None)
            continue
        target = None
        if "." in rest:
            cn, mn = rest.split(".")
            same = [n for n, it, c, f in cases if c is not None and c["name"] == cn and it["name"] == mn
                    and file_of(suite, c) == kind]
            mine = [n for n in same if full is not None and cls["name"] == cn and n == full + "/" + mn]
            target = (mine or same or [None])[0]
            if not mine and len(same) > 1:
                target = ("any", same)
        else:
            target = "simbook/" + clean(kind) + "/" + rest
        out.append(target)
    return out


def file_of(suite, cls):
    for mod in suite["modules"]:
        for it in mod["items"]:
            if it is cls:
                return mod["file"]


def resources(item):
    """Identities of the exclusive resources a case declares."""
    out = set()
    for d in item.get("deps", []):
        kind, _, rest = d.partition(":")
        if kind == "res":
            out.add(rest)
        elif kind == "intres":
            out.add(int(rest))
        elif kind == "port":
            out.add(("port", int(rest)))
        elif kind == "idres":
            out.add(rest.split("/")[1])
    return out
