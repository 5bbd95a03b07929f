#!/usr/bin/env python3
"""tools/automut.py SEED N [file part]: random small changes of booktest's sources. Those that pass the stable tests are run through the
checks until one sees the change; survivors are printed with their diff."""
import ast, json, os, random, shutil, subprocess, sys, tempfile, concurrent.futures as cf
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/booktest/"
FILES = {"runs.py": 5, "testrun.py": 4, "review.py": 4, "reports.py": 3, "testcaserun.py": 4, "requests.py": 4, "httpx.py": 4, "functions.py": 3,
         "env.py": 2, "tests.py": 3, "dependencies.py": 2, "detection.py": 1, "cache.py": 1, "utils.py": 1, "setup.py": 1, "config.py": 1,
         "testsuite.py": 1, "cli.py": 1, "testbook.py": 1, "coroutines.py": 1}
ORDER = {"runs.py": "C01 C23 C16 C02 C04 C06 C05 C17 C19 C18", "testrun.py": "C02 C05 C03 C06 C23 C19 C16 C01 C18 C09 C17",
         "review.py": "C23 C07 C21 C08 C16 C02 C05", "reports.py": "C06 C21 C02 C01 C18 C23",
         "testcaserun.py": "C19 C02 C07 C20 C09 C23 C18 C08", "requests.py": "C10 C12 C13 C09 C08 C18", "httpx.py": "C11 C12 C13 C09 C08 C18",
         "functions.py": "C14 C12 C09 C08 C18", "env.py": "C15 C12 C09 C18", "tests.py": "C22 C21 C23 C03 C24 C07 C06 C02 C12",
         "dependencies.py": "C03 C02 C04 C18 C12", "detection.py": "C17 C02 C18 C23", "cache.py": "C03 C02", "utils.py": "C17 C09", "setup.py": "C24",
         "config.py": "C24 C18", "testsuite.py": "C02 C03 C17", "cli.py": "C24 C17 C18 C05", "testbook.py": "C02 C03 C17", "coroutines.py": "C02 C09"}
# decided by the n/a properties (comparison, formatting, naming), or not behaviour a property names
SKIP = {"jump", "seek", "seek_line", "seek_prefix", "head_exp_token", "anchor", "anchorln", "header", "ifloatln", "h", "h1", "h2", "h3", "timage", "ttable",
        "tdf", "tlist", "tset", "must_apply", "must_contain", "must_equal", "must_be_a", "it", "tformat", "keyvalueln", "member", "setup_parser",
        "test_feed_token", "test_feed", "test_book_path", "rel_path", "rename_file_to_hash", "is_selected", "__repr__"}
ALL = open(os.path.join(ROOT, "tools", "claimed.txt")).read().split()
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}


def mutants(fn):
    src = open(SRC + fn).read()
    tree = ast.parse(src)
    lines = src.split("\n")
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    raw = src.encode()
    out = []

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def rep(n, text):
        a, b = span(n)
        out.append((n.lineno, raw[:a] + text.encode() + raw[b:]))
    U = ast.unparse

    def stmts(n, body):
        rep(n, ("\n" + " " * n.col_offset).join("\n".join(U(ast.fix_missing_locations(x)) for x in body).split("\n")))
    for f in ast.walk(tree):
        if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)) or f.name in SKIP:
            continue
        for n in ast.walk(f):
            # neighbours swapped
            for blk in ("body", "orelse", "finalbody"):
                b = getattr(n, blk, None) or []
                if not isinstance(b, list):
                    continue
                for x, y in zip(b, b[1:]):
                    if not any(isinstance(z, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.AsyncFunctionDef, ast.Return, ast.Raise))
                               or isinstance(z, ast.Expr) and isinstance(z.value, ast.Constant) for z in (x, y)):
                        a0, _ = span(x)
                        _, b1 = span(y)
                        ind = "\n" + " " * x.col_offset
                        t = ind.join((U(y) + "\n" + U(x)).split("\n"))
                        out.append((x.lineno, raw[:a0] + t.encode() + raw[b1:]))
            if isinstance(n, ast.Try):
                if n.finalbody:
                    # only on success
                    stmts(n, ([ast.Try(n.body, n.handlers, n.orelse, [])] if n.handlers else n.body) + n.finalbody)
                for h in n.handlers:
                    rest = [x for x in n.handlers if x is not h]
                    stmts(n, [ast.Try(n.body, rest, n.orelse if rest else [], n.finalbody)] if rest or n.finalbody else n.body)
                    if h.type is not None and len(U(h.type)) < 40:
                        for t in ("Exception", "BaseException", "OSError"):
                            if U(h.type) != t:
                                rep(h.type, t)
            if isinstance(n, ast.With) and len(n.body) > 1:
                # the last or the first statement outside
                stmts(n, [ast.With(n.items, n.body[:-1]), n.body[-1]])
                stmts(n, [n.body[0], ast.With(n.items, n.body[1:])])
            if isinstance(n, (ast.For, ast.While)) and len(n.body) > 1:
                stmts(n, [ast.While(n.test, n.body[:-1], []) if isinstance(n, ast.While) else ast.For(n.target, n.iter, n.body[:-1], []), n.body[-1]])
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                rep(n, f"({U(n.left)} {CMP[type(n.ops[0])]} {U(n.comparators[0])})")
            elif isinstance(n, ast.BoolOp):
                for v in n.values:
                    rep(n, "(" + f" {'and' if isinstance(n.op, ast.And) else 'or'} ".join(U(x) for x in n.values if x is not v) + ")")
                rep(n, "(" + f" {'or' if isinstance(n.op, ast.And) else 'and'} ".join(f"({U(x)})" for x in n.values) + ")")
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                rep(n, f"({U(n.operand)})")
            elif isinstance(n, ast.Constant) and n.value in (True, False) and isinstance(n.value, bool):
                rep(n, str(not n.value))
            elif isinstance(n, ast.Constant) and isinstance(n.value, int):
                rep(n, str(n.value + 1))
            elif isinstance(n, (ast.Expr,)) and isinstance(n.value, (ast.Call, ast.Await)):
                rep(n, "pass")
            elif isinstance(n, (ast.Assign, ast.AugAssign)) and not isinstance(getattr(n, "value", None), ast.Name):
                if isinstance(n, ast.AugAssign) or isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
                    rep(n, "pass")
            elif isinstance(n, (ast.Break, ast.Continue)):
                rep(n, "pass")
            elif isinstance(n, (ast.If,)):
                rep(n.test, "True")
                rep(n.test, "False")
            elif isinstance(n, ast.Raise):
                rep(n, "pass")
            elif isinstance(n, ast.Delete):
                rep(n, "pass")
            elif isinstance(n, ast.Call) and n.keywords and not any(k.arg is None for k in n.keywords):
                k = n.keywords[-1]
                rep(n, U(ast.Call(n.func, n.args, n.keywords[:-1])))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("sorted", "list", "reversed", "dict", "set") and len(n.args) == 1:
                rep(n, f"({U(n.args[0])})")
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "deepcopy") and len(n.args) == 1:
                rep(n, f"({U(n.args[0])})")
            elif isinstance(n, ast.With) and len(n.items) == 1 and n.items[0].optional_vars is None:
                a, b = span(n.items[0].context_expr)
                rep(n.items[0].context_expr, "__import__('contextlib').nullcontext()")
    good = []
    for line, text in out:
        try:
            ast.parse(text)
            if text != raw:
                good.append((fn, line, text))
        except SyntaxError:
            pass
    return good


def run(job):
    i, fn, line, text = job
    d = tempfile.mkdtemp(prefix="auto.", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        with open(f"{d}/repo/booktest/{fn}", "wb") as f:
            f.write(text)
        diff = subprocess.run(["git", "-C", d + "/repo", "diff", "-U1"], capture_output=True, text=True).stdout
        diff = "\n".join(l for l in diff.split("\n")[4:])
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        # the stable tests, in the copy
        p = subprocess.run([sys.executable, ROOT + "/tools/stable.py", d + "/repo"], capture_output=True, text=True, timeout=200, env=env)
        if p.returncode:
            return f"#{i} {fn}:{line} fails the tests", None
        os.makedirs(d + "/v/evidence")
        for x in ("sim", "check.py", "known_findings.json"):
            subprocess.run(["cp", "-a", os.path.join(ROOT, x), d + "/v/"], check=True)
        order = ORDER.get(fn, "").split()
        for c in order:
            p = subprocess.run(["/opt/venv/bin/python", "check.py", c], cwd=d + "/v", capture_output=True, text=True, timeout=1200,
                               env=dict(os.environ, SIM_REPO=d + "/repo", VERIF_SEED="1"))
            if p.returncode == 1:
                cl = [l for l in p.stdout.split("\n") if "violation class" in l]
                return f"#{i} {fn}:{line} {c}{cl[0] if cl else ''}", None
            if p.returncode:
                return f"#{i} {fn}:{line} {c} EXIT {p.returncode} {p.stdout[-300:]}", diff
        return f"#{i} {fn}:{line} SURVIVED", diff
    except subprocess.TimeoutExpired:
        return f"#{i} {fn}:{line} TIMEOUT (tests or check)", None
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    seed, n = int(sys.argv[1]), int(sys.argv[2])
    part = sys.argv[3] if len(sys.argv) > 3 else ""
    rng = random.Random(seed)
    pool = {fn: mutants(fn) for fn in FILES if part in fn}
    print({k: len(v) for k, v in pool.items()})
    picks = []
    while len(picks) < n and any(pool.values()):
        fn = rng.choices(list(pool), [FILES[f] if pool[f] else 0 for f in pool])[0]
        picks.append(pool[fn].pop(rng.randrange(len(pool[fn]))))
    with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as ex:
        for fut in cf.as_completed([ex.submit(run, (i, *p)) for i, p in enumerate(picks)]):
            msg, diff = fut.result()
            print(msg, flush=True)
            if diff:
                print(diff, flush=True)
