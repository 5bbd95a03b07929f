"""C19: a case's output and log files hold its own output and nothing else."""
import copy, hashlib, json, re
from sim import gen, oracle as o, project
from sim.checks.c16 import reported

COUNT = {"quick": 150, "thorough": 4500}
NONTRIVIAL = "at least two cases that wrote tagged lines were executed, in parallel or over left-overs of an earlier or killed run"
TAG = re.compile(r"<([^<>#]+)#(\d+)\.([^<>]*)>")
KINDS = ["ok", "ok", "ok", "diff", "fail", "opaque"] + ["raise:" + k for k in ("value", "os", "exit", "cancel", "genexit", "base", "assert", "badstr", "oddmsg", "custom")]
FLAGS = [[], [], ["-f"], ["-a"], ["-u"], ["-c"], ["-v"], ["-i"], ["-I"], ["-L"], ["-a", "-L"], ["-I", "-v"], ["-S"], ["-v", "-L", "-a"]]
TEXTS = ["plain words", "3.14", "-2.50 and 1e5", "1.2.3", "x=1,y=-7", "", " leading", "trailing  ", "tab\there", "ümläut ß €",
         "\u4f60\u597d", "a\u00b2b\u00b2", "\u0663.5", "1.", ".5", "- -3", "--4.", "12abc34", "**md** `code`", "(1.5)", "{}[]", "a" * 300,
         "e\u0301 \U0001f600", "\\n", "'q' \"p\"", "0007", "1.5.", "end\u00a0nbsp", "#", "| a | b |", "\u2460 one", "5\u00bd"]
LOGGERS = ["", "", "app", "app.sub", "lib.http"]
LEVELS = ["WARNING", "ERROR", "CRITICAL", "INFO", "DEBUG"]


def writes(rng, ver):
    z = rng.randrange(17)
    x = rng.choice(TEXTS)
    if z == 0:
        return [["tln", x]]
    if z == 1:
        return [["iln", x]]
    if z == 2:
        return [["in", x]]
    if z == 3:
        return [[rng.choice(["h1", "h2", "h3"]), x]]
    if z == 4:
        return [["h", rng.randint(1, 5), x]]
    if z == 5:
        return [["chain", x, rng.choice(TEXTS), rng.choice(TEXTS)]]
    if z == 6:
        return [["tlist", [rng.choice(TEXTS) for _ in range(rng.randint(0, 3))]] + rng.choice([[], [" - "], [""]])]
    if z == 7:
        return [["tset", [rng.choice(TEXTS) for _ in range(rng.randint(0, 3))]]]
    if z == 8:
        return [["keyvalueln", "key" + x.strip(), rng.choice([1, 2.5, None, "v", [1, "a"], -3])]]
    if z == 9:
        return [["anchorln", x]]
    if z == 10:
        return [["anchor", x], ["iln", rng.choice(TEXTS)]]
    if z == 11:
        return [["assertln", "is it? ", True] + rng.choice([[], ["or not"]])]
    if z == 12:
        return [["must", "thing", [1, "a"], *rng.choice([["contain", 1], ["equal", [1, "a"]], ["be", "list"]])]]
    if z == 13:
        return [["tformat", rng.choice([{"a": [1, {"b": None}]}, [], "s", {}])]]
    if z == 14:
        return [["ttable", {"x" + str(ver): [1, 22, 333], "long name": [rng.choice(TEXTS) for _ in range(3)]}]]
    if z == 15:
        return [["tln", x + "\n" + rng.choice(TEXTS)]]
    return [["t", x], ["i", rng.choice(TEXTS)], ["t", rng.choice(TEXTS)], ["tln"]]


def noise(rng, k):
    """A tagged line for the log"""
    if rng.random() < 0.5:
        return ["lg", str(k), rng.choice(LOGGERS), rng.choice(LEVELS), rng.choice(["message", "two\nlines", "ü", "x" * 9000, "100%s"])]
    return ["se", str(k), rng.choice(["words", "two\nlines", "ü", "y" * 9000]), rng.choice(["print", "write", "lines", "parts", "warn"])]


def body(rng, case, kind, is_async):
    steps = [["ls"]] if rng.random() < 0.6 else []
    steps.append(["w", [["tln", "case " + case], ["in", "run"]]])
    if rng.random() < 0.25:
        steps += rng.sample([["file", "kept.txt", "kept " + case], ["tmp", "mine.txt", case], ["tmpdir", "own", case]], rng.choice([2, 3]))
    k = 0
    n = rng.choice([1, 3, 6])
    at = rng.randrange(n)
    for j in range(n):
        z = rng.random()
        if z < 0.35:
            steps.append(["w", writes(rng, 1)])
        elif z < 0.65:
            steps.append(noise(rng, k))
            k += 1
        elif z < 0.75:
            steps.append(["asleep", rng.choice([0.0005, 0.02, 0.3, 1.2])])
        elif z < 0.83:
            steps.append(rng.choice([["file", f"f{j}.txt", "content " + case], ["tmp", f"t{j}.txt", case], ["tmpdir", f"d{j}", case],
                                     ["image", f"i{j}.dat", case + str(j)]]))
        elif is_async and z < 0.95:
            tracks = []
            for a in range(rng.randint(2, 3)):
                tr = []
                for b in range(rng.randint(1, 3)):
                    tr.append(["asleep", rng.choice([0.001, 0.01, 0.2])])
                    tr.append(noise(rng, f"{k}.{a}.{b}") if rng.random() < 0.6 else ["w", [["in", f"track {a} {b}"]]])
                tracks.append(tr)
            steps.append(["gather", tracks])
            k += 1
        else:
            tracks = []
            for a in range(rng.randint(1, 3)):
                tr = []
                for b in range(rng.randint(1, 3)):
                    tr.append(["asleep", rng.choice([0.001, 0.01, 0.2])])
                    tr.append(noise(rng, f"{k}.{a}.{b}"))
                tracks.append(tr)
            if is_async:
                tracks = [[["sleep", x[1]] if x[0] == "asleep" else x for x in tr] for tr in tracks]
            steps.append(["threads", tracks])
            k += 1
        if j == at:
            if kind == "diff":
                steps.append(["w", [["tln", "value changed"]]])
            elif kind == "fail":
                steps.append(["w", [["assertln", "check ", False]]])
            elif kind.startswith("raise:"):
                steps.append(["raise", kind[6:]])
            else:
                steps.append(["w", [["tln", "value"]]])
    if rng.random() < 0.4:
        steps.append(["ls"])
    if kind == "opaque":
        steps.append(["ret", ["opaque"]])
    elif rng.random() < 0.5:
        steps.append(["ret", ["token"]])
    return steps


def scenarios(rng, run, tier, i):
    n = rng.choice([2, 3, 4, 6, 8])
    S = gen.suite(rng, n, mods=rng.choice([1, 2, 3]), p_dep=0.25, p_res=0.1, p_setup=0.2, p_async=0.4)
    kinds = {c: it for c, it, *_ in project.case_names(S)}
    ns = list(kinds)
    spec = {c: body(rng, c, "ok", kinds[c].get("async")) for c in ns}
    items, files = [], {}
    if rng.random() < 0.3:
        for c in rng.sample(ns, min(len(ns), 2)):
            for f in rng.sample([".md", ".log", ".txt", "/old.txt", ".tmp/old.txt", ".tmp/deep/er.txt", ".bin"], 3):
                files[f"books/.out/{c}{f}"] = f"left <{c}#0.left> behind\n" * rng.choice([1, 200])
            if rng.random() < 0.5:
                b = ".".join(c.split("/"))
                for f in rng.sample([f"/{c}.md", f"/{c}.log", "/cases.txt", f"/{c}/x.txt", "/.out/" + c + ".md"], 2):
                    files[f"books/.out/.batches/{b}{f}"] = f"left <{c}#0.batch> behind\n"
    m = rng.choice([1, 2, 3])
    for k in range(m):
        par = gen.pflag(rng) if rng.random() < 0.6 else []
        fl = ["-a"] if k == 0 and m > 1 and rng.random() < 0.6 else rng.choice(FLAGS)
        it = gen.item(par + fl + gen.selection(rng, S, 0.2), rng)
        if rng.random() < 0.15:
            it["calls"].append({"argv": (gen.pflag(rng) if rng.random() < 0.4 else []) + rng.choice(FLAGS) + gen.selection(rng, S, 0.3)})
        p = rng.choice([0, 0.3, 0.7])
        it["spec"] = {c: body(rng, c, rng.choice(KINDS), kinds[c].get("async")) for c in ns if rng.random() < p}
        it["answers"] = [rng.choice(["c", "c", "a", "a", "v", "l"]) for _ in range(30)] + ["c"] * 20
        if rng.random() < 0.3:
            it["handlers"] = rng.choice([["%(levelname)s %(name)s: %(message)s"], [None]])
        items.append(it)
    sc = {"suite": S, "spec": spec, "worlds": [{"items": items, "files": files}]}
    if m > 1 and rng.random() < 0.6:
        k = rng.randrange(m - 1)
        r = run(copy.deepcopy(sc))[0]
        if len(r) > k:
            par = o.is_parallel(items[k]["calls"][0]["argv"])
            kind = rng.choice(["kill", "kill", "torn", "sigint", "sigint_main" if par else "sigint", "killmain" if par else "kill"])
            items[k]["stops"] = [{"at": rng.randint(1, max(r[k].ops, 2)), "kind": kind, "frac": gen.frac(rng)}]
    yield sc


# ---- the model of what a body writes ---------------------------------------------------------------------------------------
class Text:
    def __init__(self):
        self.s = ""

    def add(self, x):
        self.s += x

    def header(self, x):
        if "\n" in self.s:
            self.s += "\n"
        self.s += x + "\n\n"


def fmt(v):
    if isinstance(v, list):
        return [fmt(x) for x in v]
    if isinstance(v, dict):
        return {k: fmt(x) for k, x in v.items()}
    return type(v).__name__


def put(T, w, x):
    op, a = w[0], w[1:]
    tag = f"<{x.case}#{x.no}.o>"
    if op == "in":
        T.add(f"{a[0]} {tag}\n")
    elif op in ("t", "i"):
        T.add(a[0])
    elif op in ("tln", "iln", "anchorln"):
        T.add((a[0] if a else "") + "\n")
    elif op in ("h1", "h2", "h3"):
        T.header("#" * int(op[1]) + " " + a[0])
    elif op == "h":
        T.header("#" * a[0] + " " + a[1])
    elif op == "anchor":
        T.add(a[0])
    elif op == "keyvalueln":
        T.add(f"{a[0]} {a[1]}\n")
    elif op in ("tlist", "tset"):
        for v in a[0]:
            T.add((a[1] if len(a) > 1 else " * ") + str(v) + "\n")
    elif op == "tformat":
        T.add(json.dumps(fmt(a[0]), indent=2) + "\n")
    elif op == "ttable":
        cols = {k: [str(v) for v in vs] for k, vs in a[0].items()}
        width = {k: max([len(k)] + [len(v) for v in vs]) for k, vs in cols.items()}
        T.add("|" + "".join(k.ljust(width[k]) + "|" for k in cols) + "\n")
        T.add("|" + "".join("-" * width[k] + "|" for k in cols) + "\n")
        for j in range(len(next(iter(cols.values())))):
            T.add("|" + "".join(cols[k][j].replace("\r", " ").replace("\n", " ").strip().ljust(width[k]) + "|" for k in cols) + "\n")
    elif op == "assertln":
        T.add(a[0] + ("ok" if a[1] else a[2] if len(a) > 2 else "FAILED") + "\n")
    elif op == "must":
        T.header(f"## {a[0]}..")
        what = {"contain": f"have {a[3]}", "equal": f"equal {a[3]}", "be": f"be a {list}"}[a[2]]
        T.add(f" * MUST {what}...ok\n")
    elif op == "chain":
        T.add(a[0] + a[1] + a[2] + "\n")
    else:
        raise KeyError(op)


def expected(steps, x):
    """(parts of the output, tags of the log per track, the files that "ls" must see, whether it ends by a raise):
    a part is a text, or a list of lines in any order."""
    T, parts, log, ls, files = Text(), [], [], [], []

    def say(s, track):
        if s[0] == "se" or s[0] == "lg" and s[3] not in ("INFO", "DEBUG"):
            track.append(s[1])
    for s in steps:
        if s[0] == "w":
            for w in s[1]:
                put(T, w, x)
        elif s[0] in ("lg", "se"):
            track = []
            say(s, track)
            log.append([track])
        elif s[0] in ("gather", "threads"):
            tracks, lines = [], []
            for tr in s[1]:
                track = []
                for q in tr:
                    say(q, track)
                    if q[0] == "w":
                        lines.append(f"{q[1][0][1]} <{x.case}#{x.no}.o>\n")
                tracks.append(track)
            log.append(tracks)
            if lines:
                parts += [T.s, lines]
                T = Text()
                T.s = ""
                T.header = lambda h, T=T: T.add("\n" + h + "\n\n")
        elif s[0] == "file":
            files.append(s[1])
        elif s[0] == "image":
            h = hashlib.sha1(s[2].encode()).hexdigest() + ".png"
            files.append(h)
            T.add(f"![image]({x.case.split('/')[-1]}/{h})\n")
        elif s[0] == "tmp":
            files.append(s[1])
        elif s[0] == "tmpdir":
            files.append(s[1] + "/inner.txt")
        elif s[0] == "ls":
            ls.append(sorted(files))
        elif s[0] == "raise":
            return parts + [T.s], log, ls, True
    return parts + [T.s], log, ls, not o.storable(steps)


def match(got, parts, raised):
    """None when the text is what the parts say, else where it differs"""
    at = 0
    for p in parts:
        if isinstance(p, str):
            if not got.startswith(p, at):
                j = next((j for j in range(len(p)) if got[at + j:at + j + 1] != p[j]), 0)
                return f"at {at + j}: {got[at + max(j - 60, 0):at + j + 60]!r} instead of {p[max(j - 60, 0):j + 60]!r}"
            at += len(p)
        else:
            n = sum(map(len, p))
            lines = got[at:at + n].splitlines(True)
            if sorted(lines) != sorted(p):
                return f"at {at}: {got[at:at + n]!r} are not the lines {sorted(p)!r}"
            at += n
    if not raised and at != len(got):
        return f"{got[at:at + 200]!r} follows"
    if raised and not got.startswith("\ntest raised exception", at):
        return f"{got[at:at + 200]!r} follows instead of the exception"
    return None


def judge(sc, results):
    out = []
    for n, r in enumerate(results[0]):
        if r.ended in ("hang", "spin"):
            break
        where = f"item {n} {[c['argv'] for c in r.item['calls']]} stop {r.stopinfo}"
        for x in o.execs(r):
            parts, log, ls, raised = expected(r.spec.get(x.case, []), x)
            seen = [e[6 + 1] for e in o.obs(r, x.case) if e[6] == "files" and x.seq0 < e[0] < (x.seq1 or 1 << 60) and e[2] == x.proc]
            for a, b in zip(ls, seen):
                if a != b:
                    out.append(o.v("old-files", f"{where}: {x}: its folders hold {b} instead of {a}"))
        last = {}
        for x in o.execs(r):
            last[x.case] = x
        for c, x in last.items():
            out += files_of(r, c, x, where)
        if not out and all(o.is_run(c["argv"]) for c in r.item["calls"]):
            out += untouched(r, last, where)
        if out:
            break
    return out


def settled(r, x):
    """Whether the run came to account for execution x"""
    if x.how is None:
        return False
    if r.stopinfo:
        if r.stopinfo[0] not in ("sigint", "sigint_main") or r.ended != "exit":
            return False
        return x.seq1 < r.stopinfo[4] and x.case in reported(r)
    return r.ended == "exit" and o.call_status(r, len(r.item["calls"]) - 1) is not None


def files_of(r, c, x, where):
    out = []
    steps = r.spec.get(c, [])
    md = o.output(r.after, c)
    kept = md
    if md is None:
        md = o.expect(r.after, c)
    log = o.text(r.after, f"books/.out/{c}.log")
    parts, logs, ls, raised = expected(steps, x)
    sure = settled(r, x) and (raised and o.storable(steps)) == (x.how == "raise")
    for what, text in (("output", kept), ("log", log)):
        for m in TAG.finditer(text or ""):
            if (sure or kept is not None or what == "log") and m[1] != c:
                out.append(o.v("foreign-" + what, f"{where}: {x}: {what} has {m[0]} of another case"))
            elif sure and int(m[2]) != x.no:
                out.append(o.v("stale-" + what, f"{where}: {x}: {what} has {m[0]} of another execution"))
            if out:
                return out
    if not sure:
        return out
    if md is None:
        return [o.v("no-output", f"{where}: {x}: no output file")]
    bad = match(md, parts, raised)
    if bad:
        return [o.v("output", f"{where}: {x}: output {bad}")]
    if log is None:
        return [o.v("no-log", f"{where}: {x}: no log file")]
    tags = [m[3] for m in TAG.finditer(log)]
    want = [t for tracks in logs for tr in tracks for t in tr]
    if sorted(tags) != sorted(want):
        return [o.v("log", f"{where}: {x}: log has {tags} instead of {want}: {log[:600]!r}")]
    at = 0
    for tracks in logs:
        k = sum(map(len, tracks))
        part = tags[at:at + k]
        at += k
        if sorted(part) != sorted(t for tr in tracks for t in tr):
            return [o.v("log-order", f"{where}: {x}: log has {tags}, written {want}")]
        for tr in tracks:
            if [t for t in part if t in tr] != tr:
                return [o.v("log-order", f"{where}: {x}: log has {tags}, written {want}")]
    for s in flat(steps):
        if s[0] in ("lg", "se") and (s[0] == "se" or s[3] not in ("INFO", "DEBUG")):
            full = s[4] if s[0] == "lg" else s[2]
            if f"<{c}#{x.no}.{s[1]}> " in log and f"<{c}#{x.no}.{s[1]}> {full}" not in log:
                return [o.v("log-cut", f"{where}: {x}: log lacks the whole message {full[:80]!r}: {log[:600]!r}")]
    return out


def flat(steps):
    for s in steps:
        if s[0] in ("gather", "threads"):
            for tr in s[1]:
                yield from flat(tr)
        else:
            yield s


def untouched(r, last, where):
    """A run leaves the files of the cases that it does not select alone"""
    sel = set().union(*(o.selected(r.suite, c["argv"], r.before) for c in r.item["calls"]))
    for c, *_ in project.case_names(r.suite):
        if c in last or c in sel:
            continue
        for f in (".md", ".log"):
            k = f"books/.out/{c}{f}"
            if r.before.get(k) != r.after.get(k):
                return [o.v("untouched", f"{where}: {c} was not selected, and {k} changed")]
    return []


def nontrivial(sc, results):
    for n, r in enumerate(results[0]):
        if len({x.case for x in o.execs(r)}) > 1 and (n > 0 or sc["worlds"][0].get("files") or
                                                     any(o.is_parallel(c["argv"]) for c in r.item["calls"])):
            return True
    return False


def probes(sc, results):
    out = []
    for n, r in enumerate(results[0]):
        if n and results[0][n - 1].stopinfo and results[0][n - 1].stopinfo[0] in ("kill", "torn", "killmain") and o.execs(r):
            out.append("run after a kill")
        xs = o.execs(r)
        if any(a.proc != b.proc and a.t1 and b.t1 and a.t0 < b.t1 and b.t0 < a.t1 for a in xs for b in xs):
            out.append("overlapping cases")
        if any(e[6] == "files" for e in o.obs(r)):
            out.append("folders listed")
    return out
