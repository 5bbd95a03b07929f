"""C23: the console tells what happened, and asks where it should."""
import re
from sim import gen, oracle as o, accept, project

COUNT = {"quick": 450, "thorough": 14000}
NONTRIVIAL = "a run or review reported at least two cases, and one of them did not pass or was presented for a decision"
KINDS = ["ok", "ok", "diff", "diff", "fail", "raise:value", "raise:exit", "opaque"]
FLAGS = [[], [], ["-v"], ["-v"], ["-L"], ["-v", "-L"], ["-i"], ["-i"], ["-I"], ["-i", "-v"], ["-I", "-v"], ["-I", "-L"], ["-i", "-L", "-v"],
         ["-a"], ["-u"], ["-a", "-i"], ["-u", "-I"], ["-f"], ["-f", "-i"], ["-c"], ["-c", "-i"], ["-c", "-v"], ["-i", "-a", "-u"], ["-u", "-v"]]
REVIEWS = [["-w"], ["-w", "-i"], ["-w", "-I"], ["-w", "-v"], ["-w", "-I", "-v"], ["-w", "-L"], ["-w", "-i", "-v", "-L"], ["-w", "-a"],
           ["-w", "-c", "-i"], ["-w", "-f", "-i"]]
LISTS = [["-l"], ["--path"], ["--print"], ["--view"]]
ANSWERS = ["c", "c", "c", "a", "a", "q", "v", "l", "d", "D", "x", "", "A", " c"]
TOOLS = {"md_viewer": "show", "diff_tool": "compare", "fast_diff_tool": "qcompare", "log_viewer": "pager"}
DECIDE = {"a": "accept", "c": "continue", "q": "quit"}
PROMPT = re.compile(r"(?:    )?((?:\(a\)ccept, )?)\(c\)ontinue, \(q\)uit, \(v\)iew, \(l\)ogs, \(d\)iff or fast \(D\)iff\n")


def scenarios(rng, run, tier, i):
    n = rng.choice([1, 2, 3, 4, 6, 8]) if i % 9 else rng.choice([10, 12])
    S = gen.suite(rng, n, mods=rng.choice([1, 2]), p_dep=0.25, p_res=0.15, p_setup=0.2, odd=rng.random() < 0.2)
    S["config"] = dict(S.get("config") or {}, **(TOOLS if rng.random() < 0.7 else {}))
    ns = gen.names(S)
    spec = gen.spec(rng, S)
    items = []
    if rng.random() < 0.8:
        items.append(gen.item(["-a"], rng))
    for _ in range(rng.choice([1, 2, 3])):
        if items and rng.random() < 0.25:
            it = gen.item(rng.choice(REVIEWS) + gen.selection(rng, S, 0.2), rng)
        elif rng.random() < 0.15:
            it = gen.item(rng.choice(LISTS) + rng.choice([[], [], ["-c"], ["-v"]]) + gen.selection(rng, S, 0.5), rng)
        else:
            it = gen.item((gen.pflag(rng) if rng.random() < 0.65 else []) + rng.choice(FLAGS) + gen.selection(rng, S, 0.25), rng)
        p = rng.choice([0, 0.2, 0.5, 0.9])
        it["spec"] = {c: gen.body(rng, c, rng.choice(KINDS), ver=rng.choice([1, 1, 2])) for c in ns if rng.random() < p}
        for c in it["spec"]:
            if rng.random() < 0.25:
                it["spec"][c][2:2] = [["log", "", "the same line"], ["log", "", ""], ["log", "", "the same line"]]
            if rng.random() < 0.12:
                # many lines
                it["spec"][c][2:2] = [["log", "", f"log line {j}"] for j in range(rng.choice([12, 30, 70]))] + \
                    [["tln", f"line {j}"] for j in range(rng.choice([0, 12, 60]))]
        it["answers"] = [rng.choice(ANSWERS) for _ in range(40)] + ["c"] * 40
        it["watch"] = ["\tFAIL\t", "\tDIFF\t", "\tOK\t"]
        if rng.random() < 0.15:
            it["wallsteps"] = [[rng.randint(1, 3 * 10**9), int(rng.choice([-3600, -1, 0.5, 86400]) * 1e9)]]
        if o.is_parallel(it["calls"][0]["argv"]) and n < 5 and rng.random() < 0.15:
            it["lines"] = 1
        items.append(it)
    if rng.random() < 0.1 and len(items) > 1:
        items[-2]["stops"] = [{"at": rng.randint(1, 50 * n), "kind": rng.choice(["kill", "torn"]), "frac": gen.frac(rng)}]
    yield {"suite": S, "spec": spec, "worlds": [{"items": items}]}


def listed(r, argv, where):
    """The commands that only show something show that of the cases they are asked for, and change nothing"""
    out = []
    order = [c for c, *_ in project.case_names(r.suite)]
    sel = o.selected(r.suite, argv, r.before) if argv[0] == "--view" else o.todo(r.suite, argv, r.before)
    got = r.stdout.decode("utf-8", "surrogateescape")
    file = {c: f"books/{c}.md" for c in sel}
    have = [c for c in sel if r.before.get(file[c]) is not None]
    ran = [norm(e[5]) for e in o.evs(r, "tool")]
    if argv[0] in ("-l", "--path"):
        want = sorted(f"  {c}" if argv[0] == "-l" else file[c] for c in sel)
        if sorted(got.split("\n")[:-1]) != want:
            out.append(o.v("wrong-list", f"{where}: lists {got!r}, must list {want}"))
    elif argv[0] == "--print":
        texts = {c: r.before[file[c]].decode("utf-8", "surrogateescape") for c in have}
        if len(got) != sum(map(len, texts.values())) or any(t not in got for t in texts.values()):
            out.append(o.v("wrong-list", f"{where}: prints {got!r}, must print {texts}"))
    elif "md_viewer" in (r.suite.get("config") or {}):
        if have and (len(ran) != 1 or sorted(ran[0]) != sorted(["show"] + [file[c] for c in have])) or not have and ran:
            out.append(o.v("wrong-viewer", f"{where}: runs {ran}, must show {[file[c] for c in have]}"))
    d = o.diff_trees(r.before, r.after, lambda k: "__pycache__" not in k)
    if d:
        out.append(o.v("listing-changes", f"{where}: {d}"))
    if "md_viewer" in (r.suite.get("config") or {}) and o.call_status(r) != ("status", 0) or r.ended != "exit":
        out.append(o.v("wrong-status", f"{where}: {o.call_status(r)} {r.ended}; {o.tail(r)}"))
    return out


# ---- the console ------------------------------------------------------------------------------------------------------
class Block:
    def __init__(self, name, verdict, body, log, a, b):
        self.name, self.verdict, self.body, self.log = name, verdict, body, log
        self.a, self.b = a, b                 # where its review starts and ends in the text
        self.ms = None                        # how long it took
        self.prompts = []                     # [(offset, may be accepted, answer)]

    def __repr__(self):
        return f"{self.name} {self.verdict}"


class Broken(Exception):
    pass


def parse(text, names, verbose):
    """(blocks, (failed, tests, failed names)) of a console text; Broken when it is something else."""
    head = "\n# test results:\n\n"
    if not text.startswith(head):
        raise Broken(f"starts with {text[:60]!r}")
    at = len(head)
    alt = "|".join(re.escape(n) for n in sorted(names, key=len, reverse=True))
    begin = re.compile(rf"test ({alt})\.\.\.\n\n" if verbose else rf"  ({alt})\.\.")
    result = r"(?:(-?\d+ ms)|DIFFERED in -?\d+ ms|FAILED in -?\d+ ms)\n"
    blocks = []
    while True:
        m = begin.match(text, at)
        long = verbose
        if m is None and verbose:
            # what was done by the time of quitting is told shortly
            m, long = re.compile(rf"  ({alt})\.\.").match(text, at), False
        if m is None:
            break
        name, at = m[1], m.end()
        body, log = [], None
        if long:
            e = re.compile(rf"(?:^|\n){re.escape(name)} (?:(ok) in -?\d+ ms\.|(DIFFERED) in -?\d+ ms|(FAILED) in -?\d+ ms)\n").search(text, at - 1)
            if e is None:
                raise Broken(f"{name} has no result: {text[at:at + 300]!r}")
            inner = text[at:e.start() + 1] if e.start() >= at else ""
            k = re.compile(rf"(?:^|\n){re.escape(name)} logs:\n\n").search(inner)
            if k is not None:
                ls = inner[k.end():].split("\n")[:-2]
                log = [l[2:] for l in ls]
                if any(not l.startswith("  ") for l in ls):
                    raise Broken(f"the log of {name} is {inner[k.end():]!r}")
                inner = inner[:k.start() + 1] if k.start() > 0 else ""
            body = inner
            verdict = o.OK if e[1] else o.DIFF if e[2] else o.FAIL
        else:
            e = re.compile(result).match(text, at)
            if e is None and text.startswith("\n", at):
                log, at = [], at + 1
                while text.startswith("    log: ", at):
                    end = text.index("\n", at)
                    log.append(text[at + 9:end])
                    at = end + 1
                if not text.startswith(f"  {name}..", at):
                    raise Broken(f"the log of {name} is followed by {text[at:at + 100]!r}")
                at += len(f"  {name}..")
                e = re.compile(result).match(text, at)
            if e is None:
                raise Broken(f"{name} has no result: {text[at:at + 300]!r}")
            verdict = o.OK if e[1] else o.DIFF if e[0].startswith("DIFF") else o.FAIL
        at = e.end()
        b = Block(name, verdict, body if long else None, log, at, at)
        b.ms = int(re.search(r"(-?\d+) ms\.?\n$", e[0])[1])
        while True:
            p = PROMPT.match(text, at)
            if p is not None:
                b.prompts.append([p.end() - 1, bool(p[1]), None])
                at = p.end()
                continue
            p = re.compile(r"(?:md_viewer|diff_tool|fast_diff_tool|log_viewer) is not defined\.\nplease define it in \.booktest file or as "
                           r"env variable BOOKTEST_[A-Z_]+\n").match(text, at)
            if p is None:
                break
            at = p.end()
        b.b = at
        if long and text.startswith("\n", at):
            at += 1
        blocks.append(b)
    m = re.compile(r"\n(\d+)/(\d+) test (?:failed in -?\d+ ms:\n\n((?:  .*\n)*)|succeeded in -?\d+ ms\n)\n$").match(text, at)
    if m is None:
        raise Broken(f"after {blocks[-1:]} follows {text[at:at + 300]!r}")
    if m[3] is None:
        end = (0 if m[1] == m[2] else None, int(m[2]), [])
    else:
        end = (int(m[1]), int(m[2]), [l[2:] for l in m[3].split("\n")[:-1]])
    return blocks, end


def settle(blocks, r):
    """Gives the prompts their answers; returns the prompts of the run that are in no block."""
    ev = {e[7]: e for e in o.evs(r, "input")}
    for b in blocks:
        for p in b.prompts:
            e = ev.pop(p[0], None)
            p[2] = e[6] if e is not None else None
    return list(ev.values())


def judge(sc, results):
    out = []
    for n, r in enumerate(results[0]):
        argv = o.argv_of(r)
        where = f"item {n} {argv}"
        if r.stopinfo or r.ended in ("hang", "spin"):
            if r.ended in ("hang", "spin") and not r.stopinfo:
                out.append(o.v("hang", f"{where}: {r.hang}; {o.tail(r)}"))
            continue
        names = [c for c, *_ in project.case_names(r.suite)]
        if argv[:1] in LISTS:
            out += listed(r, argv, where)
            if out:
                break
            continue
        try:
            text = r.stdout.decode("utf-8")
            raw = len(text) == len(r.stdout)
            blocks, end = parse(r.stdout.decode("latin1"), [c.encode().decode("latin1") for c in names], "-v" in argv)
        except (Broken, UnicodeDecodeError) as e:
            if o.call_status(r) in (None,) or o.call_status(r)[0] == "raise":
                break
            out.append(o.v("garbled-console", f"{where}: {e}"))
            break
        for b in blocks:
            b.name = b.name.encode("latin1").decode()
        stray = settle(blocks, r)
        if stray:
            out.append(o.v("stray-prompt", f"{where}: {stray}"))
        end = (end[0], end[1], [f.encode("latin1").decode() for f in end[2]])
        out += accounts(r, argv, blocks, end, where)
        if out:
            break
    return out


def accounts(r, argv, blocks, end, where):
    out = []
    run = o.is_run(argv)
    par = run and o.is_parallel(argv)
    ex = {}
    for x in sorted(o.execs(r), key=lambda x: x.seq0):
        ex.setdefault(x.case, x)
    recs = o.record_map(r.after)
    shown = [b.name for b in blocks]
    decided = {}
    left = {}                                 # case -> what it was left as
    aborted = False
    for b in blocks:
        x = ex.get(b.name)
        # 1. the verdict
        if run and x is not None:
            want = o.verdict(r.spec.get(b.name, []), x, o.expect(r.before, b.name)) if o.storable(r.spec.get(b.name, [])) else o.FAIL
            if want is not None and b.verdict not in ([want, o.OK] if par and want == o.DIFF and "-a" in argv else [want]):
                out.append(o.v("wrong-verdict", f"{where}: {x} must be {want}, the console says {b}; {o.tail(r)}"))
        elif run and b.verdict == o.OK:
            out.append(o.v("wrong-verdict", f"{where}: {b.name} was not executed, the console says {b}; {o.tail(r)}"))
        elif not run and b.verdict != o.record_map(r.before).get(b.name, [None])[0]:
            out.append(o.v("wrong-verdict", f"{where}: {b.name} was recorded as {o.record_map(r.before).get(b.name)}, the console says {b}"))
        # 2. what it wrote
        if run and "-v" in argv and x is not None and x.how == "return" and b.body is not None:
            out += told(r, b, x, where)
        if not (par and aborted):
            out += logged(r, b, argv, where)
            if "-v" in argv and b.body is None:
                out.append(o.v("wrong-text", f"{where}: {b} is told without its text"))
        # 3. the questions
        asks = not aborted and ("-I" in argv or "-i" in argv and b.verdict != o.OK)
        answers = [p[2] for p in b.prompts]
        final = [k for k, a in enumerate(answers) if a in ("c", "q") or a == "a" and b.verdict != o.FAIL]
        if asks and not answers:
            out.append(o.v("not-asked", f"{where}: {b} was not presented; {o.tail(r)}"))
        elif answers and not asks:
            out.append(o.v("asked-needlessly", f"{where}: {b} was presented, answers {answers}; {o.tail(r)}"))
        elif answers and (not final or final[0] != len(answers) - 1):
            out.append(o.v("wrong-questions", f"{where}: {b} got the answers {answers}; {o.tail(r)}"))
        elif any(p[1] != (b.verdict != o.FAIL) for p in b.prompts):
            out.append(o.v("wrong-offer", f"{where}: {b} offers {['accept' if p[1] else 'no accept' for p in b.prompts]}"))
        out += tools(r, b, argv, where)
        left[b.name] = b.verdict
        if answers and answers[-1] == "a" or b.verdict == o.DIFF and "-a" in argv:
            left[b.name] = o.OK
        if answers and answers[-1] == "q" or "-f" in argv and left[b.name] != o.OK:
            aborted = True
    if out:
        return out
    # 4. everything is told once, in order
    if len(set(shown)) != len(shown):
        out.append(o.v("told-twice", f"{where}: {shown}"))
    if run:
        order = [x.case for x in sorted(ex.values(), key=lambda x: x.seq0)]
        if not par and [c for c in shown if c in ex] != order:
            out.append(o.v("wrong-order", f"{where}: executed {order}, the console tells {shown}"))
        if set(order) - set(shown) and not (par and aborted) or not aborted and set(shown) != o.todo(r.suite, argv, r.before):
            out.append(o.v("case-not-told", f"{where}: executed {order}, to be done {sorted(o.todo(r.suite, argv, r.before))}, told {shown}; {o.tail(r)}"))
        final = [(c, v) for c, v in left.items() if v != o.OK]
        tests = len(blocks)
    else:
        before = {c: v for c, v, d in o.records(r.before)}
        sel = o.selected(r.suite, argv, r.before)
        todo = [c for c in before if c in sel and not ("-c" in argv and before[c] == o.OK)]
        if shown != todo[:len(shown)] or not aborted and len(shown) != len(todo):
            out.append(o.v("case-not-told", f"{where}: to be reviewed {todo}, told {shown}; {o.tail(r)}"))
        final = [(c, left.get(c, v)) for c, v in before.items() if left.get(c, v) != o.OK]
        tests = len(before)
    # 5. the summary
    if end[0] is None or end[0] != len(final) or end[1] != tests or (end[2] != [c for c, v in final]):
        out.append(o.v("wrong-summary", f"{where}: {tests} cases, left {final}, the console says {end}; {o.tail(r)}"))
    took = {c: d for c, _, d in o.records(r.after)}
    for b in blocks:
        if b.name in took and abs(float(took[b.name]) - b.ms) > 1.001:
            out.append(o.v("wrong-duration", f"{where}: {b} took {b.ms} ms on the console, recorded are {took[b.name]}"))
    for c, v in left.items():
        if recs.get(c) != [v]:
            out.append(o.v("told-not-recorded", f"{where}: {c} was left {v}, recorded is {recs.get(c)}; {o.tail(r)}"))
    st = o.call_status(r)
    if (st == ("status", 0)) != (not final):
        out.append(o.v("wrong-status", f"{where}: left {final}, status {st}"))
    return out


def flat(text):
    return text.replace("\r\n", "\n").replace("\r", "\n")


def told(r, b, x, where):
    """The lines that the case wrote, each once and in order; differing and failing ones marked, with what was expected"""
    lines, failed, complete = o.model_output(r.spec.get(x.case, []), x)
    if not complete:
        return []
    body = flat(b.body.encode("latin1").decode("utf-8", "replace"))
    body = body[:-1] if body.endswith("\n") else body          # the line between the text and the result
    mine = [flat(l[1]) for l in lines]
    if b.verdict == o.OK:
        want = "".join(f"  {l}\n" for l in mine)
        if body != want:
            return [o.v("wrong-text", f"{where}: {b} wrote {want!r}, the console says {body!r}")]
        return []
    at = 0
    for l in mine:
        k = re.compile(rf"(?:^|(?<=\n))([ ?!]) {re.escape(l)}").search(body, max(0, at - 1))
        if k is None:
            return [o.v("wrong-text", f"{where}: {b} wrote {l!r}, the console says {body[at:]!r}")]
        at = k.end()
    if not re.search(r"(?:^|\n)[?!] ", body) and o.expect(r.before, x.case) is not None:
        return [o.v("wrong-text", f"{where}: {b} has no marked line: {body!r}")]
    return []


def logged(r, b, argv, where):
    """Under -L the case's own log"""
    want = None
    if "-L" in argv:
        t = r.after.get(f"books/.out/{b.name}.log")
        if t is None or t == b"":
            want = None
        else:
            want = flat(t.decode("latin1"))
            want = want[:-1] if want.endswith("\n") else want
            want = want.split("\n")
    got = None if b.log is None else flat("\n".join(b.log)).split("\n")
    if got != want and o.is_run(argv):
        return [o.v("wrong-log", f"{where}: the log of {b} is {want}, the console says {got}")]
    if b.log is None or not o.is_run(argv):
        return []
    # it is the log of this execution
    x = next((x for x in o.execs(r) if x.case == b.name), None)
    if x is not None:
        for s in r.spec.get(b.name, []):
            if s[0] in ("logx", "errx") and f"{s[1]} {x.no}" not in [l.encode("latin1").decode("utf-8", "replace") for l in got] and x.how == "return":
                return [o.v("wrong-log", f"{where}: {x} logged {s[1]} {x.no}, the console says {got}")]
    return []


def tools(r, b, argv, where):
    """The viewers get the files of the case that is presented"""
    config = r.suite.get("config") or {}
    if not b.prompts or "md_viewer" not in config:
        return []
    evs = o.evs(r, "input")
    mine = [e for e in evs if e[7] in {p[0] for p in b.prompts}]
    out = []
    for e in mine:
        nxt = min([f[0] for f in evs if f[0] > e[0]], default=1 << 60)
        ran = [f[5] for f in o.evs(r, "tool") if e[0] < f[0] < nxt]
        exp, new, log = f"books/{b.name}.md", f"books/.out/{b.name}.md", f"books/.out/{b.name}.log"
        has = r.before.get(exp) is not None
        if o.is_parallel(argv) and ("-a" in argv or "-u" in argv):
            continue                         # the worker may have accepted it
        want = {"v": [["show", exp, new]] if has else [["show", new]], "l": [["pager", log]], "d": [["compare", exp, new]], "D": [["qcompare", exp, new]]}.get(e[6])
        if want is None and ran or want is not None and (len(ran) != 1 or norm(ran[0]) not in want):
            out.append(o.v("wrong-viewer", f"{where}: {b} answered {e[6]!r} ran {ran}, must run {want}"))
    return out


def norm(argv):
    import os.path
    return [argv[0]] + [os.path.normpath(a) for a in argv[1:]]


def nontrivial(sc, results):
    for r in results[0]:
        v = o.records(r.after)
        if len(v) > 1 and not r.stopinfo and (o.evs(r, "input") or any(x[1] != "OK" for x in v)):
            return True
    return False


def probes(sc, results):
    out = []
    for r in results[0]:
        argv = o.argv_of(r)
        kind = "review" if not o.is_run(argv) else "parallel" if o.is_parallel(argv) else "sequential"
        for e in o.evs(r, "input"):
            out.append(f"{kind}: answered {e[6]!r}")
        out.append(f"{kind}: " + " ".join(a for a in argv if a in ("-v", "-L", "-i", "-I")))
    return out
