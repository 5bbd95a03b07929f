"""Reference models and readers shared by the checks.  Everything is judged from what was observed at the seams (events,
files before and after, exit status) and never from the code's own bookkeeping."""
import ast, json, re
from . import project

BOOKS = "books"
OK, DIFF, FAIL = "OK", "DIFF", "FAIL"


class Exec:
    def __init__(self, e):
        self.seq0, self.t0, self.proc, self.tid = e[0], e[1], e[2], e[3]
        self.case, self.no, self.deps, self.fp = e[5], e[6], e[7], e[8]
        self.seq1 = self.t1 = self.how = self.detail = None

    @property
    def done(self):
        return self.how is not None

    def __repr__(self):
        return f"{self.case}#{self.no}[{self.seq0}..{self.seq1} p{self.proc} {self.how} {self.detail}]"


def execs(r):
    out, byno = [], {}
    for e in r.events:
        if e[4] == "start":
            x = Exec(e)
            out.append(x)
            byno[x.no] = x
        elif e[4] == "end":
            x = byno.get(e[6])
            if x is not None:
                x.seq1, x.t1, x.how, x.detail = e[0], e[1], e[7], e[8]
    return out


def obs(r, case=None):
    return [e for e in r.events if e[4] == "obs" and (case is None or e[5] == case)]


def evs(r, etype):
    return [e for e in r.events if e[4] == etype]


def call_status(r, i=0):
    """Exit status of call i: ("status", int) | ("raise", name) | None when it never came back.
    The shell's view: return value or SystemExit code of main; None is 0."""
    for c in r.calls:
        if c[0] == i:
            how, val = c[1], c[2]
            if how in ("return", "exit"):
                if val is None:
                    return ("status", 0)
                if isinstance(val, int):
                    return ("status", val)
                return ("status", 1)
            return ("raise", val)
    return None


def good(r, i=0):
    s = call_status(r, i)
    return s is not None and s[0] == "status" and s[1] & 0xff == 0


def records(tree, books=BOOKS):
    """[(name, verdict, duration text)] of the recorded results; unreadable lines as (None, raw, None)"""
    data = tree.get(books + "/.out/cases.txt")
    if data is None:
        return []
    out = []
    for line in data.decode("utf-8", "replace").split("\n"):
        if not line.strip():
            continue
        p = line.split("\t")
        try:
            float(p[2])
            if len(p) != 3 or p[1] not in (OK, DIFF, FAIL):
                raise ValueError
            out.append(tuple(p))
        except (IndexError, ValueError):
            out.append((None, line, None))
    return out


def record_map(tree, books=BOOKS):
    out = {}
    for n, v, d in records(tree, books):
        if n is not None:
            out.setdefault(n, []).append(v)
    return out


def text(tree, rel):
    d = tree.get(rel)
    return None if d is None else d.decode("utf-8", "replace")


def expect(tree, case, books=BOOKS):
    return text(tree, f"{books}/{case}.md")


def output(tree, case, books=BOOKS):
    return text(tree, f"{books}/.out/{case}.md")


def lines_of(t):
    ls = t.split("\n")
    if ls and ls[-1] == "":
        ls = ls[:-1]
    return ls


# ---- the body model: what a scripted body writes, in terms of lines -----------------------------------------------------
SILENT = {"sleep", "asleep", "spin", "log", "logx", "err", "errx", "out", "file", "tmp", "tmpdir", "ls", "ret", "retdeps", "mutdeps",
          "env", "getenv", "call", "acall", "get", "aget", "wall", "threads", "gather", "addhandler", "try", "atimeout"}


def escaped(text):
    """Lone surrogates are stored escaped"""
    return text.encode("utf-8", "backslashreplace").decode("utf-8")


def model_output(steps, ex):
    """(lines, failed, complete): lines are (mode, text): 'c' compared, 'i' ignored, 'p' prefix compared.
    complete is False when the rest is not modelled (an exception report, for example)."""
    out, failed = [], False
    for s in steps:
        op = s[0]
        if op == "t":
            out.append(("c", escaped(s[1])))
        elif op == "i":
            out.append(("i", escaped(s[1])))
        elif op == "uniq":
            out.append(("i", f"{s[1]} {ex.no}"))
        elif op == "assert":
            out.append(("p", "check " + ("ok" if s[1] else "FAILED"), "check "))
            failed = failed or not s[1]
        elif op == "pfx":
            out.append(("p", s[1], s[1]))
        elif op == "fail":
            out.append(("c", "failed line"))
            failed = True
        elif op == "deps":
            out += [("i", "dep " + d) for d in ex.deps]
        elif op == "tdeps":
            out += [("c", "dep " + d) for d in ex.deps]
        elif op == "getenv" and len(s) > 2:
            return out, failed, False
        elif op == "raise":
            return out, True, False
        elif op in SILENT:
            continue
        else:
            return out, failed, False
    return out, failed, True


def verdict(steps, ex, exp):
    """The verdict the case must get, given its expectation text (None = no expectation); None = not modelled."""
    out, failed, complete = model_output(steps, ex)
    if ex.how == "raise":
        return FAIL
    if ex.how is None:
        return FAIL
    if failed:
        return FAIL
    if not complete:
        return None
    if exp is None:
        return DIFF
    el = lines_of(exp)
    for i, l in enumerate(out):
        if l[0] == "c" and (i >= len(el) or el[i] != l[1]):
            return DIFF
        if l[0] == "p" and (i >= len(el) or not el[i].startswith(l[2])):
            return DIFF
    return OK


def out_text(steps, ex):
    """The exact output text, when fully modelled."""
    out, failed, complete = model_output(steps, ex)
    if not complete or ex.how != "return":
        return None
    return "".join(l[1] + "\n" for l in out)


def modelled(steps):
    """Whether the whole output of a body is modelled"""
    class X:
        no, deps = 0, []
    return model_output(steps, X)[2]


def storable(steps):
    """Whether the result of a body can be stored."""
    for s in steps:
        if s[0] == "ret" and s[1][0] in ("opaque", "opaque_in"):
            return False
    return True


# ---- selection ---------------------------------------------------------------------------------------------------------
def positional(argv):
    out = []
    skip = False
    for a in argv:
        if skip:
            skip = False
        elif a in ("--parallel-count", "-md-viewer", "-diff-tool"):
            skip = True
        elif not a.startswith("-"):
            out.append(a)
    return out


def below(name, s):
    return s == "*" or name == s or name.startswith(s + "/")


def named(suite, argv):
    names = [n for n, *_ in project.case_names(suite)]
    sel = positional(argv) or ["simbook"]
    skips = [s[5:] for s in sel if s.startswith("skip:")]
    pos = [s for s in sel if not s.startswith("skip:")]
    return [n for n in names if not any(below(n, s) for s in skips) and (not pos or any(below(n, s) for s in pos))]


def has_bin(tree, case, books=BOOKS):
    return tree.get(f"{books}/.out/{case}.bin") is not None


def selected(suite, argv, tree):
    """All cases the invocation has to take care of: the named ones and the dependencies they need."""
    base = named(suite, argv)
    out = set()

    def add(n):
        if n in out:
            return
        out.add(n)
        for d in dep_names(suite, n):
            if d in base or "-r" in argv or not has_bin(tree, d):
                add(d)
    for n in base:
        add(n)
    return out


def dep_names(suite, name):
    out = []
    for d in project.dep_cases(suite, name):
        if d is None:
            continue
        out.append(d[1][0] if isinstance(d, tuple) else d)
    return out


def todo(suite, argv, tree):
    sel = selected(suite, argv, tree)
    if "-c" not in argv:
        return sel
    rec = record_map(tree)
    return {n for n in sel if not (n in rec and rec[n][0] == OK)}


def unreached(r, failing=()):
    """Cases that a completed, undisturbed run had to start and did not, although what they depend on has results: something
    around the body ended them."""
    argv = argv_of(r)
    if r.stopinfo or faulted_run(r) or "-f" in argv or not is_run(argv) or r.item.get("setup_fail") or r.ended in ("hang", "spin"):
        return []
    ran = execs(r)
    if any(x.how == "raise" and x.detail in ("KeyboardInterrupt", None) or not x.done for x in ran):
        return []
    started = {x.case for x in ran}
    return sorted(c for c in todo(r.suite, argv, r.before) if c not in started and c not in failing and
                  all(has_bin(r.after, d) for d in dep_names(r.suite, c)))


def is_parallel(argv):
    return any(a.startswith("-p") or a == "--parallel-count" for a in argv)


def workers(argv, cpus=8):
    for i, a in enumerate(argv):
        if a == "-p":
            return cpus
        if a == "--parallel-count":
            return int(argv[i + 1])
        if a.startswith("-p"):
            return int(a[2:])
    return 1


def is_run(argv):
    return not any(a in ("-w", "--review", "--forget", "-l", "--garbage", "--clean", "--config", "--print", "--path",
                         "--view", "--setup") for a in argv)


def v(cls, detail, **kw):
    d = {"class": cls, "detail": detail}
    d.update(kw)
    return d


def tail(r, n=700):
    return (r.stdout.decode("utf-8", "replace")[-n:] + " | " + r.stderr.decode("utf-8", "replace")[-n:])


def diff_trees(a, b, pred=lambda k: True):
    out = []
    for k in sorted(set(a) | set(b)):
        if pred(k) and (k not in a or k not in b or a[k] != b[k]):
            out.append(("+" if k not in a else "-" if k not in b else "~") + k)
    return out


def result_of(r, x):
    """The verdict execution x of invocation r must get: its own output against the expectation it found, or OK when its
    output was accepted in this invocation."""
    steps = r.spec.get(x.case, [])
    if not storable(steps):
        return FAIL
    w = verdict(steps, x, expect(r.before, x.case))
    if w == DIFF and x.how == "return" and expect(r.after, x.case) == out_text(steps, x):
        return OK
    return w


def argv_of(r):
    return r.item["calls"][0]["argv"]


def faulted_run(r):
    return any(e[4] == "fault" for e in r.events)
