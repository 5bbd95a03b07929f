"""The model of accepting: what the expectation file and the snapshot folder of every case may look like after an
invocation, derived from the executions, answers and flags that were observed, never from the code's own files."""
import re
from . import oracle as o, project

PROMPT = re.compile(r"^\s*(?:test )?(\S.*?)(?:\.\.| ok in | DIFFERED in | FAILED in )", re.M)


class State:
    """Allowed contents: md is a set of texts (None = no file), dirs is a list of {relative file: bytes} (None = no folder)."""
    def __init__(self, md, d):
        self.md, self.dir = md, d

    def __eq__(self, other):
        return (self.md, self.dir) == (other.md, other.dir)

    def __repr__(self):
        return f"md={self.md!r} dir={self.dir and sorted(self.dir)}"


def folder(tree, prefix):
    """{relative path: bytes} of a folder, None when there is none"""
    pre = prefix + "/"
    if not any(k == pre or k.startswith(pre) for k in tree):
        return None
    return {k[len(pre):]: v for k, v in tree.items() if k.startswith(pre) and v is not None and k != pre}


def state(tree, case, books="books"):
    return State(o.text(tree, f"{books}/{case}.md"), folder(tree, f"{books}/{case}"))


def written(steps):
    """The snapshot files a body writes; None when it makes no folder."""
    out = {}
    for s in steps:
        if s[0] == "file":
            out[s[1]] = s[2].encode()
        elif s[0] == "raise":
            break
    return out or None


def prompts(r):
    """[(seq, case or None, answer)] of all prompts: the case is the one whose line was printed last"""
    names = set(n for n, *_ in project.case_names(r.suite))
    out = []
    for e in o.evs(r, "input"):
        before = r.stdout[:e[7]].decode("utf-8", "replace") if len(e) > 7 else ""
        best, at = None, -1
        for n in names:
            for mark in (f"  {n}..", f"{n} ok in ", f"{n} DIFFERED in ", f"{n} FAILED in "):
                i = before.rfind(mark)
                if i >= 0 and (i > 0 and before[i - 1] in " \n" or i == 0 or mark.startswith(" ")) and i > at:
                    best, at = n, i
        out.append((e[0], best, e[6]))
    return out


def call_spans(r):
    """[(call index, argv, first seq, last seq)]"""
    begin, out = {}, []
    for e in r.events:
        if e[4] == "call_begin":
            begin[e[5]] = e[0]
    ends = {e[5]: e[0] for e in r.events if e[4] == "call_end"}
    for i, c in enumerate(r.item["calls"]):
        if i in begin:
            out.append((i, c["argv"], begin[i], ends.get(i, 1 << 60)))
    return out


class Outcome:
    """What became of a case: the state before, the state after acceptance (None when it was not to be accepted), why."""
    def __init__(self, old):
        self.old, self.new, self.why, self.sure = old, None, None, True


def judge_invocation(r, ledger):
    """Returns {case: Outcome} for the invocation; ledger: case -> (text, files, finished) of its latest execution."""
    cases = [n for n, *_ in project.case_names(r.suite)]
    cur = {c: Outcome(state(r.before, c)) for c in cases}
    now = {c: cur[c].old for c in cases}
    ps = prompts(r)
    ex = o.execs(r)

    def accept(c, st, why, sure=True):
        cur[c].new, cur[c].why = st, why
        cur[c].sure = cur[c].sure and sure
        now[c] = st
    for i, argv, a, b in call_spans(r):
        if o.is_run(argv):
            for x in sorted((x for x in ex if a < x.seq0 < b), key=lambda x: x.seq1 or 1 << 60):
                steps = r.spec.get(x.case, [])
                text = o.out_text(steps, x) if x.done else None
                ledger[x.case] = (text, written(steps), x.how == "return", x)
                if not x.done:
                    continue
                v = o.verdict(steps, x, now[x.case].md) if o.storable(steps) else o.FAIL
                if v == o.FAIL:
                    continue
                st = State(text, written(steps))
                mine = [p for p in ps if p[1] == x.case and x.seq1 < p[0] < b]
                if any(p[2] == "a" for p in mine):
                    accept(x.case, st, "answered accept")
                elif v == o.DIFF and "-a" in argv:
                    accept(x.case, st, "-a")
                elif v == o.OK and "-u" in argv:
                    accept(x.case, st, "-u")
        elif "-w" in argv or "--review" in argv:
            sel = o.selected(r.suite, argv, r.before)
            passed = [n for n, v, d in o.records(r.before) if v == "OK"]
            abort = False
            for n, v, d in o.records(r.before):
                if n is None or n not in sel or n not in cur or abort or ("-c" in argv and n in passed):
                    continue
                mine = [p for p in ps if p[1] == n and a < p[0] < b]
                text = o.output(r.before, n)
                ok = v
                st = State(text, folder(r.before, "books/.out/" + n))
                if v != o.FAIL and (any(p[2] == "a" for p in mine) or v == o.DIFF and "-a" in argv or v == o.OK and "-u" in argv):
                    ok = o.OK
                    if text is not None:
                        accept(n, st, f"review of {v}")
                if any(p[2] == "q" for p in mine) or ("-f" in argv and ok != o.OK):
                    abort = True
    return cur


def dir_ok(got, old, new, accepted):
    """The snapshot folder: old, new or nothing, or old partly removed; never mixed, never cut."""
    if got == old:
        return True
    if not accepted:
        return False
    if got is None or got == new or got == {} and not new:
        return True
    return all(old is not None and old.get(k) == v for k, v in got.items())
