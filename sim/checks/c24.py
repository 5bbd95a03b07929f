"""C24: settings are what was asked for, also when the set-up is interrupted."""
import copy, re
from sim import gen, oracle as o

COUNT = {"quick": 90, "thorough": 3000}
NONTRIVIAL = "the set-up asked at least one question, and a later command used the settings"
KEYS = ["diff_tool", "fast_diff_tool", "md_viewer", "log_viewer", "test_paths", "default_tests", "books_path"]
TOOLS = KEYS[:4]
OTHERS = ["verbose", "point_error_pos", "fail_fast", "my_setting", "context"]
VALUES = ["show", "view -a", "less -R", "a=b", "ü viewer 漢", "vim 'x y'", "x" * 300, "#no comment", "$HOME/bin/x", "q\"q", "tool # 2", "p|q", "--preview"]
FLAGS = {"-i": "interactive", "-I": "always_interactive", "-v": "verbose", "-L": "print_logs", "-f": "fail_fast", "-c": "continue",
         "-r": "refresh_sources", "-u": "update", "-a": "accept", "-s": "complete_snapshots", "-S": "refresh_snapshots"}
LINE = re.compile(r"^([a-z_]+)=(.*)$")
ASK = re.compile(r"^specify ([a-z_]+) \(default '(.*)'\):$", re.S)


def value(rng, key, paths):
    if key == "test_paths":
        return rng.choice(["simbook", "simbook", "simbook,none", "none,simbook"])
    if key == "default_tests":
        return rng.choice(["simbook"] + paths)
    if key == "books_path":
        return rng.choice(["books", "books", "books2", "deep/books", "my books"])
    return rng.choice(VALUES)


def settings(rng, paths, p, keys):
    lines = []
    for k in rng.sample(keys, len(keys)):
        if rng.random() < p:
            lines.append(f"{k}={value(rng, k, paths) if k in KEYS else rng.choice(['1', '0', 'some value', '12'])}")
        if rng.random() < 0.15:
            lines.append(rng.choice(["# a comment", "", "#md_viewer=commented", "   "]))
    return "".join(l + "\n" for l in lines)


def scenarios(rng, run, tier, i):
    S = gen.suite(rng, rng.choice([1, 2, 3]), mods=rng.choice([1, 2]), p_dep=0, p_setup=0.1)
    ns = gen.names(S)
    paths = sorted({n.rsplit("/", 1)[0] for n in ns} | set(ns))
    spec = gen.spec(rng, S)
    files = {".booktest": None}
    z = rng.random()
    if z < 0.75:
        text = settings(rng, paths, rng.choice([0.3, 0.7, 1]), KEYS + OTHERS[:2] + OTHERS[3:])
        if "test_paths=" not in text:
            text += "test_paths=simbook\n"
        files[".booktest"] = text if rng.random() < 0.8 else text.rstrip("\n")
    if rng.random() < 0.5 or files[".booktest"] is None:
        text = settings(rng, paths, rng.choice([0.2, 0.6]), KEYS + OTHERS)
        files["home/.booktest"] = text + ("test_paths=simbook\n" if "test_paths=" not in text else "")
    env = {}
    for k in KEYS + OTHERS[3:]:
        if rng.random() < 0.07:
            env["BOOKTEST_" + k.upper()] = value(rng, k, paths) if k in KEYS else "from env"
    for k in KEYS + OTHERS[3:]:
        if rng.random() < 0.05:                  # of other tools
            env[rng.choice(["OTHERAPP_", "MYBOOKTEST_", "BOOKTESTS", "XBOOKTEST_", "booktest_"]) + k.upper()] = "not for booktest"
    items = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        if rng.random() < 0.35:
            items.append(command(rng))
        it = gen.item(["--setup"], rng)
        p = rng.choice([0, 0.3, 0.6, 1])
        answers = ["" if rng.random() > p else value(rng, k, paths) if k not in TOOLS or rng.random() < 0.96 else rng.choice(["not \udcff encodable", "nul \x00"]) for k in KEYS]
        z = rng.random()
        if z < 0.12:
            answers = answers[:rng.randrange(len(KEYS))]
        elif z < 0.3:
            answers[rng.randrange(len(KEYS))] = "^C"
        it["answers"] = answers
        items.append(it)
        for _ in range(rng.choice([0, 1, 1])):
            items.append(command(rng))
    items.append(gen.item(["--config"], rng))
    for it in items:
        it["env"] = dict(env)
        if rng.random() < 0.1:
            it["env"]["BOOKTEST_MD_VIEWER"] = rng.choice(VALUES)
    sc = {"suite": S, "spec": spec, "worlds": [{"items": items, "files": files}]}
    yield sc
    at = [k for k, it in enumerate(items) if it["calls"][0]["argv"] == ["--setup"] and len(it["answers"]) == len(KEYS) and "^C" not in it["answers"]]
    if not at:
        return
    k = rng.choice(at)
    probe = copy.deepcopy(sc)
    probe["worlds"][0]["items"] = probe["worlds"][0]["items"][:k + 1]
    probe["worlds"][0]["items"][k]["oplog"] = True
    r = run(probe)[0][k]
    hot = [e[5] + d for e in o.evs(r, "op") if e[7] and ".booktest" in e[7] for d in (0, 1)] or [1]
    for j in range(4):
        s = copy.deepcopy(sc)
        it = s["worlds"][0]["items"][k]
        if j < 2:
            it["stops"] = [{"at": rng.choice(hot), "kind": rng.choice(["kill", "torn", "torn", "sigint"]), "frac": gen.frac(rng)}]
        else:
            it["rules"] = [{"kinds": [rng.choice(["open_w", "write", "write", "rename", "open_r", "read"])], "glob": "*.booktest*", "nth": rng.choice([1, 1, 2, 3]),
                            "persist": rng.random() < 0.5, "err": rng.choice(["ENOSPC", "EIO", "EACCES", "SHORT"]), "frac": gen.frac(rng)}]
            if it["rules"][0]["err"] == "SHORT":
                it["rules"][0]["kinds"] = ["write"]
        yield s


def command(rng):
    if rng.random() < 0.25:
        flags = rng.sample(sorted(FLAGS), rng.choice([1, 2, 3]))
        more = rng.choice([[], ["-md-viewer", "other viewer"], ["-diff-tool", "other diff"]])
        return gen.item(rng.choice([["--config"] + flags + more, ["--config"] + flags + more, ["--view", "-md-viewer", "other viewer"]]), rng)
    return gen.item(rng.choice([["--config"], ["--config"], [], ["-a"], ["-l"], ["--view"], ["--path"], ["-p2", "-a"], ["--garbage"]]), rng)


def parse(text):
    """settings of one file, in the words of the file"""
    rv = {}
    for l in (text or "").split("\n"):
        if l.startswith("#") or not l.strip():
            continue
        k, _, v = l.strip().partition("=")
        rv[k] = {"1": "True", "0": "False"}.get(v, v)
    return rv


def effective(tree, env):
    rv = parse(o.text(tree, "home/.booktest"))
    rv.update(parse(o.text(tree, ".booktest")))
    for k, v in env.items():
        if k.startswith("BOOKTEST_"):
            rv[k[9:].lower()] = {"1": "True", "0": "False"}.get(v, v)
    return rv


def judge(sc, results):
    out = []
    for n, r in enumerate(results[0]):
        argv = o.argv_of(r)
        where = f"item {n} {argv} stop {r.stopinfo} faults {o.evs(r, 'fault')}"
        if r.ended in ("hang", "spin"):
            return [o.v("hang", f"{where}: {r.hang}; {o.tail(r)}")]
        old, new = r.before.get(".booktest"), r.after.get(".booktest")
        env = r.item.get("env") or {}
        conf = effective(r.before, env)
        hit = bool(r.stopinfo) or o.faulted_run(r)
        if r.before.get("home/.booktest") != r.after.get("home/.booktest"):
            out.append(o.v("home-changed", f"{where}: the settings in the home directory changed to {o.text(r.after, 'home/.booktest')!r}"))
        if argv != ["--setup"]:
            if old != new:
                out.append(o.v("settings-changed", f"{where}: .booktest was {old!r}, is {new!r}"))
            if not hit:
                out += used(r, argv, conf, where)
            if out:
                break
            continue
        before = parse(o.text(r.before, ".booktest"))
        after = parse(o.text(r.after, ".booktest"))
        want = dict(before)
        asked = []
        for e in o.evs(r, "input"):
            m = ASK.match(e[5])
            if not m:
                out.append(o.v("odd-question", f"{where}: asked {e[5]!r}"))
                continue
            k, proposed = m.groups()
            asked.append(k)
            if k in conf and not hit and proposed != conf[k]:
                out.append(o.v("wrong-proposal", f"{where}: {k} is {conf[k]!r}, the set-up proposes {proposed!r}"))
            want[k] = e[6] or proposed
        s = o.call_status(r)
        done = s == ("status", 0)
        if done and not hit:
            if sorted(asked) != sorted(KEYS):
                out.append(o.v("questions", f"{where}: asked for {asked}"))
            # what can be read back
            flat = {k: {"1": "True", "0": "False"}.get(v.strip(), v.rstrip()) for k, v in want.items()}
            if after != flat:
                bad = {k: (flat.get(k), after.get(k)) for k in set(flat) | set(after) if flat.get(k) != after.get(k)}
                out.append(o.v("not-stored", f"{where}: completed, but (wanted, stored) {bad}"))
        elif not hit:
            if new != old:
                out.append(o.v("damaged", f"{where}: not completed ({s}), .booktest was {old!r}, is {new!r}"))
            plain = all(e[6] is not None and e[6] != "^C" and encodable(e[6]) for e in o.evs(r, "input"))
            if plain:
                out.append(o.v("set-up-failed", f"{where}: answered, but ended with {s}; {o.tail(r)}"))
        else:
            whole = sorted(asked) == sorted(KEYS) and after == {k: v.rstrip() for k, v in want.items()}
            if new != old and not whole:
                out.append(o.v("damaged", f"{where}: .booktest was {old!r}, is {new!r}"))
            if done and not whole and not (new == old and r.stopinfo and r.ended != "exit"):
                out.append(o.v("not-stored", f"{where}: told done, but .booktest was {old!r}, is {new!r}"))
        if out:
            break
    return out


def encodable(s):
    try:
        return bool(s.encode("utf-8")) or True
    except UnicodeEncodeError:
        return False


def used(r, argv, conf, where):
    out = []
    bp = conf.get("books_path", "books")
    conf = dict(conf, **{FLAGS[a]: "True" for a in argv if a in FLAGS})
    for a, b in zip(argv, argv[1:]):
        if a in ("-md-viewer", "-diff-tool"):
            conf[a[1:].replace("-", "_")] = b
    if argv[0:1] == ["--config"]:
        got = {}
        for l in r.stdout.decode("utf-8", "replace").split("\n"):
            m = LINE.match(l)
            if m:
                got[m.group(1)] = m.group(2)
        if got != conf or o.call_status(r) != ("status", 0):
            bad = {k: (conf.get(k), got.get(k)) for k in set(conf) | set(got) if conf.get(k) != got.get(k)}
            out.append(o.v("wrong-settings", f"{where}: (set, told) {bad}"))
    elif argv == ["--path"]:
        for l in r.stdout.decode("utf-8", "replace").split("\n"):
            if l and not l.startswith(bp + "/"):
                out.append(o.v("wrong-books", f"{where}: books_path is {bp!r}, told {l!r}"))
    elif o.is_run(argv):
        for f, d in r.after.items():
            if r.before.get(f) != d and f not in (".booktest",) and not f.startswith((bp + "/", "home/")):
                out.append(o.v("wrong-books", f"{where}: books_path is {bp!r}, the run wrote {f}"))
        started = sorted(e[5] for e in o.evs(r, "start"))
        sel = sorted(o.selected(dict(r.suite, config={}), argv + conf.get("default_tests", "test,book").split(","), r.before))
        fast = conf.get("fail_fast", "False") != "False"
        if started != sel and not (fast and set(started) < set(sel)):
            out.append(o.v("wrong-tests", f"{where}: default_tests is {conf.get('default_tests')!r}, started {started}, not {sel}"))
    elif argv[0:1] == ["--view"]:
        ran = [e[5] for e in o.evs(r, "tool")]
        for a in ran:
            if a[:1] != (conf.get("md_viewer") or "").split()[:1] and re.match(r"^[a-z ]+$", conf.get("md_viewer") or ""):
                out.append(o.v("wrong-viewer", f"{where}: md_viewer is {conf.get('md_viewer')!r}, ran {a}"))
    return out


def nontrivial(sc, results):
    asked = False
    for r in results[0]:
        if asked and o.argv_of(r) != ["--setup"]:
            return True
        asked = asked or bool(o.evs(r, "input"))
    return False


def probes(sc, results):
    out = []
    for r in results[0]:
        if o.argv_of(r) == ["--setup"]:
            s = o.call_status(r)
            hit = "stopped" if r.stopinfo else "fault" if o.evs(r, "fault") else "undisturbed"
            out.append(f"set-up {hit}: {s}, settings {'kept' if r.before.get('.booktest') == r.after.get('.booktest') else 'written'}")
            for e in o.evs(r, "input"):
                out.append("answer " + ("none" if e[6] is None else "empty" if e[6] == "" else "^C" if e[6] == "^C" else "value"))
    return out
