"""C13: stored snapshots never contain what was asked to be hidden."""
import base64, json, copy
from urllib.parse import quote
from sim import gen, http, oracle as o, project

COUNT = {"quick": 240, "thorough": 8000}
NONTRIVIAL = "requests with secrets were made"
MARK = "s3cr3tv"


def forms(s):
    """The ways a text may be written."""
    b = s.encode()
    out = {b, s.encode("utf-16-le"), b.hex().encode(), quote(s).encode(), b[::-1]}
    for pad in (0, 1, 2):                # only the characters that the text determines alone
        cut = slice((0, 2, 3)[pad], (pad + len(b)) * 8 // 6)
        out.add(base64.b64encode(b"\0" * pad + b)[cut])
        out.add(base64.urlsafe_b64encode(b"\0" * pad + b)[cut])
    return out


def marks():
    out = {MARK, MARK.encode().hex()}
    for pad in (0, 1, 2):
        out.add(base64.b64encode(b"\0" * pad + MARK.encode()).decode()[(0, 2, 3)[pad]:(pad + len(MARK)) * 8 // 6])
    return sorted(out)


OPTS = [{}, {}, {}, {"ignore_headers": ["X-TOK", "authorization", "Cookie"]}, {"ignore_headers": ["x-tok"]}, {"ignore_headers": False},
        {"lose_request_details": False}, {"lose_request_details": False, "ignore_headers": ["x-TOK", "AUTHORIZATION"]},
        {"lose_request_details": False, "ignore_headers": ["X-Tok"]}, {"lose_request_details": False, "ignore_headers": False}]
NAMES = ["X-Tok", "x-tok", "Authorization", "Cookie", "X-Other"]


def hidden(opts, name):
    ign = opts.get("ignore_headers", True)
    return opts.get("lose_request_details", True) or ign is True or bool(ign) and name.lower() in [h.lower() for h in ign]


def secrets(rng, steps, tag):
    """Gives the requests of a body secret headers and bodies; the same request keeps its secrets."""
    known = {}
    for s in http.flat(steps):
        kk = http.key_of(s) + json.dumps(s.get("headers"))
        if kk not in known:
            n = f"{tag}x{len(known)}"
            hs = {rng.choice(NAMES): f"{MARK}{n}h{i}q" for i in range(rng.choice([0, 1, 1, 2]))}
            b = None
            if s.get("method") in ("POST", "PUT", "PATCH") and (s.get("body") is not None or rng.random() < 0.5):
                b = f"{MARK}{n}bq" + rng.choice(["", " and more", "ü"])
            known[kk] = (hs, b, rng.choice([None, None, "json", "form", "bytes", "file", "gen"]))
        hs, b, kind = known[kk]
        s.pop("headers", None)
        s.pop("body", None)
        s.pop("bodykind", None)
        if hs:
            s["headers"] = dict(hs)
        if b is not None:
            s["body"] = b
            if kind:
                s["bodykind"] = kind
                s.pop("abody", None)
        else:
            s.pop("abody", None)
        if rng.random() < 0.5:
            s["swallow"] = 1
        s["retries"] = min(s.get("retries", 0), 2)


def scenarios(rng, run, tier, i):
    S = gen.suite(rng, rng.choice([1, 2]), mods=1, p_dep=0, p_res=0, p_setup=0.1, p_inst=0.1, p_async=0.3)
    spec = {}
    for n, (c, it, *_) in enumerate(project.case_names(S)):
        lib = rng.choice(["requests", "httpx"])
        if "dec" in it:
            lib = it["dec"][0][0]
        else:
            it["dec"] = [[lib, rng.choice(OPTS)]]
        steps = http.Gen(rng, lib).body(bool(it.get("async")) and lib == "httpx", kind=rng.choice(["ok"] * 6 + ["fail", "raise:value"]))
        steps = json.loads(json.dumps(steps))
        secrets(rng, steps, f"c{n}")
        spec[c] = steps
    items = []
    for n in range(rng.choice([1, 2, 3, 4])):
        argv = list(rng.choice([["-s", "-a", "-u"], ["-S", "-a", "-u"], ["-s"], ["-s", "-a", "-u", "-v"], [], ["-u"], ["-s", "-a", "-u", "-L"]])
                    if n else rng.choice([["-s", "-a", "-u"], ["-S", "-a", "-u"], ["-s", "-v"]]))
        it = gen.item(argv + (gen.pflag(rng) if rng.random() < 0.2 else []), rng)
        it["net"] = http.network(rng, f"i{n}")
        if n and rng.random() < 0.35:
            T = copy.deepcopy(items[-1].get("suite") or S)
            for c, x, *_ in project.case_names(T):
                x["dec"] = [[x["dec"][0][0], rng.choice(OPTS)]] if rng.random() < 0.8 else x["dec"]
            it["suite"] = T
        if n and rng.random() < 0.15:
            it["legacy"] = True
        if rng.random() < 0.2:
            it["stops"] = [{"at": rng.randint(1, 60), "kind": rng.choice(["kill", "torn", "sigint"]), "frac": gen.frac(rng)}]
        if rng.random() < 0.15:
            it["rules"] = [{"kinds": [rng.choice(["open_w", "write", "close", "mkdir"])], "glob": rng.choice(["*.json", "*/.out/*", "*.md"]),
                            "nth": rng.randint(1, 3), "err": rng.choice(["ENOSPC", "EIO"]), "frac": gen.frac(rng)}]
        items.append(it)
    http.calm(items)
    yield {"suite": S, "spec": spec, "watch": marks(), "worlds": [{"items": items}]}


def judge(sc, results):
    out = []
    for k, r in enumerate(results[0]):
        where = f"item {k} {o.argv_of(r)}"
        forbidden = {}                       # form -> what it is
        its = {c: it for c, it, *_ in project.case_names(r.suite)}
        for c, it in its.items():
            opts = it["dec"][0][1]
            for s in http.flat(r.spec.get(c, [])):
                for h, v in s.get("headers", {}).items():
                    if hidden(opts, h):
                        for f in forms(v):
                            forbidden[f] = f"header {h} of a request of {c}, options {opts}"
                if s.get("body") is not None and opts.get("lose_request_details", True):
                    v = s["body"].split()[0].split("q")[0] + "q"
                    for f in forms(v):
                        forbidden[f] = f"the body of a request of {c}, options {opts}"
        texts = [(p, b) for p, b in r.after.items() if b is not None and r.before.get(p) != b]
        texts += [(e[5], e[6].encode("utf8", "surrogateescape")) for e in o.evs(r, "written")]
        texts += [("the standard output", r.stdout), ("the standard error", r.stderr)]
        for p, b in texts:
            for f, what in forbidden.items():
                if f in b:
                    at = b.index(f)
                    out.append(o.v("secret-written", f"{where}: {p} contains {what}: ...{b[max(0, at - 120):at + 60]!r}"))
                    break
            if out:
                break
        for p, b in r.after.items():
            if b is None or r.before.get(p) == b or not p.endswith((".requests.json", ".httpx.json")) or out:
                continue
            c = "/".join(p.split("/")[2 if "/.out/" in p else 1:-1])
            try:
                j = json.loads(b)
            except ValueError:
                continue
            if c not in its:
                continue
            opts = its[c]["dec"][0][1]
            for e in j.values():
                q = e["request"]
                if opts.get("lose_request_details", True) and ("headers" in q or "body" in q):
                    out.append(o.v("details-stored", f"{where}: {p} contains {q}, options {opts}"))
                for h in q.get("headers", {}):
                    if hidden(opts, h):
                        out.append(o.v("header-stored", f"{where}: {p} contains {q}, options {opts}"))
        if out:
            break
    return out


def nontrivial(sc, results):
    return any(MARK in json.dumps(e[8]) or MARK in e[9] for r in results[0] for e in o.evs(r, "net"))


def probes(sc, results):
    out = []
    for r in results[0]:
        for e in o.evs(r, "net"):
            out.append("request with " + ("header and body" if MARK in json.dumps(e[8]) and MARK in e[9] else "header" if MARK in json.dumps(e[8])
                                          else "body" if MARK in e[9] else "no secret"))
        for e in o.evs(r, "written"):
            out.append("allowed details written")
        for e in o.evs(r, "obs"):
            if e[6] == "err":
                out.append(f"error {e[11]}")
    return out
