"""The simulated network: a scripted server behind the real requests and httpx client code."""
import contextlib, io, json, time, asyncio, threading
from . import guest, simrt

# behaviour of the server, from the process configuration:
# cfg["net"] = {"METHOD url": [answer, answer, ...]}  the n-th request gets answer n (last one repeats)
# answer = {"status":200,"headers":{...},"body":"text" | "bodyhex":"..","lat":0.01,"fail":"connect"|"timeout"|"read"}
COUNT = {}


def answer_for(method, url, headers, body):
    cfg = simrt.CFG.get("net", {})
    key = f"{method} {url}"
    answers = cfg.get(key)
    n = COUNT.get(key, 0)
    COUNT[key] = n + 1
    k = guest.K
    k.shm[guest.KIDX["net"]] += 1
    k.progress()
    b = body
    if b is not None and not isinstance(b, (str, bytes)):
        b = b"".join(b)
    if isinstance(b, str):
        b = b.encode()
    simrt.log("net", method, url, n, {k_.lower(): v for k_, v in headers.items()}, (b or b"").decode("latin1"))
    if not answers:
        return {"status": 404, "headers": {"content-type": "text/plain"}, "body": "no such page", "lat": 0.001}
    a = dict(answers[min(n, len(answers) - 1)])
    if a.get("unless") and a["unless"][1] in (headers.get(a["unless"][0]) or "").lower():
        a = dict(a["else"])
    if a.get("stamp"):                       # every answer is different
        a["headers"] = dict(a.get("headers", {}))
        a["headers"]["X-Sim"] = f"{a['stamp']}.{n}"
        a["body"] = a.get("body", "") + f" #{a['stamp']}.{n}"
    return a


def body_of(a):
    if "bodyhex" in a:
        return bytes.fromhex(a["bodyhex"])
    return a.get("body", "").encode("utf-8")


# ---- requests -------------------------------------------------------------------------------------------------
def install():
    import requests, requests.adapters, urllib3, httpx
    from urllib3._collections import HTTPHeaderDict

    def send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
        k = guest.K
        if k is None or not k.active:
            raise RuntimeError("no network")
        a = answer_for(request.method, request.url, request.headers, request.body)
        simrt.log("netopts", request.url, timeout if not isinstance(timeout, tuple) else list(timeout), verify,
                  bool(stream))
        k.yield_()
        lat = a.get("lat", 0.001)
        limit = timeout[1] if isinstance(timeout, (tuple, list)) else timeout
        if a.get("fail") == "connect":
            time.sleep(lat)
            raise requests.exceptions.ConnectionError("simulated connection error", request=request)
        if a.get("fail") == "timeout" or (limit is not None and lat > limit):
            time.sleep(limit if limit is not None else lat)
            raise requests.exceptions.ReadTimeout("simulated timeout", request=request)
        time.sleep(lat)
        data = body_of(a)
        headers = HTTPHeaderDict(a.get("headers", {}))
        for c in a.get("cookies", ()):
            headers.add("Set-Cookie", c)
        raw = urllib3.HTTPResponse(body=_Broken(data) if a.get("fail") == "read" else io.BytesIO(data),
                                   headers=headers, status=a.get("status", 200), original_response=_Original(headers),
                                   preload_content=False, decode_content=False, reason=a.get("reason"))
        return self.build_response(request, raw)

    requests.adapters.HTTPAdapter.send = send

    class Sync(httpx.SyncByteStream):
        def __init__(self, a):
            self.a = a

        def __iter__(self):
            data = body_of(self.a)
            half = len(data) // 2
            if half:
                yield data[:half]
            time.sleep(self.a.get("blat", 0))
            if self.a.get("fail") == "read":
                raise httpx.ReadError("simulated read error")
            yield data[half:]

        def close(self):
            pass

    class Async(httpx.AsyncByteStream):
        def __init__(self, a):
            self.a = a

        async def __aiter__(self):
            data = body_of(self.a)
            half = len(data) // 2
            if half:
                yield data[:half]
            await asyncio.sleep(self.a.get("blat", 0))
            if self.a.get("fail") == "read":
                raise httpx.ReadError("simulated read error")
            yield data[half:]

        async def aclose(self):
            pass

    def limit_of(request):
        return (request.extensions.get("timeout") or {}).get("read")

    def headers_of(a):
        return [(k.encode(), v.encode()) for k, v in a.get("headers", {}).items()] + [(b"Set-Cookie", c.encode()) for c in a.get("cookies", ())]

    def handle_request(self, request):
        k = guest.K
        if k is None or not k.active:
            raise RuntimeError("no network")
        a = answer_for(request.method, str(request.url), request.headers, request.read())
        k.yield_()
        lat, limit = a.get("lat", 0.001), limit_of(request)
        if a.get("fail") == "connect":
            time.sleep(lat)
            raise httpx.ConnectError("simulated connection error", request=request)
        if a.get("fail") == "timeout" or (limit is not None and lat > limit):
            time.sleep(limit if limit is not None else lat)
            raise httpx.ReadTimeout("simulated timeout", request=request)
        time.sleep(lat)
        return httpx.Response(a.get("status", 200), headers=headers_of(a), stream=Sync(a), extensions={})

    async def handle_async_request(self, request):
        k = guest.K
        if k is None or not k.active:
            raise RuntimeError("no network")
        a = answer_for(request.method, str(request.url), request.headers, await request.aread())
        lat, limit = a.get("lat", 0.001), limit_of(request)
        if a.get("fail") == "connect":
            await asyncio.sleep(lat)
            raise httpx.ConnectError("simulated connection error", request=request)
        if a.get("fail") == "timeout" or (limit is not None and lat > limit):
            await asyncio.sleep(limit if limit is not None else lat)
            raise httpx.ReadTimeout("simulated timeout", request=request)
        await asyncio.sleep(lat)
        return httpx.Response(a.get("status", 200), headers=headers_of(a), stream=Async(a), extensions={})

    httpx.HTTPTransport.handle_request = handle_request
    httpx.AsyncHTTPTransport.handle_async_request = handle_async_request

    import ssl
    import httpx._transports.default as d
    import httpx._config as c
    ctx = ssl.create_default_context()
    for m in (d, c):
        if hasattr(m, "create_ssl_context"):
            m.create_ssl_context = lambda *a, **kw: ctx


class _Original:
    """What http.client gives to urllib3; requests reads the cookies there"""
    def __init__(self, headers):
        import http.client
        self.msg = http.client.HTTPMessage()
        for k, v in headers.iteritems():
            self.msg.add_header(k, v)

    def isclosed(self):
        return True

    def close(self):
        pass


class _Broken(io.BytesIO):
    def __init__(self, data):
        super().__init__(data)

    def read(self, *a):
        from urllib3.exceptions import ProtocolError
        raise ProtocolError("simulated broken body")


SESSIONS = {}


def global_session():
    """A session that lives as long as the process."""
    if "global" not in SESSIONS:
        import requests
        SESSIONS["global"] = requests.Session()
    return SESSIONS["global"]


def mounted_adapter():
    import requests.adapters

    class Mounted(requests.adapters.HTTPAdapter):
        def send(self, request, **kw):
            simrt.log("mounted", request.url)
            return super().send(request, **kw)
    return Mounted()


def clients_state():
    return all("get_adapter" not in vars(s) and "send" not in vars(s) for s in SESSIONS.values())


def jar_of(cookies):
    return sorted([x.name, x.value, x.path] for x in getattr(cookies, "jar", cookies))


def client_of(c, s, make):
    """(client, whether it ends with the request)"""
    if not s.get("session"):
        return make(), True
    key = (c.case, c.execno, s["session"], make.__name__)
    if key not in SESSIONS:
        SESSIONS[key] = make()
    return SESSIONS[key], False


def observe(c, lib, method, url, r, s, got=None, ses=None):
    """Everything a test can see of a response."""
    body = r.content if got is None else got
    o = {"reason": getattr(r, "reason", None) or getattr(r, "reason_phrase", None), "status": r.status_code, "body": body.hex(), "ct": r.headers.get("content-type"),
         "CT": r.headers.get("Content-Type"), "xh": r.headers.get("X-Sim"), "text": None, "json": None,
         "hist": len(r.history), "loc": r.headers.get("Location")}
    o["cookies"] = jar_of(r.cookies)
    if s.get("jar") and ses is not None:
        o["jar"] = jar_of(ses.cookies)
    try:
        o["text"] = r.text if got is None else None
    except Exception as e:
        o["text"] = "!" + type(e).__name__
    try:
        o["json"] = r.json() if got is None else None
    except Exception as e:
        o["json"] = "!"
    if lib == "requests":
        o["ok"] = r.ok
        try:
            r.raise_for_status()
            o["rfs"] = None
        except Exception as e:
            o["rfs"] = type(e).__name__
        o["url"] = r.url
        o["enc"] = r.encoding
        o["hdrs"] = sorted((k.lower(), v) for k, v in r.headers.items())
    else:
        o["ok"] = r.is_success
        o["url"] = str(r.url)
        o["hdrs"] = sorted((k.lower(), v) for k, v in r.headers.multi_items() if k.lower() != "content-encoding")
    simrt.log("obs", c.case, "resp", s.get("id"), lib, method, url, o)
    if s.get("print"):
        c.t.tln(f"{method} {url} {r.status_code} {body[:30]!r}")


def fail_obs(c, lib, method, url, e, s):
    simrt.log("obs", c.case, "err", s.get("id"), lib, method, url, type(e).__name__, str(e)[:80])


def body_kw(s, raw):
    b, kind = s["body"], s.get("bodykind")
    if kind == "json":
        return {"json": {"v": [b]}}
    if kind == "form":
        return {"data": {"v": b, "w": "1"}}
    if kind == "bytes":
        return {raw: b.encode()}
    if kind == "file":
        return {raw: io.BytesIO(b.encode())}
    if kind == "gen":
        return {raw: iter([b[:2].encode(), b[2:].encode()])}
    return {raw: b}


def client_step(c, st):
    """["get", {"lib":"requests"|"httpx","method":..,"url":..,"headers":..,"body":..,"retries":n,"swallow":bool,...}]"""
    s = st[1]
    method, url = s.get("method", "GET"), s["url"]
    tries = s.get("retries", 0) + 1
    for i in range(tries):
        try:
            if s["lib"] == "requests":
                import requests
                kw = {}
                if s.get("headers"):
                    kw["headers"] = s["headers"]
                if s.get("body") is not None:
                    kw.update(body_kw(s, "data"))
                if s.get("timeout") is not None:
                    kw["timeout"] = s["timeout"]
                if s.get("noredir"):
                    kw["allow_redirects"] = False
                if s.get("verify") is not None:
                    kw["verify"] = s["verify"]
                if s.get("stream"):
                    kw["stream"] = True
                if s.get("auth"):
                    kw["auth"] = requests.auth.HTTPDigestAuth("me", "word") if s["auth"] == "digest" else ("me", "word")
                ses = requests
                if s.get("session") == "global":
                    ses = global_session()
                elif s.get("session"):
                    ses = SESSIONS.get((c.case, c.execno, s["session"]))
                    if ses is None:
                        ses = SESSIONS[(c.case, c.execno, s["session"])] = requests.Session()
                        if s["session"] == "mounted":
                            ses.mount("http://", mounted_adapter())
                r = ses.request(method, url, **kw)
                got = None
                if s.get("stream") == "iter":
                    got = b"".join(r.iter_content(7))
                elif s.get("stream") == "with":
                    with r:
                        got = b"".join(r.iter_content(7))
            else:
                import httpx
                got = None
                kw = {}
                if s.get("headers"):
                    kw["headers"] = s["headers"]
                if s.get("body") is not None:
                    kw.update(body_kw(s, "content"))
                opts = {"timeout": s.get("timeout", 5), "follow_redirects": not s.get("noredir")}
                if s.get("auth"):
                    opts["auth"] = httpx.DigestAuth("me", "word") if s["auth"] == "digest" else ("me", "word")

                def Client():
                    return httpx.Client(verify=False, trust_env=False)
                ses, once = client_of(c, s, Client)
                with ses if once else contextlib.nullcontext():
                    cl = ses
                    kw.update(opts)
                    if s.get("stream"):
                        with cl.stream(method, url, **kw) as r:
                            if s["stream"] == "none":
                                simrt.log("obs", c.case, "unread", s.get("id"), r.status_code)
                                return
                            got = b"".join(r.iter_bytes(5))
                    else:
                        r = cl.request(method, url, **kw)
            observe(c, s["lib"], method, url, r, s, got, ses)
            return
        except Exception as e:
            fail_obs(c, s["lib"], method, url, e, s)
            if i + 1 == tries:
                if s.get("swallow"):
                    return
                raise


async def aclient_step(c, st):
    import httpx
    s = st[1]
    method, url = s.get("method", "GET"), s["url"]
    tries = s.get("retries", 0) + 1
    for i in range(tries):
        sent = False
        try:
            got = None
            kw = {}
            if s.get("headers"):
                kw["headers"] = s["headers"]
            if s.get("body") is not None:
                kw.update(body_kw(s, "content"))
            if s.get("pre"):
                await asyncio.sleep(s["pre"])
            def AsyncClient():
                return httpx.AsyncClient(verify=False, trust_env=False)
            cl, once = client_of(c, s, AsyncClient)
            kw.update(timeout=s.get("timeout", 5), follow_redirects=not s.get("noredir"))
            if s.get("auth"):
                kw["auth"] = httpx.DigestAuth("me", "word") if s["auth"] == "digest" else ("me", "word")
            async with cl if once else contextlib.nullcontext():
                if s.get("abody"):
                    async def chunks():
                        yield kw_body[:3]
                        yield kw_body[3:]
                    kw_body = (s.get("body") or "").encode()
                    kw["content"] = chunks()
                sent = True
                if s.get("stream"):
                    async with cl.stream(method, url, **kw) as r:
                        if s["stream"] == "none":
                            simrt.log("obs", c.case, "unread", s.get("id"), r.status_code)
                            return
                        got = b""
                        async for part in r.aiter_bytes(5):
                            got += part
                else:
                    r = await cl.request(method, url, **kw)
            observe(c, "httpx", method, url, r, s, got, cl)
            return
        except asyncio.CancelledError as e:
            if sent:
                fail_obs(c, "httpx", method, url, e, s)
            raise
        except Exception as e:
            fail_obs(c, "httpx", method, url, e, s)
            if i + 1 == tries:
                if s.get("swallow"):
                    return
                raise
