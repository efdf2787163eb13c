"""The real client against a simulated server with every kind of answer, under
virtual time."""
import asyncio
import json
import logging
import os
import random
import ssl
import types
import warnings

from . import vloop

logging.disable(logging.CRITICAL)
PARALLEL = 4
STATUSES = ["PENDING", "RUNNING", "STOPPING", "STOPPED", "FAILED"]
CODES = [200, 200, 200, 201, 400, 401, 401, 403, 404, 404, 405, 409, 409, 422, 422, 429, 500, 500, 502, 503]


def cases(tier, seed):
    rng = random.Random(seed)
    for k in ("auth", "tls", "addresses", "at_exit", "connector"):
        yield {"kind": k}
    n = {"quick": 2500, "deep": 8000, "thorough": 40000}[tier]
    for k in range(n):
        if k % 2:
            yield {
                "kind": "request",
                "op": rng.choice(["stop", "scale", "adapt", "submit", "report", "list", "versions", "wait", "wait"]),
                "answers": [[rng.choice(CODES), rng.choice(["an-error", "no-json", "other-json"])] for _ in range(2)],
                "ok": rng.choice([True, True, False]),
                "msg": rng.choice([None, "limited", ""]),
                "statuses": [rng.choice(["timeout", "PENDING", "PENDING", "STOPPING", "RUNNING", "STOPPED", "FAILED"]) for _ in range(6)] + ["RUNNING"],
            }
        else:
            yield {
                "kind": "cluster",
                "known": rng.random() < 0.5,
                "on_close": rng.choice([True, False, None]),
                "fate": [rng.choice(["PENDING", "PENDING", "timeout"]) for _ in range(rng.randrange(3))] + [rng.choice(["RUNNING", "RUNNING", "RUNNING", "FAILED", "STOPPED", 404, 500])],
                "submit": rng.choice(["ok", "ok", "ok", "ok", 422, 500, "slow"]),
                "rpc": rng.choice(["ok", "ok", "no-comm", "close-fails"]),
                "clients": rng.choice([[], ["ok"], ["fails", "ok"]]),
                "cancel": rng.choice([None, None, None, 0.01, 0.7, 1.3]),
                "way": rng.choice(["close", "exit", "shutdown", "close-true", "close-false", "twice", "close-while-starting"]),
                "delete": rng.choice([204, 204, 500, "error"]),
            }


def run(case):
    kind = case.get("kind")
    fn = {"request": request, "cluster": cluster, "auth": auth, "tls": tls, "addresses": addresses, "at_exit": at_exit, "connector": connector}.get(kind)
    if fn is None:
        return []
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            return vloop.run(fn, case, w)
        except vloop.Deadlock:
            return [("wait_for_start::waits-on-only-while-undecided", "the client waits for ever")]


class Resp:
    def __init__(self, status, body=None, text="plain"):
        self.status, self.body, self._text, self.headers, self.reason = status, body, text, {}, "Reason"
        self.ok = status < 400
        self.url = types.SimpleNamespace(host="gw")

    async def json(self, **k):
        if self.body is None:
            raise ValueError("not json")
        return json.loads(json.dumps(self.body))

    async def text(self, **k):
        return self._text

    async def read(self):
        return b""

    def raise_for_status(self):
        import aiohttp

        if self.status >= 400:
            raise aiohttp.ClientResponseError(None, (), status=self.status, message="Reason")

    def release(self):
        pass

    close = release

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        pass


class Session:
    """Stands in for aiohttp's session."""

    def __init__(self, answer):
        self.answer, self.reqs, self.closed = answer, [], 0

    async def request(self, method, url, **k):
        self.reqs.append((method, str(url), k.get("json"), k.get("headers")))
        await asyncio.sleep(0.0101)
        return await self.answer(method, str(url), k)

    def __getattr__(self, name):
        if name in ("get", "post", "delete", "put", "patch"):
            return lambda url, **k: self.request(name.upper(), url, **k)
        raise AttributeError(name)

    async def close(self):
        self.closed += 1


class Auth:
    def __init__(self, cl):
        self.log = []

    def pre_request(self, resp):
        self.log.append(("pre", resp))
        return {"Authorization": "secret"}, "ctx"

    def post_response(self, resp, context=None):
        self.log.append(("post", resp, context))


def gateway(session, **kw):
    from dask_gateway import auth as A
    from dask_gateway import client as C

    class MyAuth(Auth, A.GatewayAuth):
        pass

    C.aiohttp = types.SimpleNamespace(**{**vars(real_aiohttp()), "ClientSession": lambda **k: session})
    a = MyAuth(None)
    return C, C.Gateway("http://gw/base/", auth=a, asynchronous=True, **kw), a


def real_aiohttp():
    import aiohttp

    return aiohttp


def report(status, name="c1", full=True):
    d = {"name": name, "dashboard_route": "/clusters/c1/status", "status": status, "options": {"a": 1}, "start_time": 5000, "stop_time": None if status in ("PENDING", "RUNNING") else 7000}
    if full:
        d.update(tls_cert="CERT" if status == "RUNNING" else None, tls_key="KEY" if status == "RUNNING" else None)
    return d


async def request(case, warned):
    bad, resps = [], []
    op = case["op"]
    answers = [list(x) for x in case.get("answers", [])] or [[200, None]]
    turn = iter(case.get("statuses") or ["RUNNING"] * 9)
    state = {}

    async def answer(method, url, k):
        i = len(resps)
        code, err = answers[min(i, len(answers) - 1)] if op != "wait" else (200, None)
        if op == "wait":
            st = state["st"] = next(turn)
            if st == "timeout":
                raise TimeoutError
            body = report(st)
        elif code >= 400:
            body = {"an-error": {"error": f"reason {i}"}, "other-json": {"x": 1}}.get(err)
        else:
            body = {"submit": {"name": "new"}, "report": report("RUNNING"), "list": {"c1": report("RUNNING", full=False), "c2": report("STOPPED", "c2", False)}, "versions": {"version": "9"}, "stop": None}.get(op, {"ok": case.get("ok", True), "msg": case.get("msg")})
        r = Resp(code, body, text=f"text {i}")
        resps.append(r)
        return r

    s = Session(answer)
    C, g, a = gateway(s)
    B = "http://gw/base/api/v1/clusters/"
    call, want = {
        "stop": (lambda: g._stop_cluster("c1"), ("DELETE", B + "c1", None)),
        "scale": (lambda: g._scale_cluster("c1", 3), ("POST", B + "c1/scale", {"count": 3})),
        "adapt": (lambda: g._adapt_cluster("c1", minimum=0, maximum=4, active=True), ("POST", B + "c1/adapt", {"minimum": 0, "maximum": 4, "active": True})),
        "submit": (lambda: g._submit(size=3), ("POST", B, {"cluster_options": {"size": 3}})),
        "report": (lambda: g._cluster_report("c1"), ("GET", B + "c1", None)),
        "list": (lambda: g._clusters(status=["running", "stopped"]), ("GET", B + "?status=RUNNING,STOPPED", None)),
        "versions": (lambda: g._get_versions(), ("GET", "http://gw/base/api/version", None)),
        "wait": (lambda: g._wait_for_start("c1"), ("GET", B + "c1?wait", None)),
    }[op]
    res = exc = None
    try:
        res = await asyncio.wait_for(call(), 1000)
    except Exception as e:
        exc = e
    for r in s.reqs:
        if r[:3] != want:
            bad.append((f"{op}::the-right-request", f"sent {r[:3]}, expected {want}"))
    if op == "wait":
        decided = next(x for x in case.get("statuses", ["RUNNING"]) if x in ("RUNNING", "STOPPED", "FAILED"))
        if state.get("st") != decided:
            bad.append(("wait_for_start::waits-on-only-while-undecided", f"{case['statuses']}: ended at {state.get('st')}"))
        elif decided == "RUNNING" and (exc or res is None or res.status.name != "RUNNING"):
            bad.append(("wait_for_start::returns-only-a-running-cluster", f"{res} {exc!r}"))
        elif decided != "RUNNING" and not isinstance(exc, C.GatewayClusterError):
            bad.append(("wait_for_start::a-cluster-that-ended-is-an-error", f"{decided}: {res} {exc!r}"))
        return bad
    n = 2 if answers[0][0] == 401 else 1
    if len(s.reqs) != n:
        bad.append((f"{op}::asks-again-only-after-401", f"{answers}: {len(s.reqs)} requests"))
        return bad
    if s.reqs[0][3]:
        bad.append((f"{op}::no-credentials-until-asked", f"{s.reqs[0]}"))
    if n == 2:
        if (s.reqs[1][3] or {}).get("Authorization") != "secret":
            bad.append((f"{op}::sends-the-credentials", f"{s.reqs[1]}"))
        if a.log != [("pre", resps[0]), ("post", resps[1], "ctx")]:
            bad.append((f"{op}::the-authenticator-sees-the-answer", f"{a.log}"))
    code, err = answers[n - 1]
    if code < 400:
        if exc:
            bad.append((f"{op}::accepted-requests-succeed", f"{exc!r}"))
        elif op == "submit" and res != "new":
            bad.append(("submit::returns-the-new-name", f"{res}"))
        elif op == "report":
            bad += check_report(res, "RUNNING", True, C)
        elif op == "list":
            if [r.name for r in res] != ["c1", "c2"]:
                bad.append(("list::one-report-for-each-cluster", f"{res}"))
            else:
                bad += check_report(res[0], "RUNNING", False, C) + check_report(res[1], "STOPPED", False, C)
        elif op in ("scale", "adapt"):
            told = [x for x in warned if "limited" in str(x.message)]
            if bool(told) != (not case.get("ok", True) and bool(case.get("msg"))):
                bad.append((f"{op}::a-partial-acceptance-is-told", f"{case}: {told}"))
        return bad
    kind = {404: ValueError, 422: ValueError, 409: C.GatewayClusterError, 500: C.GatewayServerError}.get(code, real_aiohttp().ClientResponseError)
    if type(exc) is not kind:
        bad.append((f"{op}::the-right-error" if exc else f"{op}::a-refusal-is-an-error", f"status {code}: {exc!r}"))
    elif kind is not real_aiohttp().ClientResponseError:
        msg = f"reason {n - 1}" if err == "an-error" else f"text {n - 1}"
        if exc.args != (msg,):
            bad.append((f"{op}::carries-the-servers-reason", f"{exc!r}, the server said {msg}"))
    return bad


def check_report(r, st, full, C):
    bad = []
    addr = "gateway://gw:80/" + r.name if st == "RUNNING" else None
    if r.status is not C.ClusterStatus[st] or r.scheduler_address != addr or r.options != {"a": 1} or r.dashboard_link != "http://gw/base/clusters/c1/status":
        bad.append(("report::reported-status", f"{[getattr(r, n) for n in r.__slots__]}"))
    if r.start_time.timestamp() != 5 or (r.stop_time is None) != (st in ("PENDING", "RUNNING")) or (r.stop_time and r.stop_time.timestamp() != 7):
        bad.append(("report::reported-times", f"{r.start_time} {r.stop_time}"))
    s = r.security
    if (s is None) != (not full) or (s is not None and (s.tls_key, s.tls_cert) != ("KEY", "CERT")):
        bad.append(("report::its-own-credentials", f"{s}"))
    return bad


async def cluster(case, warned):
    bad, deletes, connected = [], [], []
    fate = list(case["fate"])
    made = []

    async def answer(method, url, k):
        if method == "POST":
            if case["submit"] == "slow":
                await asyncio.sleep(0.5)
            if case["submit"] in (422, 500):
                return Resp(case["submit"], {"error": "no"})
            made.append("new")
            return Resp(201, {"name": "new"})
        if method == "GET":
            st = fate.pop(0) if len(fate) > 1 else fate[0]
            await asyncio.sleep(0.3)
            if st == "timeout":
                raise TimeoutError
            return Resp(st, {"error": "gone"}) if isinstance(st, int) else Resp(200, report(st, url.rsplit("/", 1)[1].split("?")[0]))
        deletes.append(url)
        if case["delete"] == "error":
            raise OSError("gone")
        return Resp(case["delete"], None)

    s = Session(answer)
    C, g, a = gateway(s)

    class Comm:
        async def write(self, m):
            if case["rpc"] == "no-comm":
                raise OSError("no scheduler")

        async def read(self):
            if not hasattr(self, "n"):
                self.n = 1
                return {"workers": {}}
            await asyncio.sleep(1e6)

        async def close(self):
            pass

    class Rpc:
        def __init__(self, addr, connection_args=None):
            connected.append((addr, connection_args))

        async def live_comm(self):
            return Comm()

        async def close_rpc(self):
            if case["rpc"] == "close-fails":
                raise OSError("broken")

    C.rpc = Rpc
    old = C.GatewaySecurity.get_connection_args
    C.GatewaySecurity.get_connection_args = lambda self, role: (self.tls_key, self.tls_cert, role)
    known, on_close = case["known"], case["on_close"]
    kw = {} if on_close is None else {"shutdown_on_close": on_close}
    on_close = (not known) if on_close is None else on_close
    name = "known" if known else "new"
    cl = g.connect(name, **kw) if known else g.new_cluster(size=2, **kw)
    try:
        t = asyncio.ensure_future(cl._start_internal() if case["way"] != "exit" else cl.__aenter__())
        early = case["way"] == "close-while-starting" and case["cancel"] is not None
        if case["cancel"] is not None:
            await asyncio.sleep(case["cancel"])
            if not t.done() and not early:
                t.cancel()
        exc = closer = None
        if early:
            closer = asyncio.ensure_future(cl.close())
            await asyncio.wait([closer], timeout=500)
        was_done = t.done()
        await asyncio.wait([t], timeout=5000)
        if not t.done():
            return [("start_new::the-failure-is-reported", "starting never ends")]
        exc = asyncio.CancelledError() if t.cancelled() else t.exception()
        posts = [r for r in s.reqs if r[0] == "POST"]
        if len(posts) != (0 if known else 1) and case["cancel"] is None:
            bad.append(("start_new::submits-once-unless-connecting", f"{posts}"))
        for p in posts:
            if p[2] != {"cluster_options": {"size": 2}}:
                bad.append(("start_new::submits-the-given-options", f"{p}"))
        for r in s.reqs:
            if r[0] == "GET" and r[1] != f"http://gw/base/api/v1/clusters/{name}?wait":
                bad.append(("start_new::waits-for-its-own-cluster", f"{r}"))
        url = f"http://gw/base/api/v1/clusters/{name}"
        have = known or cl.name is not None
        if early:
            if was_done or closer.done() and closer.exception():
                if closer.done() and closer.exception():
                    bad.append(("close::closing-never-raises", repr(closer.exception())))
            want = 1 if on_close and have else 0
            # starting and closing at once may both ask
            if bool(deletes) != bool(want) or any(d != url for d in deletes):
                bad.append(("close::shuts-down-iff-asked", f"closed while starting: {deletes}, shutdown_on_close={on_close}, name {cl.name}"))
            return bad
        end = case["fate"][-1]
        if exc is None:
            if case["submit"] in (422, 500) and not known or end != "RUNNING":
                bad.append(("start_new::the-failure-is-reported", f"{case['submit']} {end} reported as a success"))
            if connected != [("gateway://gw:80/" + name, ("KEY", "CERT", "client"))]:
                bad.append(("start_new::connects-with-the-clusters-credentials", f"{connected}"))
            if cl.status != "running" or cl.name != name or cl.scheduler_address != "gateway://gw:80/" + name:
                bad.append(("start_new::describes-the-running-cluster", f"{cl} {cl.scheduler_address}"))
            if deletes or s.closed:
                bad.append(("start_new::a-running-cluster-is-kept", f"{deletes}"))
                return bad
        else:
            cancelled = isinstance(exc, asyncio.CancelledError)
            if cancelled and case["cancel"] is None:
                bad.append(("start_new::the-failure-is-reported", "cancelled by no one"))
            if case["cancel"] is None:
                if case["submit"] in (422, 500) and not known:
                    ok = type(exc) is {422: ValueError, 500: C.GatewayServerError}[case["submit"]]
                else:
                    ok = type(exc) is {"FAILED": C.GatewayClusterError, "STOPPED": C.GatewayClusterError, 404: ValueError, 500: C.GatewayServerError}.get(end)
                if not ok:
                    bad.append(("start_new::the-failure-is-reported", f"{case['submit']} {end}: {exc!r}"))
            want = [url] if on_close and have else []
            if deletes != want:
                bad.append(("start_new::a-failed-start-is-shut-down-iff-asked", f"deleted {deletes}, expected {want}"))
            if cl.status != "closed" or not s.closed:
                bad.append(("start_new::the-client-is-released", f"{cl}, session closed {s.closed} times"))
            return bad

        class Client:
            def __init__(self, how):
                self.how = how

            async def _close(self):
                if self.how == "fails":
                    raise OSError("broken")

        keep = [Client(x) for x in case["clients"]]
        for c in keep:
            cl._clients.add(c)
        way = case["way"]
        del s.reqs[:]
        asked = {"shutdown": True, "close-true": True, "close-false": False}.get(way, on_close)
        try:
            if way == "exit":
                await cl.__aexit__(None, None, None)
            elif way == "shutdown":
                await cl.shutdown()
            elif way in ("close-true", "close-false"):
                await cl.close(shutdown=asked)
            else:
                await cl.close()
                if way == "twice" and not asked:
                    await cl.close()
        except Exception as e:
            bad.append(("close::closing-never-raises", repr(e)))
        if deletes != ([url] if asked else []):
            bad.append(("close::shuts-down-iff-asked", f"{way}, shutdown_on_close={on_close}: deleted {deletes}"))
        if not s.closed:
            bad.append(("close::the-client-is-released", "session left open"))
        if case["rpc"] == "ok" and "fails" not in case["clients"] and cl.status != "closed":
            bad.append(("close::ends-closed", cl.status))
        if cl in C.GatewayCluster._instances:
            bad.append(("close::forgotten-at-exit", "still closed at exit"))
        return bad
    finally:
        C.GatewaySecurity.get_connection_args = old


async def auth(case, warned):
    import base64

    from dask_gateway import auth as A

    import dask

    bad = []
    for u, p in (("alice", "pw"), ("bob", ""), ("b", "x:y")):
        h, _ = A.BasicAuth(u, p).pre_request(None)
        if h != {"Authorization": "Basic " + base64.b64encode(f"{u}:{p}".encode()).decode()}:
            bad.append(("basic::presents-user-and-password", f"{u}:{p} -> {h}"))
    h, _ = A.BasicAuth("alice").pre_request(None)
    if h != {"Authorization": "Basic " + base64.b64encode(b"alice:").decode()}:
        bad.append(("basic::presents-user-and-password", f"{h}"))
    old = os.environ.pop("JUPYTERHUB_API_TOKEN", None)
    try:
        try:
            A.JupyterHubAuth()
            bad.append(("jupyterhub::no-token-is-an-error", "accepted"))
        except ValueError:
            pass
        os.environ["JUPYTERHUB_API_TOKEN"] = "env"
        for tok, want in ((None, "env"), ("given", "given")):
            if A.JupyterHubAuth(tok).pre_request(None)[0] != {"Authorization": "jupyterhub " + want}:
                bad.append(("jupyterhub::presents-the-token", f"{tok}"))
    finally:
        os.environ.pop("JUPYTERHUB_API_TOKEN", None)
        if old is not None:
            os.environ["JUPYTERHUB_API_TOKEN"] = old
    b = A.BasicAuth("u", "p")
    if A.get_auth(b) is not b:
        bad.append(("get_auth::uses-the-given-authenticator", "another object"))
    for n, c, kw in (("basic", A.BasicAuth, {"username": "u", "password": "p"}), ("jupyterhub", A.JupyterHubAuth, {"api_token": "t"}), ("kerberos", A.KerberosAuth, {})):
        with dask.config.set({"gateway.auth.kwargs": kw, "gateway.auth.type": n}):
            for arg in (n, None, c):
                x = A.get_auth(arg)
                if type(x) is not c or any(getattr(x, k) != y for k, y in kw.items()):
                    bad.append(("get_auth::with-the-configured-credentials", f"{n}: {vars(x)}"))
    for wrong in (7, lambda **k: 5):
        try:
            A.get_auth(wrong)
            bad.append(("get_auth::anything-else-is-refused", f"{wrong}"))
        except TypeError:
            pass
    # kerberos
    log = []
    import sys

    sys.modules["kerberos"] = types.SimpleNamespace(GSS_C_MUTUAL_FLAG=2, GSS_C_SEQUENCE_FLAG=8, authGSSClientInit=lambda s, gssflags=0: (log.append(("init", s)), (0, "ctx"))[1], authGSSClientStep=lambda c, t: log.append(("step", c, t)), authGSSClientResponse=lambda c: "resp")
    try:
        k = A.KerberosAuth()
        r = Resp(401)
        h, c = k.pre_request(r)
        if h != {"Authorization": "Negotiate resp"} or log != [("init", "HTTP@gw"), ("step", "ctx", "")] or c != "ctx":
            bad.append(("kerberos::presents-the-response", f"{h} {log}"))
        del log[:]
        for hdr, want in (("Negotiate abc", "abc"), ("Basic x, negotiate abc=", "abc="), ("Basic", None), (None, None), ("Negotiate ", None)):
            r.headers = {} if hdr is None else {"www-authenticate": hdr}
            del log[:]
            try:
                k.post_response(r, "ctx")
                ok = True
            except Exception:
                ok = False
            if ok != (want is not None) or log != ([("step", "ctx", want)] if want else []):
                bad.append(("kerberos::the-server-must-prove-itself", f"{hdr}: {ok} {log}"))
    finally:
        del sys.modules["kerberos"]
    return bad


async def tls(case, warned):
    from dask_gateway import client as C

    import subprocess
    import tempfile

    bad, seen = [], []

    class Ctx:
        check_hostname = True
        verify_mode = None

        def load_cert_chain(self, cert, key=None, **k):
            seen.append(("own", open(cert).read(), open(key).read()))

    real = C.ssl
    dirs = []

    def create(purpose=None, cafile=None, **k):
        seen.append(("trust", open(cafile).read() if cafile else None))
        dirs.append(os.path.dirname(cafile) if cafile else None)
        return Ctx()

    C.ssl = types.SimpleNamespace(**{**{n: getattr(ssl, n) for n in dir(ssl) if not n.startswith("__")}, "create_default_context": create})
    try:
        r = C.GatewaySecurity(tls_key="KEY", tls_cert="CERT").get_connection_args("client")
    finally:
        C.ssl = real
    if sorted(seen) != [("own", "CERT", "KEY"), ("trust", "CERT")]:
        bad.append(("tls::trusts-only-the-clusters-certificate", f"{seen}"))
    ctx = r.get("ssl_context")
    if not isinstance(ctx, Ctx) or ctx.verify_mode != ssl.CERT_REQUIRED:
        bad.append(("tls::the-scheduler-must-prove-itself", f"{getattr(ctx, 'verify_mode', None)}"))
    if r.get("require_encryption") is not True:
        bad.append(("tls::encryption-is-required", f"{r}"))
    if any(d and os.path.exists(d) for d in dirs):
        bad.append(("tls::credentials-are-removed-from-disk", f"{dirs}"))
    return bad


async def addresses(case, warned):
    import dask

    from dask_gateway import client as C

    bad = []
    conf0 = {"gateway.address": None, "gateway.public-address": None, "gateway.proxy-address": None}
    for kw, conf, want in (
        ({"address": "http://h:8000/x/"}, {}, ("http://h:8000/x", "http://h:8000/x", "gateway://h:8000")),
        ({"address": "http://h"}, {}, ("http://h", "http://h", "gateway://h:80")),
        ({"address": "https://h/"}, {}, ("https://h", "https://h", "gateway://h:443")),
        ({"address": "https://h", "proxy_address": 8786}, {}, ("https://h", "https://h", "gateway://h:8786")),
        ({"address": "https://h", "proxy_address": "tls://p:1"}, {}, ("https://h", "https://h", "gateway://p:1")),
        ({"address": "https://h", "proxy_address": "p:1"}, {}, ("https://h", "https://h", "gateway://p:1")),
        ({"address": "https://h", "public_address": "https://pub/"}, {}, ("https://h", "https://pub", "gateway://h:443")),
        ({}, {"gateway.address": "http://c:1/", "gateway.public-address": "http://d/", "gateway.proxy-address": 9}, ("http://c:1", "http://d", "gateway://c:9")),
        ({"address": "http://a", "proxy_address": "x:1", "public_address": "http://b"}, {"gateway.address": "http://c:1/", "gateway.public-address": "http://d/", "gateway.proxy-address": 9}, ("http://a", "http://b", "gateway://x:1")),
        ({}, {}, None),
    ):
        with dask.config.set({**conf0, **conf}):
            try:
                g = C.Gateway(asynchronous=True, auth="basic", **kw)
                got = (g.address, g._public_address, g.proxy_address)
            except ValueError:
                got = None
        if got != want:
            bad.append(("addresses::the-given-address", f"{kw} {conf}: {got}, expected {want}"))
    return bad


async def at_exit(case, warned):
    from dask_gateway import client as C

    bad, closed = [], []

    class O:
        def __init__(self, i):
            self.i, self.asynchronous = i, i == 1

        def close(self):
            closed.append(self.i)
            if self.i in (0, 3):
                raise OSError("x")

    objs = [O(i) for i in range(5)]
    old = C.GatewayCluster._instances
    C.GatewayCluster._instances = set(objs)
    try:
        C.cleanup_lingering_clusters()
    finally:
        C.GatewayCluster._instances = old
    if sorted(closed) != [0, 2, 3, 4]:
        bad.append(("at_exit::closes-every-cluster-left", f"{closed}"))
    return bad


async def connector(case, warned):
    from dask_gateway import comm as M

    bad, log = [], []
    ctx = ssl.create_default_context()

    class Stream:
        error = None

        def closed(self):
            return False

        async def start_tls(self, server_side, ssl_options=None, server_hostname=None):
            log.append(("tls", server_side, ssl_options, server_hostname))
            return self

    class Client:
        async def connect(self, ip, port, **k):
            log.append(("connect", ip, port))
            return Stream()

    class TLS:
        def __init__(self, stream, *a):
            self.stream = stream

    c = M.GatewayConnector()
    c.client = Client()
    old = M.TLS, M.get_stream_address
    M.TLS, M.get_stream_address = TLS, lambda s: "local"
    try:
        for addr in ("h:8000/c1", "gateway://h:8000/c1"):
            del log[:]
            r = await c.connect(addr, ssl_context=ctx)
            if log != [("connect", "h", 8000), ("tls", False, ctx, "daskgateway-c1")] or not isinstance(r, TLS):
                bad.append(("connector::asks-for-its-own-cluster", f"{addr}: {log}"))
        del log[:]
        for addr, kw in (("h:8000", {"ssl_context": ctx}), ("h:8000/c1", {}), ("h:8000/c1", {"ssl_context": "x"})):
            try:
                await c.connect(addr, **kw)
                ok = True
            except (TypeError, ValueError):
                ok = False
            if ok or log:
                bad.append(("connector::never-connects-without-tls-settings", f"{addr} {kw}: {log}"))
    finally:
        M.TLS, M.get_stream_address = old
    return bad
