"""The real authenticators with scripted providers, clocks and requests."""
import asyncio
import base64
import random
import sys
import types

import dask_gateway_server.auth as AU
from aiohttp import web
from dask_gateway_server.models import User

NAMES = ["alice", "bob", "service:x", "x", "user:bob", "a:b", "al", ""]
KINDS = ["cache", "flow", "simple", "kerberos", "hub"]


def cases(tier, seed):
    rng = random.Random(seed)
    n = {"quick": 1500, "deep": 6000, "thorough": 30000}[tier]
    for i in range(n):
        for k in KINDS:
            yield {"kind": k, "seed": rng.randrange(1 << 30)}


class Clock:
    now = 5000.0

    def __init__(self):
        import time

        self.real = time

    def __getattr__(self, n):
        return getattr(self.real, n)

    def monotonic(self):
        return self.now

    def time(self):
        return self.now


class Request(dict):
    def __init__(self, headers=None, cookies=None):
        super().__init__()
        self.headers = headers or {}
        self.cookies = cookies or {}


def go(coro):
    loop = asyncio.new_event_loop()
    try:
        return loop.run_until_complete(coro)
    finally:
        loop.close()


def run(case):
    f = {"cache": cache, "flow": flow, "handle": flow, "simple": simple, "kerberos": kerberos, "hub": hub}.get(case["kind"])
    if f is None:
        return []
    out = []
    for seed in [case["seed"]] if "seed" in case else range(60):
        clock = Clock()
        old = AU.time
        AU.time = clock
        try:
            f(random.Random(seed), clock, lambda c, m: out.append((c, m)))
        finally:
            AU.time = old
        if out:
            break
    return out


def quiet(cls, **kw):
    import logging

    a = cls(**kw)
    a.log = logging.getLogger("quiet")
    a.log.disabled = True
    return a


# ------------------------------------------------------------------- sessions


def cache(rng, clock, bad):
    age = rng.choice([10, 300])
    c = AU.UserCache(age)
    first, last, owner = {}, {}, {}
    foreign = ["", "nope", "0" * 32]
    for _ in range(rng.randrange(5, 40)):
        op = rng.random()
        if op < 0.35:
            u = User(rng.choice(NAMES))
            try:
                k = c.put(u)
            except Exception as e:
                bad("UserCache.put::no-exception", repr(e))
                return
            if owner.get(k, u.name) != u.name:
                bad("UserCache.put::cookie-of-that-user", f"cookie of {owner[k]!r} issued to {u.name!r}")
            owner[k] = u.name
            first.setdefault(k, clock.now)
            last[k] = clock.now
        elif op < 0.8:
            k = rng.choice(foreign + list(owner))
            try:
                u = c.get(k)
            except Exception as e:
                bad("UserCache.get::no-exception", repr(e))
                return
            if u is None:
                if k in first and clock.now - first[k] <= age:
                    bad("UserCache.get::valid-session-accepted", f"refused after {clock.now - first[k]}s of {age}s")
                first.pop(k, None)
            elif k not in owner:
                bad("UserCache.get::only-issued-cookies", f"{k!r} accepted as {u.name!r}")
            elif owner[k] != u.name:
                bad("UserCache.get::the-user-it-was-issued-to", f"cookie of {owner[k]!r} accepted as {u.name!r}")
            elif clock.now - last[k] > age + 1e-9:
                bad("UserCache.get::only-within-the-lifetime", f"accepted {clock.now - last[k]}s after it was issued, lifetime {age}s")
        else:
            clock.now += rng.choice([1, age / 2, age * 0.9, age * 1.1, 3 * age])


def flow(rng, clock, bad):
    """Histories of logins through the whole of authenticate_and_handle."""
    pw = rng.choice(["", None, "secret"])
    kw = {"password": pw} if pw is not None else {}
    age = rng.choice([10, 300])
    a = quiet(AU.SimpleAuthenticator, cache_max_age=age, **kw)
    jar = {}  # cookie value -> (user, last issue)
    name = a.cookie_name
    for _ in range(rng.randrange(3, 25)):
        if rng.random() < 0.3:
            clock.now += rng.choice([1, age / 2, age * 1.1])
        user = rng.choice(["alice", "bob", "carol"])
        p = rng.choice(["secret", "wrong", "", "sec"])
        h, cookies = {}, {}
        good = False
        m = rng.random()
        if m < 0.5:
            h["Authorization"] = "Basic " + base64.b64encode(f"{user}:{p}".encode()).decode()
            good = not pw or p == pw
        elif m < 0.6:
            h["Authorization"] = rng.choice(["Basic", "Basic !!!", "basic YTpi", "Bearer YTpi", "Basic " + base64.b64encode(b"alice").decode(), ""])
        if rng.random() < 0.6:
            cookies[rng.choice([name, name, name, "other"])] = rng.choice(list(jar) + ["forged"])
        req = Request(h, cookies)
        seen = []
        resp = web.Response()
        fail = rng.random() < 0.2

        async def handler(r):
            seen.append(r.get("user"))
            if fail:
                raise web.HTTPNotFound()
            return resp

        exc = None
        try:
            got = go(a.authenticate_and_handle(req, handler))
            if got is not resp:
                bad("authenticate_and_handle::answers-with-the-handlers-response", repr(got))
        except BaseException as e:
            exc = e
        ck = cookies.get(name)
        sess = jar.get(ck)
        valid = sess is not None and clock.now - sess[1] <= age + 1e-9
        if len(seen) > 1:
            bad("authenticate_and_handle::handled-at-most-once", "handler ran twice")
        if seen:
            u = seen[0]
            n = u.name if isinstance(u, User) else u
            if not ((valid and n == sess[0]) or (good and n == user)):
                bad("authenticate_and_handle::handled-as-the-verified-user", f"handled as {n!r}; credentials {h}, session {sess}, {clock.now - sess[1] if sess else None}s old")
        else:
            if good:
                bad("authenticate_and_handle::verified-requests-are-handled", f"refused {h}: {exc!r}")
            if exc is None:
                bad("authenticate_and_handle::refused-unless-authenticated", "answered without running the handler")
        issued = [(k, m.value) for k, m in resp.cookies.items()]
        for k, val in issued:
            if not seen:
                bad("authenticate_and_handle::refused-unless-authenticated", "a refused request got a session")
                continue
            n = seen[0].name if seen[0] else None
            if val in jar and jar[val][0] != n:
                bad("authenticate_and_handle::session-for-the-verified-user", f"the session of {jar[val][0]!r} was issued to {n!r}")
            jar[val] = (n, clock.now)


# ---------------------------------------------------------------------- basic


def simple(rng, clock, bad):
    pw = rng.choice(["", "pw", "p:w", "longer secret"])
    a = quiet(AU.SimpleAuthenticator, password=pw)
    user = rng.choice(["alice", "bob", ""])
    p = rng.choice([pw, pw, pw + "x", pw[:-1], "", "p", pw.upper(), ":" + pw, pw + ":"])
    scheme = rng.choice(["Basic"] * 5 + ["basic", "Bearer", "Negotiate", "jupyterhub"])
    val = scheme + " " + base64.b64encode(f"{user}:{p}".encode()).decode()
    hdr = rng.choice([{"Authorization": val}] * 6 + [{}, {"Authorization": ""}, {"X-Authorization": val}])
    try:
        u = go(a.authenticate(Request(hdr)))
        if isinstance(u, tuple):
            u = u[0]
    except Exception as e:
        if hdr.get("Authorization") == val and scheme == "Basic" and (not pw or p == pw):
            bad("SimpleAuthenticator.authenticate::right-password-accepted", f"{user}:{p} refused with password {pw!r}: {e!r}")
        if not hdr.get("Authorization") and getattr(e, "status", None) != 401:
            bad("SimpleAuthenticator.authenticate::401-without-credentials", repr(e))
        return
    if hdr.get("Authorization") != val or scheme != "Basic":
        bad("SimpleAuthenticator.authenticate::needs-basic-credentials", f"{hdr} accepted")
    elif pw and p != pw:
        bad("SimpleAuthenticator.authenticate::password-matches", f"password {p!r} accepted instead of {pw!r}")
    elif u.name != user:
        bad("SimpleAuthenticator.authenticate::the-user-named-in-the-credentials", f"{u.name!r} instead of {user!r}")
    elif u.admin:
        bad("SimpleAuthenticator.authenticate::no-admin", "is admin")


# ------------------------------------------------------------------- kerberos


def kerberos(rng, clock, bad):
    m = types.ModuleType("kerberos")

    class GSSError(Exception):
        pass

    m.GSSError = GSSError
    m.AUTH_GSS_COMPLETE = 1
    st = {"done": False, "cleaned": 0, "key": None, "service": None}
    plan = {k: rng.choice(["ok"] * 8 + ["err", "cont"]) for k in ("init", "step", "response", "user")}
    ctx = object()

    def act(k, val=None, rc=False):
        if plan[k] == "err":
            raise GSSError(k)
        if rc:
            return 1 if plan[k] == "ok" else 0
        return val

    def init(service):
        st["service"] = service
        return act("init", rc=True), ctx

    def step(c, key):
        r = act("step", rc=True)
        st["key"] = key
        st["done"] = r == 1 and c is ctx and plan["init"] == "ok"
        return r

    def clean(c):
        st["cleaned"] += 1
        return 1

    princ = rng.choice(["alice@REALM", "bob", "carol@A@B"])
    m.authGSSServerInit, m.authGSSServerStep, m.authGSSServerClean = init, step, clean
    m.authGSSServerResponse = lambda c: act("response", "gsskey")
    m.authGSSServerUserName = lambda c: act("user", princ)
    old = sys.modules.get("kerberos")
    sys.modules["kerberos"] = m
    hdr = rng.choice([{"Authorization": "Negotiate tok"}] * 5 + [{}, {"Authorization": "Basic tok"}, {"Authorization": "negotiate tok"}])
    a = quiet(AU.KerberosAuthenticator)
    try:
        try:
            r = go(a.authenticate(Request(hdr)))
        except BaseException as e:
            if hdr.get("Authorization") == "Negotiate tok" and all(p == "ok" for p in plan.values()):
                bad("KerberosAuthenticator.authenticate::valid-exchange-accepted", repr(e))
            if not hdr and getattr(e, "status", None) != 401:
                bad("KerberosAuthenticator.authenticate::401-without-credentials", repr(e))
            return
        u = r[0] if isinstance(r, tuple) else r
        if not st["done"] or hdr.get("Authorization") != "Negotiate tok" or st["key"] != "tok":
            bad("KerberosAuthenticator.authenticate::only-after-a-completed-exchange", f"{plan} {hdr} accepted as {u.name!r}")
        elif u.name != princ.split("@")[0]:
            bad("KerberosAuthenticator.authenticate::the-authenticated-principal", f"{princ!r} became {u.name!r}")
    finally:
        if old is None:
            del sys.modules["kerberos"]
        else:
            sys.modules["kerberos"] = old


# ----------------------------------------------------------------------- hub


def hub(rng, clock, bad):
    svc = rng.choice(["dask-gateway", "dg"])
    need = rng.random() < 0.6
    mode = rng.choice(["explicit", "default"])
    kw = {"use_service_access_scopes": need, "jupyterhub_service_name": svc} if mode == "explicit" else ({"jupyterhub_service_name": svc} if need else {"jupyterhub_service_name": "", "use_service_access_scopes": False})
    a = quiet(AU.JupyterHubAuthenticator, jupyterhub_api_token="gwtoken", jupyterhub_api_url="http://hub/api", **kw)
    tokens = {}
    pool = ["access:services", f"access:services!service={svc}", "access:services!service=other", "read:users", "access:services!", "access:service"]
    for i in range(rng.randrange(1, 6)):
        kind = rng.choice(["user", "service"])
        d = {"name": rng.choice(["alice", "bob", "x", "service:x", "user:alice", "user:x", "service:service:x"]), "kind": kind}
        if rng.random() < 0.8:
            d["scopes"] = rng.sample(pool, rng.randrange(0, 4))
        if kind == "user":
            d["groups"], d["admin"] = ["g"], rng.random() < 0.5
        tokens[f"t{i}"] = (rng.choice([200] * 6 + [400, 403, 404, 500, 503]), d)

    class Resp:
        reason = "r"

        def __init__(self, s, d):
            self.status, self.d = s, d

        async def json(self):
            return dict(self.d)

        async def __aenter__(self):
            return self

        async def __aexit__(self, *a):
            pass

        def release(self):
            pass

    class Session:
        def get(self, url, headers=None, ssl=None, **k):
            async def f():
                t = (headers or {}).get("Authorization", "")
                if t == "token gwtoken":
                    return Resp(200, {"name": "gateway", "kind": "service", "scopes": pool})
                s, d = tokens.get(t[6:] if t.startswith("token ") else None, (403, {}))
                if url != "http://hub/api/user":
                    s = 404
                return Resp(s, d)

            return f()

    a.session = Session()
    a.ssl_context = None
    ids = {}
    if mode == "explicit" and need and not a.use_service_access_scopes:
        bad("JupyterHubAuthenticator::scopes-required", "scopes not enforced")
    for t, (s, d) in tokens.items():
        scheme = rng.choice(["jupyterhub"] * 5 + ["token", "Basic"])
        hdr = rng.choice([{"Authorization": f"{scheme} {t}"}] * 6 + [{}])
        has = bool({"access:services", f"access:services!service={svc}"} & set(d.get("scopes", [])))
        ok = hdr.get("Authorization") == f"jupyterhub {t}" and s < 400 and (not need or has)
        try:
            u = go(a.authenticate(Request(hdr)))
            u = u[0] if isinstance(u, tuple) else u
        except Exception as e:
            if ok:
                bad("JupyterHubAuthenticator.authenticate::confirmed-identities-accepted", f"{d} refused: {e!r}")
            if not hdr and getattr(e, "status", None) != 401:
                bad("JupyterHubAuthenticator.authenticate::401-without-credentials", repr(e))
            continue
        if not ok:
            cl = "only-if-the-hub-confirms" if s >= 400 else "only-with-the-access-scope" if need and not has else "sends-the-token-of-this-request"
            bad("JupyterHubAuthenticator.authenticate::" + cl, f"{hdr} accepted as {u.name!r}; hub answer {s} {d}, scopes required: {need}")
            continue
        me = (d["kind"], d["name"])
        if ids.setdefault(u.name, me) != me:
            bad("JupyterHubAuthenticator.authenticate::different-identities-get-different-names", f"{ids[u.name]} and {me} both become {u.name!r}")
        if d["kind"] == "service" and not u.name.startswith("service:"):
            bad("JupyterHubAuthenticator.authenticate::services-cannot-be-users", f"service {d['name']!r} became {u.name!r}")
        if d["kind"] == "user" and ":" not in d["name"] and u.name != d["name"]:
            bad("JupyterHubAuthenticator.authenticate::users-keep-their-name", f"{d['name']!r} became {u.name!r}")
