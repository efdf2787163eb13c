"""C03: authentication."""
import z3

from pyvc import web
from pyvc.verify import *
from pyvc.vals import ExtV
from .sqlmodel import MISSING, SMap

AU = "dask_gateway_server.auth"
STR = z3.StringSort()
HEADER = "aiohttp request objects (headers, cookies, item storage)"


# ------------------------------------------------------------------ the cache


class Cache:
    """An arbitrary reachable cache: every cookie belongs to exactly one user
    name and every cached name to exactly one cookie."""

    def __init__(self, v):
        self.v, it, ctx = v, v.it, v.ctx
        S, B, R = STR, z3.BoolSort(), z3.RealSort()
        self.has = z3.Function("cached", S, B)
        self.uname = z3.Function("cookie_user", S, S)
        self.ts = z3.Function("issued_at", S, R)
        self.named = z3.Function("has_cookie", S, B)
        self.cookie = z3.Function("cookie_of", S, S)
        self.now0 = z3.Real("time_of_last_change")
        ctx.state["clock:monotonic"] = self.now0
        self.max_age = v.real("max_age")
        self.users = []
        self.c2u = SMap(v, self.by_cookie, name="cookie_to_user")
        self.n2c = SMap(v, self.by_name, name="name_to_cookie")
        self.o = v.obj(AU + ".UserCache", max_age=self.max_age, name_to_cookie=self.n2c.obj(), cookie_to_user=self.c2u.obj())
        v.case(lambda ev: {"kind": "cache"})

    def link_cookie(self, c):
        u = self.uname(c)
        self.v.assume(z3.And(self.named(u), self.cookie(u) == c, self.ts(c) <= self.now0))

    def by_cookie(self, key):
        c = key.t
        if not self.v.ctx.branch(self.has(c)):
            return MISSING
        self.link_cookie(c)
        return (SReal(self.ts(c)), self.user(self.uname(c)))

    def by_name(self, key):
        n = key.t
        if not self.v.ctx.branch(self.named(n)):
            return MISSING
        c = self.cookie(n)
        self.v.assume(z3.And(self.has(c), self.uname(c) == n))
        self.link_cookie(c)
        return SStr(c)

    def user(self, n):
        return self.v.obj("dask_gateway_server.models.User", name=SStr(n), groups=VSet([]), admin=self.v.bool("admin"))

    def entry(self, cookie):
        """(timestamp, user name) now, or None."""
        r = self.c2u.lookup(cookie)
        if r is MISSING:
            return None
        r = self.v.it.resolve(r)
        if isinstance(r, VList):
            r = tuple(r.items)
        return r[0].t, self.v.it.resolve(r[1]).attrs["name"]

    def consistent(self):
        v = self.v
        c, n = SStr(v.ctx.fresh("any_cookie", STR)), SStr(v.ctx.fresh("any_name", STR))
        if v.choose("by cookie", "by name") == "by cookie":
            e = self.entry(c)
            if e is not None:
                k = self.n2c.lookup(e[1])
                v.prove("one-cookie-per-name", z3.BoolVal(False) if k is MISSING else v.eq(k, c))
        else:
            k = self.n2c.lookup(n)
            if k is not MISSING:
                e = self.entry(k)
                v.prove("one-name-per-cookie", z3.BoolVal(False) if e is None else v.eq(e[1], n))


@contract("C03", AU + ".UserCache.get", assumes=["time.monotonic() never decreases"])
def cache_get(v):
    w = Cache(v)
    ck = v.str("cookie")
    out = v.run(AU + ".UserCache.get", w.o, ck)
    if not v.ok_or(out, "no-exception"):
        return
    now = v.ctx.state["clock:monotonic"]
    r = v.it.resolve(out.val)
    other = SStr(v.ctx.fresh("other_cookie", STR))
    if r is None:
        v.prove("valid-session-accepted", z3.Or(z3.Not(w.has(ck.t)), w.ts(ck.t) + w.max_age.t < now))
    else:
        v.cover("returned")
        v.prove("only-issued-cookies", w.has(ck.t))
        v.prove("the-user-it-was-issued-to", v.eq(r.attrs["name"], SStr(w.uname(ck.t))))
        v.prove("only-within-the-lifetime", now <= w.ts(ck.t) + w.max_age.t)
    w.consistent()
    v.assume(other.t != ck.t)
    e = w.entry(other)
    if e is None:
        v.prove("other-sessions-kept", z3.Not(w.has(other.t)))
    else:
        v.prove("other-sessions-unchanged", z3.And(w.has(other.t), e[0] == w.ts(other.t), v.eq(e[1], SStr(w.uname(other.t)))))
    v.expect_covers("returned")


@contract("C03", AU + ".UserCache.put", assumes=["uuid.uuid4().hex is fresh and unguessable"])
def cache_put(v):
    w = Cache(v)
    fresh = v.ctx.fresh("uuid", STR)
    v.assume(z3.Not(w.has(fresh)))
    used = []

    def uu(it):
        used.append(1)
        return fresh

    v.ctx.state["uuid_hook"] = uu
    v.it.lib["uuid.uuid4"] = lambda it, a, k: v.fake("UUID", hex=SStr(fresh))
    name = v.str("user")
    u = w.user(name.t)
    out = v.run(AU + ".UserCache.put", w.o, u)
    if not v.ok_or(out, "no-exception"):
        return
    ck = v.it.resolve(out.val)
    if not isinstance(ck, SStr):
        v.unreachable("returns-a-cookie")
        return
    now = v.ctx.state["clock:monotonic"]
    e = w.entry(ck)
    if e is None:
        v.unreachable("cookie-is-recorded")
        return
    v.prove("cookie-of-that-user", v.eq(e[1], name))
    v.prove("unguessable-cookie", z3.Or(ck.t == fresh, z3.And(w.has(ck.t), w.uname(ck.t) == name.t)))
    v.prove("issue-time-recorded", z3.Or(z3.And(ck.t == fresh, e[0] == now), z3.And(w.has(ck.t), e[0] == w.ts(ck.t)), e[0] == now))
    w.consistent()
    other = SStr(v.ctx.fresh("other_cookie", STR))
    v.assume(other.t != ck.t)
    e = w.entry(other)
    if e is not None:
        v.prove("other-sessions-unchanged", z3.And(w.has(other.t), e[0] <= now, v.eq(e[1], SStr(w.uname(other.t)))))


@contract("C03", AU + ".UserCache.__init__", "cache_init")
def cache_init(v):
    it = v.it
    o = it.call(v.cls(AU + ".UserCache"), [v.real("age")])
    out = v.run(AU + ".UserCache.get", o, v.str("cookie"))
    if v.ok_or(out, "no-exception"):
        v.prove("starts-without-sessions", z3.BoolVal(it.resolve(out.val) is None))


# --------------------------------------------------------------- the framework


@contract("C03", AU + ".Authenticator.authenticate_and_handle", assumes=[HEADER, "UserCache.get/put meet their contracts"])
def handle(v):
    it, ctx = v.it, v.ctx
    sent = v.dyn("session_cookie", [("absent", None), ("present", v.str("sent_cookie"))])
    cname = v.str("cookie_name")
    cached_user = v.obj("dask_gateway_server.models.User", name=v.str("cached_user"), groups=VSet([]), admin=False)
    user = v.obj("dask_gateway_server.models.User", name=v.str("auth_user"), groups=VSet([]), admin=False)
    context = v.opaque("context")
    store = VDict()
    st = {"hit": None, "auth": None, "handled": [], "pre": [], "cookies": [], "put": [], "asked": []}

    def c_get(it, a, k):
        c = it.resolve(a[0])
        st["asked"].append(c)
        if c is None or not ctx.branch(z3.Bool("issued_and_not_expired")):
            return None
        st["hit"] = c
        return cached_user

    def c_put(it, a, k):
        st["put"].append(it.resolve(a[0]))
        return v.str("issued_cookie")

    def auth(it, a, k):
        v.prove("credentials-of-this-request", z3.BoolVal(it.resolve(a[-1]) is req))
        r = v.choose("user", "user-and-context", "refused", "broken")
        st["auth"] = r
        if r == "refused":
            raise PyRaise(web.exc_call(it, web.WEBEXC["HTTPUnauthorized"], [], {}))
        if r == "broken":
            it.raise_(RuntimeError, "no")
        return user if r == "user" else (user, context)

    resp = v.fake("Response", set_cookie=v.native(lambda it, a, k: st["cookies"].append((a, k))), headers=v.pydict({}), __bool__=True)

    def handler(it, a, k):
        st["handled"].append(it.resolve(it.getitem(a[0], "user")) if hk("user") in store.d else None)
        if v.choose("answers", "raises") == "raises":
            raise PyRaise(web.exc_call(it, web.WEBEXC["HTTPNotFound"], [], {}))
        return resp

    def cookie_get(it, a, k):
        if ctx.branch(v.eq(a[0], cname)):
            return sent
        return SStr(ctx.fresh("foreign_cookie", STR))

    req = v.fake(
        "Request", cookies=v.fake("Cookies", get=v.native(cookie_get)), headers=v.fake("H", get=v.native(lambda it, a, k: v.str("header"))),
        __getitem__=v.native(lambda it, a, k: it.getitem(store, a[0])), __setitem__=v.native(lambda it, a, k: it.setitem(store, a[0], a[1])),
        get=v.native(lambda it, a, k: it.resolve(store.d[hk(a[0])][1]) if hk(a[0]) in store.d else None),
    )

    def pre(it, a, k):
        st["pre"].append(it.resolve(a[-1]) if len(a) > 2 else None)

    o = v.obj(AU + ".Authenticator", cookie_name=cname, cache_max_age=v.int("max_age"), cache=v.fake("UserCache", get=v.native(c_get), put=v.native(c_put)), authenticate=v.afn(auth), pre_response=v.afn(pre))
    v.case(lambda ev: {"kind": "handle"})
    out = v.run(AU + ".Authenticator.authenticate_and_handle", o, req, v.afn(handler))
    s = it.resolve(sent)
    for c in st["asked"]:
        if c is not None:
            v.prove("session-cookie-of-this-gateway", z3.BoolVal(s is not None) if s is None else v.eq(c, s))
    ok = st["hit"] is not None or st["auth"] in ("user", "user-and-context")
    v.prove("refused-unless-authenticated", z3.BoolVal(ok or (out.kind == "raise" and not st["handled"] and not st["cookies"])))
    v.prove("handled-at-most-once", z3.BoolVal(len(st["handled"]) <= 1))
    want = user if st["auth"] in ("user", "user-and-context") else cached_user if st["hit"] is not None else None
    for u in st["handled"]:
        v.cover("handled")
        v.prove("handled-as-the-verified-user", z3.BoolVal(u is not None and u is want))
    if ok:
        v.prove("verified-requests-are-handled", z3.BoolVal(len(st["handled"]) == 1))
    for u in st["put"]:
        v.prove("session-for-the-verified-user", z3.BoolVal(st["auth"] in ("user", "user-and-context") and u is user))
    for a, k in st["cookies"]:
        v.prove("sends-only-the-issued-cookie", z3.And(v.eq(a[0], cname), v.eq(a[1] if len(a) > 1 else k.get("value"), v.str("issued_cookie"))) if st["put"] else z3.BoolVal(False))
    if st["auth"] == "user-and-context" and out.ok:
        v.prove("context-passed-on", z3.BoolVal(st["pre"] == [it.resolve(context)]))
    v.expect_covers("handled")


# -------------------------------------------------------------- basic password


def hdr_request(v):
    hdr = v.dyn("authorization", [("absent", None), ("present", v.str("header"))])
    req = v.fake("Request", headers=v.fake("Headers", get=v.native(lambda it, a, k: hdr if a[0] == "Authorization" else v.str("other_header"))))
    return hdr, req


def is_401(v, exc):
    return exc.cls is web.WEBEXC["HTTPUnauthorized"]


@contract("C03", AU + ".SimpleAuthenticator.authenticate", "simple", assumes=[HEADER, "base64.b64decode and ascii decoding: a function of the encoded text, or ValueError"])
def simple(v):
    it, ctx = v.it, v.ctx
    hdr, req = hdr_request(v)
    S = z3.StringVal
    u, p2, junk = z3.String("text_user"), z3.String("text_password"), z3.String("text")
    v.assume(z3.Not(z3.Contains(u, S(":"))))
    v.assume(z3.Not(z3.Contains(junk, S(":"))))
    okdec = z3.Function("b64_valid", STR, z3.BoolSort())
    pw = v.dyn("password", [("unset", None), ("set", v.str("pw"))])
    st = {"key": None, "colon": None}

    def dec(it, a, k):
        key = it.resolve(a[0])
        st["key"] = key

        def text(it, a2, k2):
            if st["colon"] is None:
                st["colon"] = v.choose("user:password", "no colon") == "user:password"
            return SStr(z3.Concat(u, S(":"), p2)) if st["colon"] else SStr(junk)

        if not ctx.branch(okdec(key.t)):
            it.raise_(ValueError, "invalid base64")
        return v.fake("bytes", decode=v.native(text))

    it.lib["base64.b64decode"] = dec
    o = v.obj(AU + ".SimpleAuthenticator", password=pw)
    v.case(lambda ev: {"kind": "simple"})
    out = v.run(AU + ".SimpleAuthenticator.authenticate", o, req)
    h, p = it.resolve(hdr), it.resolve(pw)
    if out.ok:
        v.cover("accepted")
        if h is None or st["key"] is None or not st["colon"]:
            v.unreachable("needs-basic-credentials")
            return
        v.prove("needs-basic-credentials", h.t == z3.Concat(S("Basic "), st["key"].t))
        v.prove("the-user-named-in-the-credentials", v.eq(out.val.attrs["name"], SStr(u)))
        if p is not None:
            v.prove("password-matches", z3.Or(p.t == S(""), p2 == p.t))
        v.prove("no-admin", z3.Not(it.truth_term(out.val.attrs["admin"])))
    else:
        if h is None:
            v.prove("401-without-credentials", z3.BoolVal(is_401(v, out.val)))
            return
        if st["key"] is None:
            k = v.ctx.fresh("any_key", STR)
            v.prove("basic-credentials-are-read", z3.Not(z3.And(h.t == z3.Concat(S("Basic "), k))))
            return
        if st["colon"]:
            v.prove("right-password-accepted", z3.BoolVal(False) if p is None else p2 != p.t)
    v.expect_covers("accepted")


# -------------------------------------------------------------------- kerberos


@contract("C03", AU + ".KerberosAuthenticator.authenticate", "kerberos", assumes=[HEADER, "pykerberos: authGSSServerStep completes only for a valid token, authGSSServerUserName then names the authenticated principal"])
def kerberos(v):
    it, ctx = v.it, v.ctx
    hdr, req = hdr_request(v)
    DONE = 1
    ERR = ExtV("kerberos.GSSError")
    context = v.opaque("gss")
    st = {"init": False, "step": None, "name": False, "clean": 0, "resp": False}

    def mk(name, fn):
        def f(it, a, k):
            if v.choose("ok", "error") == "error":
                raise PyRaise(it.make_exc(ERR, name))
            return fn(a)

        it.lib["kerberos." + name] = f

    def rc():
        return DONE if v.choose("complete", "continue") == "complete" else 0

    def init(a):
        r = rc()
        st["init"] = r == DONE
        v.prove("the-configured-service", v.eq(a[0], v.str("service")))
        return (r, context)

    def step(a):
        v.prove("steps-on-its-context", z3.BoolVal(it.resolve(a[0]) is context))
        r = rc()
        st["step"] = (r == DONE, it.resolve(a[1]))
        return r

    def resp(a):
        st["resp"] = True
        return v.str("gss_key")

    def uname(a):
        st["name"] = it.resolve(a[0]) is context
        return v.str("principal")

    def clean(it, a, k):
        st["clean"] += 1
        v.prove("cleans-its-context", z3.BoolVal(it.resolve(a[0]) is context))
        return DONE

    mk("authGSSServerInit", init)
    mk("authGSSServerStep", step)
    mk("authGSSServerResponse", resp)
    mk("authGSSServerUserName", uname)
    it.lib["kerberos.authGSSServerClean"] = clean
    it.lib["kerberos.AUTH_GSS_COMPLETE"] = DONE
    from pyvc.libs import noop_log

    o = v.obj(AU + ".KerberosAuthenticator", service_name=v.str("service"), keytab=v.str("keytab"), log=noop_log())
    v.case(lambda ev: {"kind": "kerberos"})
    out = v.run(AU + ".KerberosAuthenticator.authenticate", o, req)
    h = it.resolve(hdr)
    S = z3.StringVal
    done = st["init"] and st["step"] is not None and st["step"][0]
    if out.ok:
        v.cover("accepted")
        v.prove("only-after-a-completed-exchange", z3.BoolVal(done and st["name"]))
        if not done or h is None:
            return
        v.prove("token-of-this-request", h.t == z3.Concat(S("Negotiate "), st["step"][1].t))
        u, key = it.resolve(out.val)
        name, pr = it.resolve(u).attrs["name"], z3.String("principal")
        name = it.resolve(name)
        v.prove("the-authenticated-principal", z3.And(z3.Not(z3.Contains(name.t, S("@"))), z3.Or(name.t == pr, z3.PrefixOf(z3.Concat(name.t, S("@")), pr))))
        v.prove("answer-token-returned", v.eq(key, v.str("gss_key")))
    elif h is None:
        v.prove("401-without-credentials", z3.BoolVal(is_401(v, out.val)))
    v.prove("context-always-released", z3.BoolVal(st["clean"] <= 1))
    v.expect_covers("accepted")


# ------------------------------------------------------------------ jupyterhub


def hub_world(v, tag=""):
    it, ctx = v.it, v.ctx
    hdr, req = hdr_request(v)
    status = v.int("status" + tag, 100, 599)
    name = v.str("hub_name" + tag)
    kind = v.dyn("kind" + tag, [("user", "user"), ("service", "service")])
    sort = ref_sort("Scope")
    scopes = v.dyn("scopes" + tag, [("absent", None), ("given", None)])
    n = z3.Int("nscopes" + tag)
    at = z3.Function("scope" + tag, z3.IntSort(), STR)
    v.assume(n >= 0)
    given = VList([SSeq(n, lambda i: SStr(at(i)))])
    need = v.bool("use_service_access_scopes")
    calls = []
    has_groups = v.choose("user fields", "service fields") == "user fields"
    has_scopes = v.choose("scopes", "no scopes") == "scopes"
    data = {"name": name, "kind": kind}
    if has_groups:
        data["groups"] = VList([])
        data["admin"] = v.bool("hub_admin")
    if has_scopes:
        data["scopes"] = given

    def get(it, a, k):
        calls.append((a[0], k))
        r = v.choose("answer", "unreachable")
        if r == "unreachable":
            calls[0] = calls[0] + (True,)
            it.raise_(OSError, "connection refused")
        return v.fake("Resp", status=status, reason="x", json=v.afn(lambda *a: v.pydict(data)))

    from pyvc.libs import noop_log

    o = v.obj(
        AU + ".JupyterHubAuthenticator", jupyterhub_api_url=v.str("hub_url"), ssl_context=v.opaque("ssl"), use_service_access_scopes=need,
        jupyterhub_service_name=v.str("service_name"), session=v.fake("Session", get=v.afn(get)), log=noop_log(), jupyterhub_api_token=v.str("hub_token"),
    )
    return dict(hdr=hdr, req=req, status=status, name=name, kind=kind, n=n, at=at, has_scopes=has_scopes, need=need, calls=calls, o=o)


def has_scope(v, w, i=None):
    """Some scope (or the i-th one) opens the service."""
    one = i is not None
    i = z3.Int("scope_i") if i is None else i
    if not w["has_scopes"]:
        return z3.BoolVal(False)
    ok = z3.Concat(z3.StringVal("access:services!service="), z3.String("service_name"))
    g = z3.And(i >= 0, i < w["n"], z3.Or(w["at"](i) == z3.StringVal("access:services"), w["at"](i) == ok))
    return g if one else z3.Exists([i], g)


@contract("C03", AU + ".JupyterHubAuthenticator.authenticate", "jupyterhub", assumes=[HEADER, "the hub's /user endpoint answers below 400 only for a valid token and then names its owner; kind is 'user' or 'service'"])
def jupyterhub(v):
    it, ctx = v.it, v.ctx
    w = hub_world(v)
    v.case(lambda ev: {"kind": "hub"})
    out = v.run(AU + ".JupyterHubAuthenticator.authenticate", w["o"], w["req"])
    h = it.resolve(w["hdr"])
    S = z3.StringVal
    stt = w["status"].t
    if len(w["calls"]) != 1:
        v.prove("asks-the-hub-once", z3.BoolVal(not w["calls"] and out.kind == "raise"))
        k = ctx.fresh("any_token", STR)
        if h is None:
            v.prove("401-without-credentials", z3.BoolVal(out.kind == "raise" and is_401(v, out.val)))
        else:
            v.prove("hub-tokens-are-checked", h.t != z3.Concat(S("jupyterhub "), k))
        return
    url, kw = w["calls"][0][:2]
    v.prove("asks-the-configured-hub", v.eq(url, SStr(z3.Concat(z3.String("hub_url"), S("/user")))))
    hd = it.resolve(kw.get("headers"))
    auth = it.resolve(it.getitem(hd, "Authorization")) if isinstance(hd, VDict) and hk("Authorization") in hd.d else None
    if auth is None or h is None:
        v.unreachable("sends-the-token-of-this-request")
        return
    tk = ctx.fresh("tk", STR)
    v.assume(auth.t == z3.Concat(S("token "), tk)) if ctx.branch(z3.PrefixOf(S("token "), auth.t)) else v.unreachable("sends-the-token-of-this-request")
    v.prove("sends-the-token-of-this-request", h.t == z3.Concat(S("jupyterhub "), tk))
    v.prove("verifies-the-hub", z3.BoolVal(it.resolve(kw.get("ssl")) is it.resolve(w["o"].attrs["ssl_context"])))
    sc = has_scope(v, w)
    if out.ok:
        v.cover("accepted")
        v.prove("only-if-the-hub-confirms", stt < 400)
        v.prove("only-with-the-access-scope", z3.Implies(w["need"].t, sc))
        u = it.resolve(out.val)
        kind = it.resolve(w["kind"])
        nm = it.resolve(u.attrs["name"])
        nm = nm.t if isinstance(nm, SStr) else S(nm)
        hub = w["name"].t
        plain = z3.And(z3.BoolVal(kind == "user"), z3.Not(z3.Contains(hub, S(":"))))
        v.prove("users-keep-their-name", z3.Implies(plain, nm == hub))
        v.prove("services-cannot-be-users", z3.Implies(z3.Not(plain), nm == z3.Concat(S(kind + ":"), hub)))
    else:
        i = ctx.fresh("any_scope", z3.IntSort())
        ctx.know("Int", i)
        sc = has_scope(v, w, i)
        v.prove("confirmed-identities-accepted", z3.Or(stt >= 400, z3.And(w["need"].t, z3.Not(sc)), z3.BoolVal(len(w["calls"][0]) == 3)))
    v.expect_covers("accepted")


@contract("C03", "lemma", "identities_are_distinct")
def distinct(v):
    """The naming rule proved of authenticate above is injective."""
    S = z3.StringVal

    def ident(i):
        hub, svc = z3.String(f"name{i}"), z3.Bool(f"service{i}")
        plain = z3.And(z3.Not(svc), z3.Not(z3.Contains(hub, S(":"))))
        return hub, svc, z3.If(plain, hub, z3.Concat(z3.If(svc, S("service:"), S("user:")), hub))

    (h1, s1, n1), (h2, s2, n2) = ident(1), ident(2)
    for b1 in (False, True):
        for b2 in (False, True):
            v.prove("different-identities-get-different-names", z3.Implies(z3.And(s1 == b1, s2 == b2, n1 == n2), z3.And(h1 == h2, s1 == s2)))
    v.prove("a-service-never-gets-a-user-name", z3.Implies(z3.And(s1, z3.Not(s2)), n1 != n2))


@contract("C03", AU + ".JupyterHubAuthenticator._default_use_service_access_scopes", "scope_default", assumes=["scopes are enforced by default once the service name is known (documented)"])
def scope_default(v):
    from pyvc.libs import noop_log

    nm = v.str("service_name")
    o = v.obj(AU + ".JupyterHubAuthenticator", jupyterhub_service_name=nm, log=noop_log())
    out = v.run(AU + ".JupyterHubAuthenticator._default_use_service_access_scopes", o)
    if v.ok_or(out, "no-exception"):
        v.prove("scopes-required-when-service-is-named", z3.Implies(nm.t != z3.StringVal(""), v.it.truth_term(out.val)))
