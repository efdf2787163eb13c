"""The REST API: every registered route, run with an arbitrary request, user,
set of clusters and credentials, against the contracts of the authenticator
(C03) and of the backend (C06-C10, C19)."""
import ast

import z3

from pyvc import web
from pyvc.verify import *

R = "dask_gateway_server.routes"
MC = "dask_gateway_server.models.Cluster"
PE = "dask_gateway_server.backends.base.PublicException"
MCS = ref_sort("MCluster")

PUBLIC = {("GET", "/api/health"), ("GET", "/api/version")}
P1 = "/api/v1/clusters/"
PN = "/api/v1/clusters/{cluster_name}"
KNOWN = [
    ("GET", "/api/health"), ("GET", "/api/version"), ("GET", "/api/v1/options"), ("GET", P1), ("POST", P1), ("GET", PN),
    ("DELETE", PN), ("POST", PN + "/scale"), ("POST", PN + "/adapt"), ("POST", PN + "/heartbeat"),
]
TOKEN_OK = {("DELETE", PN): "stop", ("POST", PN + "/heartbeat"): "heartbeat"}

# clause -> properties (everything else: all users of the world)
C2 = ["C02"]
OWNERS = {
    "nothing-without-credentials": C2, "refused-without-credentials": C2, "401-unless-malformed": C2, "public-endpoints-touch-nothing": C2,
    "token-opens-only-its-own-cluster": C2, "heartbeat-needs-the-token": C2, "token-opens-its-cluster": C2, "not-refused-with-credentials": C2,
    "count-within-limit": ["C04"], "bounds-within-limit": ["C04"], "count-non-negative-integer": ["C04"], "rejects-bad-counts": ["C04"],
    "allowed-count-unchanged": ["C04"], "clamped-to-the-limit": ["C04"], "clamping-is-reported": ["C04"], "allowed-bounds-unchanged": ["C04"],
    "scheduler-failure-is-reported": ["C26"], "success-only-when-delivered": ["C26"], "forwards-to-that-cluster": ["C01", "C26"],
}


class Api:
    def __init__(self, v, endpoint):
        self.v, self.it, self.ctx = v, v.it, v.ctx
        self.method, self.path = endpoint
        it, ctx = v.it, v.ctx
        self.MS = it.get_class("dask_gateway_server.models.ClusterStatus")
        self.log = []  # (kind, ..., authed, tokened)
        self.authed = False
        self.token_read = None
        self.uname = v.str("user")
        self.user = v.obj("dask_gateway_server.models.User", name=self.uname, groups=VSet([]), admin=v.bool("admin"))
        self.cname = v.str("cluster_name")
        self.owner = v.str("owner")
        self.ctoken = v.str("token")
        self.status = v.enum("status", self.MS)
        self.maxw = v.dyn("max_workers", [("none", None), ("int", v.int("limit"))])
        v.assume(z3.Int("limit") >= 0)
        self.exists = []  # answer of each lookup
        self.cluster = v.obj(
            MC, name=self.cname, username=self.owner, token=self.ctoken, options=v.opaque("options"), config=v.mdict(cluster_max_workers=self.maxw),
            status=self.status, scheduler_address=v.str("saddr"), dashboard_address=v.str("daddr"), api_address=v.str("aaddr"),
            tls_cert=SBytes(z3.String("cert")), tls_key=SBytes(z3.String("key")), start_time=v.dyn("start_time", [("none", None), ("int", v.int("st"))]),
            stop_time=v.dyn("stop_time", [("none", None), ("int", v.int("et"))]),
        )
        self.secret = [self.owner.t, self.ctoken.t, z3.String("saddr"), z3.String("daddr"), z3.String("aaddr"), z3.String("cert"), z3.String("key"), z3.Const("options", ref_sort("Val")), self.status.t, z3.Int("st"), z3.Int("et"), z3.Int("limit")]
        self.mk_list()
        self.fails = {}
        pe = it.get_class(PE)

        def maybe_fail(what):
            if v.choose("ok", "refused") == "refused":
                self.fails[what] = True
                raise PyRaise(it.make_exc(pe, SStr(z3.String("why_" + what))))

        def b_get(it2, a, k):
            self.note("get", a[0])
            if not v.ctx.branch(v.eq(a[0], self.cname)):
                it.unsupported("lookup of another cluster")
            r = v.choose("found", "missing") == "found"
            self.exists.append(r)
            return self.cluster if r else None

        def b_list(it2, a, k):
            u = k.get("username", a[0] if a else None)
            s = k.get("statuses", a[1] if len(a) > 1 else None)
            self.note("list", u, s)
            return VList([Part(("MCluster",), lambda x: self.listed(x), lambda x: SRef(self.mc, x))])

        def b_start(it2, a, k):
            self.note("start", a[0], a[1])
            maybe_fail("start")
            return SStr(z3.String("new_name"))

        def b_stop(it2, a, k):
            self.note("stop", a[0], k.get("failed", a[1] if len(a) > 1 else False))

        def b_fwd(it2, a, k):
            self.note("forward", a[0], a[1])
            maybe_fail("forward")

        def b_hb(it2, a, k):
            self.note("heartbeat", a[0], a[1])
            maybe_fail("heartbeat")

        def b_opts(it2, a, k):
            self.note("options", a[0])
            return v.fake("Options", get_specification=v.native(lambda *a: v.opaque("spec")))

        self.backend = v.fake("Backend", get_cluster=v.afn(b_get), list_clusters=v.afn(b_list), start_cluster=v.afn(b_start), stop_cluster=v.afn(b_stop),
                              forward_message_to_scheduler=v.afn(b_fwd), on_cluster_heartbeat=v.afn(b_hb), get_cluster_options=v.afn(b_opts))

        def do_auth(it2, a, k):
            """Contract of authenticate_and_handle (C03)."""
            req, handler = a
            self.auth_asked = True
            if v.choose("user-ok", "user-refused") == "user-refused":
                raise PyRaise(web.exc_call(it, web.WEBEXC["HTTPUnauthorized"], [], {"headers": v.pydict({"WWW-Authenticate": "Basic"})}))
            self.authed = True
            it.setitem(req, "user", self.user)
            try:
                r = it.call(handler, [req])
                return it.await_(r) if isinstance(r, Coro) else r
            finally:
                self.authed = False

        self.auth_asked = False
        gw = v.fake("Gateway", health=v.afn(lambda *a: v.pydict({"status": v.str("health")})), version_info=v.native(lambda *a: v.pydict({"version": "x"})))
        from pyvc.libs import noop_log

        self.app = v.pydict({"gateway": gw, "backend": self.backend, "authenticator": v.fake("Auth", authenticate_and_handle=v.afn(do_auth)), "log": noop_log()})
        self.hdr = v.dyn("authorization", [("absent", None), ("present", v.str("header"))])
        self.mk_body()
        self.wait = v.dyn("wait", [("absent", None), ("empty", ""), ("1", "1"), ("0", "0"), ("junk", "junk")])
        self.sel = v.dyn("status_query", [("absent", None), ("given", v.str("statuses"))])
        store = VDict()
        self.store = store
        q = lambda f: v.fake("Query", get=v.native(f))
        self.request = v.fake(
            "Request", app=self.app, headers=q(lambda it, a, k: self.hdr if a[0] == "Authorization" else None), match_info=v.pydict({"cluster_name": self.cname}),
            query=q(lambda it, a, k: {"wait": self.wait, "status": self.sel}.get(a[0])), cookies=v.pydict({}), json=v.afn(lambda *a: self.body),
            path=v.str("path"), method=self.method,
            __getitem__=v.native(lambda it, a, k: it.getitem(store, a[0])), __setitem__=v.native(lambda it, a, k: it.setitem(store, a[0], a[1])),
        )
        v.case(self.case)

    def case(self, ev):
        return {
            "kind": "api", "method": self.method, "path": self.path, "user": ev(self.uname), "owner": ev(self.owner), "name": ev(self.cname),
            "token": ev(self.ctoken), "status": ev(self.status), "limit": ev(self.maxw), "auth": ev(self.hdr), "exists": list(self.exists),
            "count": ev(self.count), "minimum": ev(self.minimum), "maximum": ev(self.maximum), "shape": self.shape, "user_ok": bool(self.authed_ever), "statuses": ev(self.sel),
        }

    authed_ever = False

    def mk_list(self):
        v, ctx, it = self.v, self.ctx, self.it
        self.mc = it.get_class(MC)
        F = lambda n, ty: Store(ctx, "M." + n, [MCS], ty)
        f = self.f = {
            "name": F("name", TStr()), "username": F("username", TStr()), "token": F("token", TStr()), "options": F("options", TOpaque("value")),
            "status": F("status", TEnum(self.MS)), "dashboard_address": F("daddr", TStr()), "tls_cert": F("cert", TBytes()), "tls_key": F("key", TBytes()),
            "start_time": F("st", TOpt(TInt())), "stop_time": F("et", TOpt(TInt())), "scheduler_address": F("saddr", TStr()), "api_address": F("aaddr", TStr()),
        }
        for n, s in f.items():
            it.fields[("Cluster", n)] = s
        lf = z3.Function("listed", MCS, z3.BoolSort())
        self.listed = lambda x: lf(x)

    def mk_body(self):
        v = self.v
        self.shape = None

        class LazyBody:
            pass

        if v.con.pid != "C04":
            num = lambda n: v.dyn(n, [("none", None), ("int", v.int(n + "_i")), ("nan", float("nan")), ("str", v.str(n + "_s"))])
        else:
            num = lambda n: v.dyn(n, [("none", None), ("int", v.int(n + "_i")), ("bool", v.bool(n + "_b")), ("real", v.real(n + "_r")), ("inf", float("inf")), ("ninf", float("-inf")), ("nan", float("nan")), ("str", v.str(n + "_s")), ("list", VList([1, 2]))])
        self.count, self.minimum, self.maximum = num("count"), num("minimum"), num("maximum")
        self.active = v.dyn("active", [("true", True), ("false", False), ("none", None)])
        self.opts = v.dyn("cluster_options", [("none", None), ("dict", v.pydict({"x": v.opaque("x")})), ("empty", v.pydict({}))])
        sh = {
            ("POST", PN + "/scale"): ["count"], ("POST", PN + "/adapt"): ["minimum", "maximum", "active"], ("POST", P1): ["cluster_options"],
        }.get((self.method, self.path))
        if sh is None:
            self.body = v.opaque("body")
            return
        self.shape = v.choose("full", "empty", "not-an-object")
        if self.shape == "not-an-object":
            self.body = VList([1])
        elif self.shape == "empty":
            self.body = v.pydict({})
        else:
            m = {"count": self.count, "minimum": self.minimum, "maximum": self.maximum, "active": self.active, "cluster_options": self.opts}
            self.body = v.pydict({k: m[k] for k in sh})

    # ---------------------------------------------------------------- events
    def cred(self):
        """A token header naming this cluster's token was presented."""
        h = self.it.resolve(self.hdr)
        if h is None:
            return z3.BoolVal(False)
        return h.t == z3.Concat(z3.StringVal("token "), self.ctoken.t)

    def note(self, kind, *a):
        self.log.append((kind, a, self.authed, len(self.exists)))
        if self.authed:
            self.authed_ever = True
        v = self.v
        if kind == "get":
            return
        ep = (self.method, self.path)
        tok = self.cred()
        if kind == "heartbeat":
            self.prove("heartbeat-needs-the-token", tok)
        if self.authed:
            self.prove("nothing-without-credentials", z3.BoolVal(kind != "heartbeat"))
            if kind in ("stop", "forward"):
                self.prove("acts-only-on-own-clusters", self.owner.t == self.uname.t)
        else:
            self.prove("nothing-without-credentials", tok)
            self.prove("token-opens-only-its-own-cluster", z3.And(z3.BoolVal(TOKEN_OK.get(ep) == kind), self.eq(a[0], self.cname) if kind in ("stop", "heartbeat") else z3.BoolVal(False)))
        if kind == "stop":
            self.prove("stops-the-named-cluster", z3.And(self.eq(a[0], self.cname), self.eq(a[1], False)))
        if kind == "forward":
            self.prove("forwards-to-that-cluster", z3.BoolVal(self.it.resolve(a[0]) is self.cluster))
        if kind in ("start", "options"):
            self.prove("starts-for-the-requesting-user", z3.BoolVal(self.it.resolve(a[0]) is self.user))
        if kind == "list":
            self.prove("lists-own-clusters-only", self.eq(a[0], self.uname))

    def eq(self, a, b):
        try:
            return self.v.eq(a, b)
        except Unsupported:
            return z3.BoolVal(False)

    def prove(self, clause, goal):
        if self.v.con.pid in OWNERS.get(clause, ["C01"]):
            self.v.prove(clause, goal)


def table(v):
    """Every decorated function of the module, registered as aiohttp does."""
    it = v.it
    m = it.repo.load(R)
    for n in m.tree.body:
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.decorator_list:
            it.global_lookup(m, n.name)
    return it.global_lookup(m, "default_routes").attrs["table"].items


def outcome(api, handler):
    """(status, body or reason, raised)"""
    v = api.v
    out = v.attempt(lambda: v.it.call(handler, [api.request]))
    v.rep.paths += 1
    if v.ctx.check() == z3.unsat:
        raise Infeasible
    if out.kind == "raise":
        st = out.val.attrs.get("status") if issubclass(out.val.cls, web.HTTPException) and isinstance(out.val.cls, type) else 500
        return st, None, out.val
    r = out.val
    if not isinstance(r, Obj) or "status" not in r.attrs:
        v.it.unsupported("response")
    return r.attrs["status"], r.attrs["body"], None


def secrets_in(api, val, acc=None, depth=0):
    """Symbols of the looked-up cluster's record inside a value."""
    acc = set() if acc is None else acc
    if depth > 8:
        return acc
    if isinstance(val, Dyn):
        return secrets_in(api, val.chosen[1], acc, depth + 1) if val.chosen else secrets_in(api, [x[2]() if callable(x[2]) else x[2] for x in val.alts], acc, depth + 1)
    if isinstance(val, z3.ExprRef):
        from pyvc.generic import consts_of

        ids = consts_of(val)
        for s in api.secret:
            if s.get_id() in ids:
                acc.add(str(s))
    elif isinstance(val, SOpt):
        secrets_in(api, val.val, acc, depth + 1)
    elif isinstance(val, (list, tuple)):
        for x in val:
            secrets_in(api, x, acc, depth + 1)
    elif isinstance(val, (VList, VSet)):
        secrets_in(api, list(val.items), acc, depth + 1)
    elif isinstance(val, VDict):
        for k, x in val.d.values():
            secrets_in(api, (k, x), acc, depth + 1)
        for p in val.parts:
            pass
    elif isinstance(val, Obj):
        if val is api.cluster:
            acc.add("cluster")
        elif "args" in val.attrs:
            secrets_in(api, val.attrs["args"], acc, depth + 1)
    elif hasattr(val, "t") and isinstance(val.t, z3.ExprRef):
        secrets_in(api, val.t, acc, depth + 1)
    return acc


def check_body(api, d, get, cover):
    """d: the returned dictionary describes the cluster whose attributes get()
    returns, as documented."""
    v, it = api.v, api.it
    d = it.resolve(d)
    if not isinstance(d, VDict) or d.parts:
        it.unsupported("cluster details")
    running = z3.BoolVal(False)
    st = get("status")
    RUN = api.MS.enum["RUNNING"]
    running = api.eq(st, RUN)
    have = {k: x for k, x in d.d.values()}
    api.prove("details-have-all-fields", z3.BoolVal(set(have) == {"name", "dashboard_route", "status", "start_time", "stop_time", "options", "tls_cert", "tls_key"}))
    if not set(have) >= {"name", "status", "options", "tls_cert", "tls_key", "start_time", "stop_time", "dashboard_route"}:
        return
    for n in ("name", "options", "start_time", "stop_time"):
        api.prove(f"details-{n}", api.eq(have[n], get(n)))
    for n in ("tls_cert", "tls_key"):
        x = it.resolve(have[n])
        want = get(n)
        api.prove("tls-credentials-only-when-running", z3.Implies(z3.Not(running), z3.BoolVal(x is None)))
        api.prove("tls-credentials-of-that-cluster", z3.Implies(running, api.eq(x, SStr(it.sterm(want) if not isinstance(want, SBytes) else want.t)) if x is not None else z3.BoolVal(False)))
    sv = it.resolve(have["status"])
    if isinstance(sv, str):
        m = api.MS.enum.get(sv)
        api.prove("details-status", api.eq(st, m) if m is not None else z3.BoolVal(False))
    else:
        api.prove("details-status", z3.And([z3.Implies(api.eq(st, m), api.eq(sv, n)) for n, m in api.MS.enum.items()]))
    dr = it.resolve(have["dashboard_route"])
    da = api.eq(get("dashboard_address"), "")
    api.prove("details-dashboard", z3.And(running, z3.Not(da)) == z3.BoolVal(dr is not None) if dr is None or not is_sym(dr) else z3.And(running, z3.Not(da), api.eq(dr, SStr(z3.Concat(z3.StringVal("/clusters/"), it.sterm(get("name")), z3.StringVal("/status"))))))


def run_endpoint(v, ep):
    api = Api(v, ep)
    it = v.it
    ent = [e for e in table(v) if (e[0], e[1]) == ep]
    if len(ent) != 1:
        api.prove("endpoint-exists", z3.BoolVal(False))
        return
    st, body, exc = outcome(api, ent[0][2])
    ok = exc is None and isinstance(st, int) and st < 400
    acts = [e for e in api.log if e[0] != "get"]
    kinds = [e[0] for e in acts]
    h = it.resolve(api.hdr)
    own = api.owner.t == api.uname.t
    A = api.authed_ever or api.store.d.get(hk("user"), (None, None))[1] is api.user
    tokuser = hk("user") in api.store.d and api.store.d[hk("user")][1] is None
    v.cover("answers")
    # -------------------------------------------------- credentials (C02)
    if ep in PUBLIC:
        api.prove("public-endpoints-touch-nothing", z3.BoolVal(not api.log))
        api.prove("not-refused-with-credentials", z3.BoolVal(exc is None))
        return
    good = z3.BoolVal(True) if A else (z3.And(api.cred(), z3.BoolVal(ep in TOKEN_OK and bool(api.exists) and api.exists[0])))
    if not isinstance(st, int):
        it.unsupported("status")
    api.prove("refused-without-credentials", z3.Or(good, z3.BoolVal(exc is not None or st >= 400)))
    wellformed = z3.BoolVal(True) if h is None else z3.Or(z3.Contains(h.t, z3.StringVal(" ")), h.t == z3.StringVal(""))
    api.prove("401-unless-malformed", z3.Or(good, z3.BoolVal(st == 401), z3.Not(wellformed)))
    if A or tokuser:
        api.prove("not-refused-with-credentials", z3.BoolVal(st != 401))
    if ep in TOKEN_OK and not A:
        api.prove("token-opens-its-cluster", z3.Implies(z3.And(good, z3.BoolVal(all(api.exists))), z3.BoolVal(kinds == [TOKEN_OK[ep]])))
    if not A:
        # token or nothing
        if ep == ("POST", PN + "/heartbeat") and kinds == ["heartbeat"]:
            api.prove("scheduler-failure-is-reported", z3.BoolVal(True))
            api.prove("heartbeat-passed-on", z3.BoolVal(it.resolve(acts[0][1][1]) is api.body))
        return
    # ------------------------------------------------- authorisation (C01)
    leak = secrets_in(api, body) | (secrets_in(api, [exc.attrs.get("reason"), exc.attrs.get("args")]) if exc is not None else set())
    api.prove("reveals-nothing-of-other-users-clusters", z3.Implies(z3.Not(own), z3.BoolVal(not leak)))
    found = api.exists[-1] if api.exists else None
    if ep[1].startswith(PN):
        v.cover("by-user")
        if found is False:
            api.prove("unknown-cluster-answered", z3.BoolVal((st == 404 or (ep[0] == "DELETE" and st == 204)) and not acts))
        elif found:
            api.prove("others-clusters-are-forbidden", z3.Implies(z3.Not(own), z3.BoolVal(st == 403 and not acts)))
            api.prove("own-clusters-are-not-forbidden", z3.Implies(own, z3.BoolVal(st != 403)))
        else:
            api.prove("cluster-looked-up", z3.BoolVal(False))
    if ep == ("GET", PN) and found:
        api.prove("details-of-own-cluster", z3.Implies(own, z3.BoolVal(st == 200)))
        if st == 200:
            check_body(api, body, lambda n: api.cluster.attrs[n], "get")
    if v.con.pid != "C01":
        if ep[1] in (PN + "/scale", PN + "/adapt") and found:
            check_scaling(api, st, body, exc, acts, own)
        return
    if ep == ("GET", P1):
        check_list(api, st, body, exc, acts)
    if ep == ("POST", P1):
        if kinds:
            api.prove("creates-one-cluster", z3.BoolVal(kinds == ["start"]))
            o = it.resolve(acts[0][1][1])
            sent = it.resolve(api.opts) if api.shape == "full" else None
            api.prove("options-are-the-ones-sent", z3.BoolVal(o is sent or (isinstance(o, VDict) and not o.d and not o.parts and (sent is None or not sent.d))))
        if api.fails.get("start"):
            api.prove("refusal-reported", z3.BoolVal(st == 422))
        elif st < 400:
            api.prove("name-of-the-new-cluster", z3.And(z3.BoolVal(st == 201), api.eq(it.getitem(body, "name"), SStr(z3.String("new_name")))))
        else:
            api.prove("valid-request-accepted", z3.BoolVal(api.shape == "not-an-object"))
    if ep == ("DELETE", PN) and found:
        api.prove("stops-own-cluster", z3.Implies(own, z3.BoolVal(kinds == ["stop"] and st == 204)))
    if ep[1] in (PN + "/scale", PN + "/adapt") and found:
        check_scaling(api, st, body, exc, acts, own)


def check_list(api, st, body, exc, acts):
    v, it, ctx = api.v, api.it, api.ctx
    sel = it.resolve(api.sel)
    if st >= 400:
        api.prove("only-bad-statuses-rejected", z3.BoolVal(st == 422 and sel is not None and not acts))
        if sel is not None:
            # some requested status is unknown
            up = z3.Function("str_upper_", z3.StringSort(), z3.StringSort())
            n = z3.Function("split[,]#", z3.StringSort(), z3.IntSort())(sel.t)
            at = z3.Function("split[,]", z3.StringSort(), z3.IntSort(), z3.StringSort())
            i = z3.Int("bad_i")
            bad = z3.Exists([i], z3.And(i >= 0, i < n, z3.And([up(at(sel.t, i)) != z3.StringVal(m) for m in api.MS.enum])))
            api.prove("known-statuses-accepted", bad)
        return
    api.prove("listing-answers", z3.BoolVal([e[0] for e in acts] == ["list"] and st == 200))
    if [e[0] for e in acts] != ["list"]:
        return
    sts = it.resolve(acts[0][1][1])
    if sel is None:
        api.prove("lists-requested-statuses", z3.BoolVal(sts is None))
    elif not isinstance(sts, (VList, tuple)):
        api.prove("lists-requested-statuses", z3.BoolVal(False))
    else:
        # x is requested iff it is among the statuses passed on
        up = z3.Function("str_upper_", z3.StringSort(), z3.StringSort())
        n = z3.Function("split[,]#", z3.StringSort(), z3.IntSort())(sel.t)
        at = z3.Function("split[,]", z3.StringSort(), z3.IntSort(), z3.StringSort())
        i = ctx.fresh("req_i", z3.IntSort())
        ctx.know("Int", i)
        for nm, m in api.MS.enum.items():
            want = z3.And(i >= 0, i < n, up(at(sel.t, i)) == z3.StringVal(nm))
            c = it.contains(sts, m)
            c = z3.BoolVal(c) if isinstance(c, bool) else c.t if isinstance(c, SBool) else c
            api.prove("requested-statuses-are-listed", z3.Implies(want, c))
            j = z3.Int("has_j")
            api.prove("only-requested-statuses-are-listed", z3.Implies(c, z3.Exists([j], z3.And(j >= 0, j < n, up(at(sel.t, j)) == z3.StringVal(nm)))))
    d = it.resolve(body)
    if not isinstance(d, VDict):
        it.unsupported("listing")
    api.prove("lists-nothing-else", z3.BoolVal(not d.d))
    x = ctx.fresh("anyc", MCS)
    ctx.know("MCluster", x)
    have = []
    for p in d.parts:
        g = p.guard(x)
        api.prove("lists-only-what-the-backend-listed", z3.Implies(g, api.listed(x)))
        have.append(g)
    api.prove("lists-everything-the-backend-listed", z3.Implies(api.listed(x), z3.Or(have or [z3.BoolVal(False)])))
    for p in d.parts:
        m = ctx.mark()
        ctx.solver.push()
        try:
            ctx.assume(p.guard(x))
            if ctx.check() != z3.unsat:
                k, val = p.val(x)
                api.prove("listed-under-its-name", api.eq(k, api.f["name"].read(x)))
                check_body(api, val, lambda n: api.f[n].read(x), "list")
        finally:
            ctx.undo_to(m)
            ctx.solver.pop()


def nums(it, x):
    x = it.resolve(x)
    if isinstance(x, bool) or isinstance(x, (int, float)):
        return x
    return x


def check_scaling(api, st, body, exc, acts, own):
    v, it = api.v, api.it
    lim = it.resolve(api.maxw)
    kinds = [e[0] for e in acts]
    scale = api.path.endswith("/scale")
    api.prove("at-most-one-message", z3.BoolVal(kinds in ([], ["forward"])))
    if api.fails.get("forward"):
        api.prove("scheduler-failure-is-reported", z3.BoolVal(st == 409))
    api.prove("success-only-when-delivered", z3.Implies(z3.BoolVal(st < 400), z3.BoolVal(kinds == ["forward"] and not api.fails.get("forward"))))
    sent = None
    if kinds == ["forward"]:
        sent = it.resolve(acts[0][1][1])
        sent = {k: it.resolve(x) for k, x in sent.d.values()} if isinstance(sent, VDict) else {}
        api.prove("forwarded-operation", z3.BoolVal(sent.get("op") == ("scale" if scale else "adapt")))
    msg = None
    if st == 200:
        d = it.resolve(body)
        msg = it.resolve(it.getitem(d, "msg"))
        okv = it.truth_term(it.getitem(d, "ok"))
    if scale:
        c = it.resolve(api.count) if api.shape == "full" else None
        isint = isinstance(c, (int, SInt, SBool)) or isinstance(c, bool)
        T = (lambda x: z3.IntVal(int(x)) if isinstance(x, (int, bool)) else z3.If(x.t, 1, 0) if isinstance(x, SBool) else x.t)
        if api.shape == "not-an-object":
            api.prove("rejects-bad-counts", z3.BoolVal(kinds == []))
            return
        if not isint:
            api.prove("rejects-bad-counts", z3.Implies(own, z3.BoolVal(kinds == [] and st == 422)))
            return
        ct = T(c)
        api.prove("rejects-bad-counts", z3.Implies(z3.And(own, ct < 0), z3.BoolVal(kinds == [] and st == 422)))
        if sent is None:
            api.prove("valid-request-accepted", z3.Or(ct < 0, z3.Not(own)))
            return
        s = sent.get("count")
        if not isinstance(s, (int, SInt, SBool)):
            api.prove("count-non-negative-integer", z3.BoolVal(False))
            return
        s = T(s)
        api.prove("count-non-negative-integer", s >= 0)
        if lim is None:
            api.prove("allowed-count-unchanged", s == ct)
            over = z3.BoolVal(False)
        else:
            api.prove("count-within-limit", s <= lim.t)
            api.prove("allowed-count-unchanged", z3.Implies(ct <= lim.t, s == ct))
            api.prove("clamped-to-the-limit", z3.Implies(ct > lim.t, s == lim.t))
            over = ct > lim.t
    else:
        if sent is None:
            if api.shape == "empty":
                api.prove("valid-request-accepted", z3.Not(own))
            return
        over, nan = [], False
        for k, val in (("minimum", api.minimum), ("maximum", api.maximum)):
            if k not in sent:
                api.prove("bounds-within-limit", z3.BoolVal(False))
                return
            c = it.resolve(val) if api.shape == "full" else None
            s = sent[k]
            if lim is None:
                api.prove("allowed-bounds-unchanged", z3.BoolVal(s is c) if not is_sym(c) or not is_sym(s) else api.eq(s, c))
                continue
            # an absent bound means no more than the limit
            if s is None:
                api.prove("bounds-within-limit", z3.BoolVal(False))
                continue
            if isinstance(s, float) and s != s:
                api.prove("allowed-bounds-unchanged", z3.BoolVal(isinstance(c, float) and c != c))
                nan = True
                continue
            api.prove("bounds-within-limit", v.cmp("<=", s, lim))
            if c is None:
                over.append(z3.BoolVal(False))
                continue
            if isinstance(c, float) and c != c:
                # a bound that is no number may be passed on or replaced by the limit
                nan = True
                continue
            o = v.cmp(">", c, lim)
            api.prove("allowed-bounds-unchanged", z3.Implies(z3.Not(o), api.eq(s, c)))
            api.prove("clamped-to-the-limit", z3.Implies(o, api.eq(s, lim)))
            over.append(o)
        a = it.resolve(api.active) if api.shape == "full" else True
        api.prove("active-passed-on", z3.BoolVal(it.resolve(sent.get("active")) is a))
        if nan:
            return
        over = z3.Or(over or [z3.BoolVal(False)])
    if st == 200:
        api.prove("clamping-is-reported", z3.And(over == z3.BoolVal(msg is not None), okv == z3.Not(over)))


def register(pid, eps=KNOWN, extra_assumes=()):
    for ep in eps:
        def f(v, ep=ep):
            return run_endpoint(v, ep)

        nm = (ep[0] + "_" + (ep[1].rstrip("/").split("/")[-1] + ("s" if ep[1] == P1 else "")).strip("{}")).replace("clusterss", "clusters").lower()
        contract(pid, R + "." + nm, nm, weight=3, assumes=[
            "aiohttp routes a request to the handler registered for its method and path; headers, query, JSON body arbitrary",
            "the authenticator's authenticate_and_handle meets its contract (verified under C03); the backend methods called by the handlers are replaced by their contracts",
        ] + list(extra_assumes))(f)

    @contract(pid, R, "route_table")
    def route_table(v):
        """No endpoint outside the ones under contract."""
        t = table(v)
        v.prove("every-endpoint-is-under-contract", z3.BoolVal(sorted((e[0], e[1]) for e in t) == sorted(KNOWN)))
