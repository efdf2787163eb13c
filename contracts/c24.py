"""C24: the client."""
import asyncio

import z3

from pyvc import web  # noqa: F401
from pyvc.libs import noop_log
from pyvc.verify import *
from .c25 import at, same
from .loops import StopBody, WhileInv, run

M = "dask_gateway.client."
G, GC, CS = M + "Gateway", M + "GatewayCluster", M + "ClusterStatus"
AUTH, COMM = "dask_gateway.auth.", "dask_gateway.comm."
STR = z3.StringSort()
A_HTTP = ["aiohttp: session.request sends the given request and returns the server's answer, or raises; raise_for_status raises ClientResponseError iff the status is 400 or more"]
NAMES = ("PENDING", "RUNNING", "STOPPING", "STOPPED", "FAILED")


class ClientResponseError(Exception):
    pass


def path(*parts):
    return z3.Concat(*[z3.StringVal(p) if isinstance(p, str) else p for p in parts])


class Server:
    """A gateway server giving any answer; the client's session with it."""

    def __init__(self, v, body=None, wild=True, fresh=False):
        self.v, self.it, self.ctx = v, v.it, v.ctx
        it, ctx = v.it, v.ctx
        self.reqs, self.resps, self.logins, self.logged = [], [], [], []
        self.body, self.wild = body, wild
        n = v.native
        meth = {m.lower(): v.afn(lambda it2, a, k, m=m: self.request([m] + list(a), k)) for m in ("GET", "POST", "DELETE", "PUT", "PATCH")}
        self.closed = []
        self.session = v.fake("ClientSession", request=v.afn(lambda it2, a, k: self.request(a, k)), close=v.afn(lambda it2, a, k: ctx.mut_append(self.closed, 1)), **meth)
        it.lib["aiohttp.ClientSession"] = it.lib["aiohttp.client.ClientSession"] = lambda it2, a, k: self.session
        it.lib["aiohttp.CookieJar"] = it.lib["aiohttp.cookiejar.CookieJar"] = lambda it2, a, k: v.fake("CookieJar")
        self.headers, self.context = v.fake("auth headers"), v.opaque("auth_context")

        def pre(it2, a, k):
            ctx.mut_append(self.logins, a[0])
            return (self.headers, self.context)

        self.auth = v.fake("Auth", pre_request=n(pre), post_response=n(lambda it2, a, k: ctx.mut_append(self.logged, (a[0], a[1] if len(a) > 1 else k.get("context")))))
        self.addr, self.public, self.proxy = v.str("address"), v.str("public_address"), v.str("proxy_address")
        self.extra = {"proxy": v.opaque("http_proxy"), "proxy_auth": v.opaque("proxy_auth")}
        self.o = v.obj(G, address=self.addr, _public_address=self.public, proxy_address=self.proxy, auth=self.auth, _asynchronous=True,
                       _session=self.session if not fresh or v.choose("session-open", "first-request") == "session-open" else None, _request_kwargs=v.pydict(dict(self.extra)))
        self.warned = []
        it.lib["warnings.warn"] = lambda it2, a, k: ctx.mut_append(self.warned, a[0])
        it.lib["datetime.datetime.fromtimestamp"] = lambda it2, a, k: v.fake("datetime", of=it.resolve(a[0]))
        it.lib[M + "logger"] = noop_log()

    def request(self, a, k):
        it, ctx, v = self.it, self.ctx, self.v
        k = dict(k)
        method, url = a[0], (a[1] if len(a) > 1 else k.pop("url"))
        ctx.mut_append(self.reqs, (it.resolve(method), it.resolve(url), k))
        i = len(self.reqs)
        if i > 2:
            it.unsupported("third request")
        how = v.choose("answered", "connection-error", "timeout", "cancelled") if self.wild else "answered"
        self.last = how
        if how != "answered":
            it.raise_({"connection-error": OSError, "timeout": TimeoutError, "cancelled": asyncio.CancelledError}[how], "no answer")
        code = v.int(f"status{i}", 200, 599)
        text = v.str(f"text{i}")
        err = v.str(f"error{i}")
        resp = v.fake("Response", status=code, reason=v.str(f"reason{i}"), ok=it.mkbool(code.t < 400), headers=v.fake("headers"))

        def js(it2, a2, k2):
            if ctx.branch(code.t >= 400):
                w = self.errbody = v.choose("an-error", "no-json", "other-json")
                if w == "no-json":
                    it.raise_(ValueError, "not JSON")
                return v.pydict({"error": err}) if w == "an-error" else v.pydict({"other": 1})
            b = self.body() if callable(self.body) else self.body
            if b is None:
                it.raise_(ValueError, "not JSON")
            return b

        def rfs(it2, a2, k2):
            if ctx.branch(code.t >= 400):
                it.raise_(ClientResponseError, "HTTP error")

        self.errbody = None
        resp.attrs.update(json=v.afn(js), text=v.afn(lambda *x: text), read=v.afn(lambda *x: v.opaque("bytes")), raise_for_status=v.native(rfs), release=v.native(lambda *x: None), close=v.native(lambda *x: None))
        ctx.mut_append(self.resps, (resp, code, text, err))
        return resp

    def check(self, out, method, url, json=None):
        """The requests made, and the outcome for their answers; returns
        whether the call has been accepted."""
        v, it = self.v, self.it
        v.prove("asks-the-server", z3.BoolVal(len(self.reqs) >= 1))
        if not self.reqs:
            return False
        for m, u, k in self.reqs:
            v.prove("the-right-request", z3.And(z3.BoolVal(m == method), same(v, u, SStr(url)), *[same(v, k.get(x), y) for x, y in self.extra.items()]))
            v.prove("the-right-content", z3.BoolVal(k.get("json") is None) if json is None else same(v, k.get("json"), json))
        first = self.resps[0][1].t if self.resps else None
        v.prove("asks-again-only-after-401", z3.Implies(z3.BoolVal(len(self.reqs) == 2), z3.BoolVal(False) if first is None else first == 401))
        if self.resps:
            v.prove("authenticates-after-401", z3.Implies(first == 401, z3.BoolVal(len(self.reqs) == 2 and len(self.logins) == 1 and self.logins[0] is self.resps[0][0])))
        v.prove("no-credentials-until-asked", z3.BoolVal(self.reqs[0][2].get("headers") is None))
        if len(self.reqs) == 2:
            v.prove("sends-the-credentials", z3.BoolVal(it.resolve(self.reqs[1][2].get("headers")) is self.headers))
            if len(self.resps) == 2:
                v.prove("the-authenticator-sees-the-answer", z3.BoolVal(len(self.logged) == 1 and self.logged[0][0] is self.resps[1][0] and self.logged[0][1] is self.context))
        if self.last != "answered":
            v.cover("no answer")
            want = {"connection-error": "OSError", "timeout": "TimeoutError", "cancelled": "CancelledError"}[self.last]
            v.prove("no-answer-is-an-error", z3.BoolVal(not out.ok and out.exc_name() == want))
            return False
        _, code, text, err = self.resps[-1]
        if self.ctx.branch(code.t < 400):
            v.cover("accepted")
            return True
        v.cover("refused")
        v.prove("a-refusal-is-an-error", z3.BoolVal(not out.ok))
        if out.ok:
            return False
        name = out.exc_name()
        kind = z3.BoolVal(False)
        for codes, e in (((404, 422), "ValueError"), ((409,), "GatewayClusterError"), ((500,), "GatewayServerError")):
            hit = z3.Or([code.t == c for c in codes])
            v.prove("the-right-error", z3.Implies(hit, z3.BoolVal(name == e)))
            kind = z3.Or(kind, hit)
        v.prove("the-right-error", z3.Implies(z3.Not(kind), z3.BoolVal(name == "ClientResponseError")))
        if name != "ClientResponseError":
            args = it.resolve(it.getattr(out.val, "args"))
            items = list(args) if isinstance(args, tuple) else it.to_pylist(args)
            want = err if self.errbody in (None, "an-error") else text
            v.prove("carries-the-servers-reason", same(v, items[0], want) if items else z3.BoolVal(False))
        return False


def report_json(v, status, full=True, tag=""):
    d = {"name": v.str("r_name" + tag), "dashboard_route": v.opt("r_route" + tag, v.str("r_route" + tag)), "status": status, "options": v.opaque("r_options" + tag),
         "start_time": v.int("r_start" + tag), "stop_time": v.opt("r_stop" + tag, v.int("r_stop" + tag))}
    if full:
        d["tls_cert"], d["tls_key"] = v.opt("r_cert" + tag, v.str("r_cert" + tag)), v.opt("r_key" + tag, v.str("r_key" + tag))
    return d


def check_report(v, s, r, d, full=True):
    it = v.it
    r = it.resolve(r)
    if not (isinstance(r, Obj) and getattr(r.cls, "name", "") == "ClusterReport"):
        v.prove("returns-a-report", z3.BoolVal(False))
        return
    a = lambda n: it.resolve(it.getattr(r, n))
    st = d["status"].upper()
    v.prove("reported-status", same(v, it.getattr(a("status"), "name"), st))
    v.prove("reported-name", same(v, a("name"), d["name"]))
    v.prove("reported-options", same(v, a("options"), d["options"]))
    v.prove("address-iff-running", same(v, a("scheduler_address"), SStr(path(s.proxy.t, "/", d["name"].t)) if st == "RUNNING" else None))
    route = it.resolve(d["dashboard_route"])
    if route is None:
        v.prove("reported-dashboard", same(v, a("dashboard_link"), None))
    else:
        v.prove("reported-dashboard", z3.If(route.t == z3.StringVal(""), same(v, a("dashboard_link"), None), same(v, a("dashboard_link"), SStr(path(s.public.t, route.t)))))
    num = lambda x: it._nt(it.num_or_none(x), True)
    t = a("start_time")
    v.prove("reported-times", z3.And(z3.BoolVal(isinstance(t, Obj)), num(t.attrs["of"]) * 1000 == num(d["start_time"])) if isinstance(t, Obj) else z3.BoolVal(False))
    t, w = a("stop_time"), it.resolve(d["stop_time"])
    if w is None:
        v.prove("reported-times", z3.BoolVal(t is None))
    else:
        v.prove("reported-times", num(t.attrs["of"]) * 1000 == num(w) if isinstance(t, Obj) else z3.BoolVal(False))
    sec = it.resolve(it.getattr(r, "security"))
    if full:
        key = it.resolve(d["tls_key"])
        if key is None:
            v.prove("its-own-credentials", z3.BoolVal(sec is None))
        else:
            v.prove("its-own-credentials", z3.And(same(v, sec.attrs["tls_key"], key), same(v, sec.attrs["tls_cert"], it.resolve(d["tls_cert"]))) if isinstance(sec, Obj) else z3.BoolVal(False))
    else:
        v.prove("its-own-credentials", z3.BoolVal(sec is None))


C_URL = "/api/v1/clusters/"
COVERS = ("accepted", "refused", "no answer")


def case(v, s, op):
    v.case(lambda ev: {"kind": "request", "op": op, "answers": [[ev(r[1]), s.errbody] for r in s.resps], "last": getattr(s, "last", None)})


@contract("C24", G + "._stop_cluster", "stop", assumes=A_HTTP)
def stop(v):
    s = Server(v, fresh=True)
    name = v.str("cluster")
    case(v, s, "stop")
    out = v.run(G + "._stop_cluster", s.o, name)
    if s.check(out, "DELETE", path(s.addr.t, C_URL, name.t)):
        v.ok_or(out, "accepted-requests-succeed")
    v.expect_covers(*COVERS)


def messages(v, s, out, ok, msg):
    """Messages of accepted scaling requests."""
    it = v.it
    if not v.ok_or(out, "accepted-requests-succeed"):
        return
    told = v.it.truth(msg) and not it.truth(ok)
    v.prove("a-partial-acceptance-is-told", z3.BoolVal(len(s.warned) == (1 if told else 0)))
    if told and s.warned:
        w = it.resolve(s.warned[0])
        args = it.resolve(it.getattr(w, "args")) if isinstance(w, Obj) or hasattr(w, "cls") else (w,)
        v.prove("a-partial-acceptance-is-told", same(v, list(args)[0] if isinstance(args, tuple) else it.to_pylist(args)[0], msg))


def scaling(v, adapt):
    it = v.it
    ok, msg = v.bool("ok"), v.opt("no_msg", v.str("msg"))
    empty = v.choose("json-answer", "no-json-answer") == "no-json-answer"
    s = Server(v, body=None if empty else v.pydict({"ok": ok, "msg": msg}))
    name = v.str("cluster")
    case(v, s, "adapt" if adapt else "scale")
    if adapt:
        mn, mx, act = v.opt("no_min", v.int("minimum")), v.opt("no_max", v.int("maximum")), v.bool("active")
        out = v.run(G + "._adapt_cluster", s.o, name, minimum=mn, maximum=mx, active=act)
        good = s.check(out, "POST", path(s.addr.t, C_URL, name.t, "/adapt"), {"minimum": it.resolve(mn), "maximum": it.resolve(mx), "active": act})
    else:
        n = v.int("n")
        out = v.run(G + "._scale_cluster", s.o, name, n)
        good = s.check(out, "POST", path(s.addr.t, C_URL, name.t, "/scale"), {"count": n})
    if good:
        messages(v, s, out, True if empty else ok, None if empty else it.resolve(msg))
    else:
        v.prove("a-partial-acceptance-is-told", z3.BoolVal(not s.warned))
    v.expect_covers(*COVERS)


contract("C24", G + "._scale_cluster", "scale", assumes=A_HTTP)(lambda v: scaling(v, False))
contract("C24", G + "._adapt_cluster", "adapt", assumes=A_HTTP)(lambda v: scaling(v, True))


@contract("C24", G + "._submit", "submit", assumes=A_HTTP + ["dask.config.get returns the configured value"])
def submit(v):
    it, ctx = v.it, v.ctx
    name = v.str("new_name")
    s = Server(v, body=v.pydict({"name": name}))
    conf = v.str("configured")
    it.lib["dask.config.get"] = lambda it2, a, k: v.pydict({"both": conf, "conf": 7}) if it.resolve(a[0]) == "gateway.cluster.options" else it.unsupported("configuration value")
    it.overrides["dask_gateway.utils.format_template"] = lambda it2, a, k: v.fake("formatted", of=a[0])
    how = v.choose("no-options", "options", "mapping")
    kw = {"extra": v.int("extra"), "both": v.int("both")}
    case(v, s, "submit")
    if how == "options":
        names = ["o1", "both"]
        fields = [v.fake("Field", field=n, get=v.native(lambda it2, a, k, n=n: SInt(z3.Int("set_" + n)))) for n in names]
        opts = v.attempt(lambda: it.call(v.cls("dask_gateway.options.Options"), fields))
        if not v.ok_or(opts, "options"):
            return
        out = v.run(G + "._submit", s.o, cluster_options=opts.val, **kw)
        want = {"o1": SInt(z3.Int("set_o1")), **kw}
    elif how == "mapping":
        out = v.run(G + "._submit", s.o, cluster_options=v.pydict({"a": 1}), **kw)
        v.prove("only-options-are-accepted", z3.BoolVal(not out.ok and out.exc_name() == "TypeError" and not s.reqs))
        return
    else:
        out = v.run(G + "._submit", s.o, **kw)
        want = dict(kw)
        r = at(it, s.reqs[0][2].get("json"), "cluster_options", "conf") if s.reqs else None
        v.prove("configured-options-are-sent", same(v, r.attrs["of"], 7) if isinstance(r, Obj) and "of" in r.attrs else z3.BoolVal(False))
        want["conf"] = r
    if s.check(out, "POST", path(s.addr.t, C_URL), {"cluster_options": want}) and v.ok_or(out, "accepted-requests-succeed"):
        v.prove("returns-the-new-name", same(v, out.val, name))
    v.expect_covers(*COVERS)


@contract("C24", G + "._cluster_report", "report", assumes=A_HTTP)
def report(v):
    it = v.it
    got = []

    def body():
        if not got:
            got.append(report_json(v, v.choose(*NAMES, "unknown")))
        return v.pydict(got[0])

    s = Server(v, body=body)
    name = v.str("cluster")
    wait = v.choose("waiting", "at-once") == "waiting"
    case(v, s, "report")
    out = v.run(G + "._cluster_report", s.o, name, wait=wait)
    if s.check(out, "GET", path(s.addr.t, C_URL, name.t, "?wait" if wait else "")):
        if not got:
            v.prove("reads-the-answer", z3.BoolVal(False))
            return
        d = got[0]
        if d["status"] == "unknown":
            v.prove("an-unknown-status-is-an-error", z3.BoolVal(not out.ok))
        elif v.ok_or(out, "accepted-requests-succeed"):
            check_report(v, s, out.val, d)
    v.expect_covers(*COVERS)


@contract("C24", G + "._clusters", "list", assumes=A_HTTP)
def list_clusters(v):
    it = v.it
    ds = []

    def body():
        if not ds:
            ds.extend([report_json(v, v.choose("RUNNING", "PENDING", "FAILED"), False), {"name": "other", "dashboard_route": None, "status": "STOPPED", "options": 1, "start_time": 5000, "stop_time": 7000}])
        return v.pydict({f"k{i}": v.pydict(d) for i, d in enumerate(ds)})

    s = Server(v, body=body)
    E = it.get_class(CS)
    how = v.choose("all", "by-name", "by-status", "several", "wrong")
    arg = {"all": None, "by-name": "running", "by-status": E.enum["FAILED"], "several": VList(["pending", E.enum["STOPPED"]]), "wrong": "nope"}[how]
    query = {"all": "", "by-name": "?status=RUNNING", "by-status": "?status=FAILED", "several": "?status=PENDING,STOPPED"}.get(how)
    case(v, s, "list")
    out = v.run(G + "._clusters", s.o, status=arg)
    if how == "wrong":
        v.prove("an-unknown-status-is-an-error", z3.BoolVal(not out.ok and out.exc_name() == "ValueError" and not s.reqs))
        return
    if s.check(out, "GET", path(s.addr.t, C_URL, query)) and v.ok_or(out, "accepted-requests-succeed"):
        got = it.to_pylist(out.val)
        v.prove("one-report-for-each-cluster", z3.BoolVal(len(got) == len(ds)))
        for r, d in zip(got, ds):
            check_report(v, s, r, d, False)
    v.expect_covers(*COVERS)


@contract("C24", G + "._get_versions", "versions", assumes=A_HTTP)
def versions(v):
    it = v.it
    info = v.pydict({"version": v.str("server_version")})
    s = Server(v, body=info)
    it.lib["dask_gateway.__version__"] = v.str("client_version")
    case(v, s, "versions")
    out = v.run(G + "._get_versions", s.o)
    if s.check(out, "GET", path(s.addr.t, "/api/version")) and v.ok_or(out, "accepted-requests-succeed"):
        v.prove("returns-both-versions", z3.BoolVal(at(it, out.val, "server") is info))
    v.expect_covers(*COVERS)


@contract("C24", G + "._wait_for_start", "wait_for_start", assumes=A_HTTP)
def wait_for_start(v):
    it, ctx = v.it, v.ctx
    got = []

    def body():
        if not got:
            got.append(report_json(v, v.choose(*NAMES)))
        return v.pydict(got[0])

    s = Server(v, body=body)
    name = v.str("cluster")
    sleeps = []
    it.lib["asyncio.sleep"] = lambda it2, a, k: Coro(lambda: ctx.mut_append(sleeps, a[0]), "sleep")
    case(v, s, "wait")
    WhileInv(v, lambda i, c: {})
    out = run(v, G + "._wait_for_start", s.o, name)
    st = got[0]["status"] if got else None
    if out is None:  # waits on
        v.cover("waits")
        late = bool(s.reqs) and s.last == "timeout"
        acc = s.resps[-1][1].t < 400 if s.resps else z3.BoolVal(False)
        v.prove("waits-on-only-while-undecided", z3.Or(z3.BoolVal(late), z3.And(acc, z3.BoolVal(s.last == "answered" and st in ("PENDING", "STOPPING")))))
        v.prove("asks-again-after-a-while", z3.BoolVal(len(sleeps) == 1 and isinstance(sleeps[0], (int, float)) and 0 < sleeps[0] <= 5))
        return
    if s.reqs and s.last == "timeout":
        v.prove("a-timeout-is-no-answer", z3.BoolVal(False))
        return
    if not s.check(out, "GET", path(s.addr.t, C_URL, name.t, "?wait")):
        return
    if out.ok:
        v.cover("running")
        v.prove("returns-only-a-running-cluster", z3.BoolVal(st == "RUNNING"))
        if got:
            check_report(v, s, out.val, got[0])
    else:
        v.cover("ended")
        v.prove("a-cluster-that-ended-is-an-error", z3.BoolVal(st in ("STOPPED", "FAILED") and out.exc_name() == "GatewayClusterError"))
    v.expect_covers("waits", "running", "ended", *COVERS)


# ---------------------------------------------------------------- cluster objects
class World:
    """A cluster object, a gateway client that may fail at any point, and the
    scheduler behind the proxy."""

    def __init__(self, v, known, wait=None):
        self.v, self.it, self.ctx = v, v.it, v.ctx
        it, ctx, n = v.it, v.ctx, v.native
        self.log = []
        self.known = known
        self.shut = v.bool("shutdown_on_close")
        self.name, self.new_name = v.str("cluster"), v.str("new_name")
        self.sec = v.fake("Security", get_connection_args=n(lambda it2, a, k: ("own-credentials", a[0] if a else k.get("role"))))
        self.report = v.fake("Report", scheduler_address=v.str("r_address"), dashboard_link=v.str("r_dashboard"), security=self.sec)
        self.fails = {}
        it.lib[M + "logger"] = noop_log()
        it.lib["asyncio.ensure_future"] = it.lib["asyncio.create_task"] = lambda it2, a, k: self.task(a[0])
        self.comm = v.fake("comm", write=v.afn(lambda it2, a, k: self.step("subscribe", a[0])), read=v.afn(lambda it2, a, k: (self.step("read"), v.pydict({"workers": v.pydict({})}))[1]), close=v.afn(lambda it2, a, k: self.note("comm-closed")))
        self.rpc = v.fake("rpc", live_comm=v.afn(lambda it2, a, k: (self.step("live"), self.comm)[1]), close_rpc=v.afn(lambda it2, a, k: self.step("rpc-closed")))

        def rpc(it2, a, k):
            self.note("rpc", (it.resolve(a[0]), it.resolve(k.get("connection_args"))))
            return self.rpc

        it.lib["distributed.core.rpc"] = rpc
        self.gate_args = []

        def gateway(it2, a, k):
            ctx.mut_append(self.gate_args, dict(k))
            ctx.mut_dict(a[0].attrs, "_asynchronous", k.get("asynchronous"))
            ctx.mut_dict(a[0].attrs, "_loop_runner", v.fake("LoopRunner", loop=self.loop))
            ctx.mut_dict(a[0].attrs, "sync", n(lambda it3, b, c: self.note("sync", (b[0], list(b[1:]), dict(c)))))

        self.loop = v.fake("IOLoop", asyncio_loop=v.fake("Loop", is_running=n(lambda *a: v.bool("loop_runs"))))
        it.overrides[G + ".__init__"] = gateway
        it.overrides[GC + "._watch_worker_status"] = lambda it2, a, k: Coro(lambda: None, "watch")

    def note(self, what, more=None):
        self.ctx.mut_append(self.log, (what, more))

    def step(self, what, more=None, errors=(OSError,)):
        self.note(what, more)
        if what not in self.fails:
            self.ctx.mut_dict(self.fails, what, self.v.choose("ok", *errors))
        r = self.fails[what]
        if r != "ok":
            self.it.raise_(r, "failed")

    def has(self, what):
        return [m for w, m in self.log if w == what]

    def task(self, coro):
        st = {"state": "pending"}
        it, ctx, v = self.it, self.ctx, self.v

        def wait(it2, a, k):
            if st["state"] == "pending":
                try:
                    r = it.await_(coro)
                    ctx.mut_dict(st, "state", ("value", r))
                except PyRaise as e:
                    ctx.mut_dict(st, "state", ("error", e.val))
            kind, x = st["state"]
            if kind == "error":
                raise PyRaise(x)
            return x

        def cancel(it2, a, k):
            self.note("task-cancelled")
            if st["state"] == "pending":
                ctx.mut_dict(st, "state", ("error", it.make_exc(asyncio.CancelledError)))
            return True

        return v.fake("Task", __await__=v.native(wait), done=v.native(lambda *a: st["state"] != "pending"), cancel=v.native(cancel), cancelled=v.native(lambda *a: False))

    def make(self, asynchronous=True, **extra):
        v, it = self.v, self.it
        kw = dict(asynchronous=asynchronous, shutdown_on_close=self.shut, address=v.str("g_address"), proxy_address=v.str("g_proxy"), public_address=v.str("g_public"), auth=v.opaque("g_auth"), loop=v.opaque("g_loop"))
        if self.known:
            r = v.attempt(lambda: it.call(it.getattr(v.cls(GC), "from_name"), [self.name], kw))
        else:
            r = v.attempt(lambda: it.call(v.cls(GC), [], {**kw, **extra}))
        return r, kw

    def equip(self, o):
        """Replaces the gateway's requests by their contracts."""
        v, it = self.v, self.it
        g = it.resolve(o.attrs["gateway"])
        E = it.get_class(M + "GatewayClusterError").native if False else None

        def submit(it2, a, k):
            self.step("submit", (a, dict(k)), (OSError, ValueError, asyncio.CancelledError))
            return self.new_name

        def wait(it2, a, k):
            self.note("wait", it.resolve(a[0]))
            r = v.choose("running", "cluster-error", "unknown", "cancelled")
            self.fails["wait"] = r
            if r == "cluster-error":
                raise PyRaise(it.call(v.cls(M + "GatewayClusterError"), ["failed"]))
            if r != "running":
                it.raise_(ValueError if r == "unknown" else asyncio.CancelledError, "no")
            return self.report

        g.attrs.update(_submit=v.afn(submit), _wait_for_start=v.afn(wait), _stop_cluster=v.afn(lambda it2, a, k: self.step("shutdown", it.resolve(a[0]))), _cleanup=v.afn(lambda it2, a, k: self.note("cleanup")),
                       close=v.native(lambda it2, a, k: self.note("gateway-closed")))
        g.attrs["_asynchronous"] = True
        return g


A_CL = ["Gateway._submit, _wait_for_start, _stop_cluster meet their contracts", "distributed's rpc and comm objects connect with the given arguments", "tasks run when awaited"]


def starting(v, known):
    it, ctx = v.it, v.ctx
    w = World(v, known)
    opts, extra = v.opaque("cluster_options"), v.int("option")
    r, kw = w.make(**({} if known else {"cluster_options": opts, "colour": extra}))
    if not v.ok_or(r, "created"):
        return
    o = r.val
    w.equip(o)
    name = w.name if known else w.new_name
    v.case(lambda ev: {"kind": "start", "known": known, "shutdown": ev(w.shut), "fails": {k: str(getattr(x, "__name__", x)) for k, x in w.fails.items()}})
    how = v.choose("await", "enter")
    out = v.run(GC + ("._start_internal" if how == "await" else ".__aenter__"), o)
    sub, wt, rp = w.has("submit"), w.has("wait"), w.has("rpc")
    v.prove("submits-once-unless-connecting", z3.BoolVal(len(sub) == (0 if known else 1)))
    if sub:
        a, k = sub[0]
        k = {x: it.resolve(y) for x, y in k.items()}
        v.prove("submits-the-given-options", z3.BoolVal(not a and k.get("cluster_options") is opts and set(k) == {"cluster_options", "colour"} and k["colour"] is extra))
    submitted = known or w.fails.get("submit") == "ok"
    v.prove("waits-for-its-own-cluster", z3.And(z3.BoolVal(len(wt) == (1 if submitted else 0)), *[same(v, x, name) for x in wt]))
    shut, clean = w.has("shutdown"), w.has("cleanup")
    if submitted and w.fails.get("wait") == "running":
        v.cover("started")
        if not v.ok_or(out, "a-running-cluster-is-a-success"):
            return
        v.prove("returns-the-object", z3.BoolVal(it.resolve(out.val) is o))
        g = lambda n: it.resolve(it.getattr(o, n))
        v.prove("describes-the-running-cluster", z3.And(same(v, g("name"), name), same(v, g("scheduler_address"), w.report.attrs["scheduler_address"]), same(v, g("dashboard_link"), w.report.attrs["dashboard_link"]), z3.BoolVal(g("security") is w.sec and g("status") == "running")))
        v.prove("connects-with-the-clusters-credentials", z3.And(z3.BoolVal(len(rp) == 1), *[z3.And(same(v, x, w.report.attrs["scheduler_address"]), z3.BoolVal(y == ("own-credentials", "client"))) for x, y in rp]))
        v.prove("a-running-cluster-is-kept", z3.BoolVal(not shut and not clean))
        return
    v.cover("failed")
    cause = (w.fails.get("wait") if submitted else getattr(w.fails.get("submit"), "__name__", None))
    want = {"cluster-error": "GatewayClusterError", "unknown": "ValueError", "cancelled": "CancelledError"}.get(cause, cause)
    v.prove("the-failure-is-reported", z3.BoolVal(not out.ok and out.exc_name() == want))
    n = len(shut)
    v.prove("a-failed-start-is-shut-down-iff-asked", z3.If(z3.And(w.shut.t, z3.BoolVal(submitted)), z3.BoolVal(n == 1), z3.BoolVal(n == 0)))
    v.prove("shuts-down-its-own-cluster", z3.And([same(v, x, name) for x in shut] + [z3.BoolVal(True)]))
    v.prove("the-client-is-released", z3.BoolVal(len(clean) == 1 and it.resolve(o.attrs["status"]) == "closed"))
    v.expect_covers("started", "failed")


contract("C24", GC + "._start_internal", "start_new", assumes=A_CL)(lambda v: starting(v, False))
contract("C24", GC + "._start_internal", "start_connect", assumes=A_CL)(lambda v: starting(v, True))


@contract("C24", GC + "._stop_internal", "close", assumes=A_CL)
def close(v):
    """Closing in any state, by any of the ways to close."""
    it, ctx = v.it, v.ctx
    known = v.choose("named", "never-submitted") == "named"
    w = World(v, True)
    r, kw = w.make()
    if not v.ok_or(r, "created"):
        return
    o = r.val
    w.equip(o)
    if not known:
        o.attrs["name"] = None
    start = v.choose("never-started", "started", "starting")
    o.attrs["status"] = {"never-started": "starting", "started": "running", "starting": "starting"}[start]
    left = []

    def begun(it2, a, k):
        if start == "starting":
            if not left:
                it.unsupported("waiting for a start that is not cancelled")
            it.raise_(asyncio.CancelledError)

    if start != "never-started":
        o.attrs["_start_task"] = v.fake("Task", done=v.native(lambda *a: start == "started"), cancel=v.native(lambda *a: ctx.mut_append(left, len(w.log))), __await__=v.native(begun))
    clients = []
    if start == "started":
        how = v.choose("connected", "connected-with-failed-watch", "not-connected")
        if how != "not-connected":
            o.attrs["scheduler_comm"] = w.rpc

            def watch(it2, a, k):
                it.raise_(RuntimeError if how == "connected-with-failed-watch" else asyncio.CancelledError, "x")

            o.attrs["_watch_worker_status_task"] = v.fake("Task", done=v.native(lambda *a: False), cancel=v.native(lambda *a: True), __await__=v.native(watch))
        clients = [v.fake("Client", _close=v.afn(lambda it2, a, k, i=i: w.step(f"client{i}"))) for i in range(2)]
        for c in clients:
            it.call(it.getattr(it.resolve(o.attrs["_clients"]), "add"), [c])
    asked = v.choose(None, True, False)
    way = v.choose("close", "exit", "shutdown") if asked is None else "close"
    v.case(lambda ev: {"kind": "close", "named": known, "asked": asked, "on_close": ev(w.shut), "way": way, "state": start, "fails": {k: str(getattr(x, "__name__", x)) for k, x in w.fails.items()}})
    if way == "exit":
        out = v.run(GC + ".__aexit__", o, None, None, None)
    elif way == "shutdown":
        out = v.run(GC + ".shutdown", o)
        asked = True
    else:
        out = v.run(GC + ".close", o, **({} if asked is None else {"shutdown": asked}))
    shut = w.has("shutdown")
    want = z3.And(z3.BoolVal(known), w.shut.t if asked is None else z3.BoolVal(asked))
    v.prove("shuts-down-iff-asked", z3.If(want, z3.BoolVal(len(shut) == 1), z3.BoolVal(not shut)))
    v.prove("shuts-down-its-own-cluster", z3.And([same(v, x, w.name) for x in shut] + [z3.BoolVal(True)]))
    v.prove("closing-never-raises", z3.BoolVal(out.ok))
    v.prove("the-client-is-released", z3.BoolVal(len(w.has("cleanup")) == 1))
    v.prove("a-start-under-way-is-cancelled", z3.BoolVal((start == "starting") == bool(left)))
    if all(x == "ok" for k, x in w.fails.items() if k != "shutdown") and start != "started":
        v.prove("ends-closed", z3.BoolVal(it.resolve(o.attrs["status"]) == "closed"))
    r = it.contains(it.getattr(v.cls(GC), "_instances"), o)
    v.prove("forgotten-at-exit", z3.BoolVal(r is False) if isinstance(r, bool) else z3.Not(r.t if isinstance(r, SBool) else r))
    if shut:
        v.cover("shut down")
    else:
        v.cover("kept")
    v.expect_covers("shut down", "kept")


@contract("C24", GC + ".close", "close_sync", assumes=A_CL)
def close_sync(v):
    it, ctx = v.it, v.ctx
    w = World(v, v.choose("connect", "new") == "connect")
    r, kw = w.make(asynchronous=False)
    if not v.ok_or(r, "created"):
        return
    o = r.val
    begun = w.has("sync")
    v.case(lambda ev: {"kind": "close_sync"})

    def is_method(f, name):
        f = it.resolve(f)
        return getattr(getattr(f, "func", f), "name", None) == name

    v.prove("starts-when-created", z3.BoolVal(len(begun) == 1 and is_method(begun[0][0], "_start_internal")))
    w.equip(o).attrs["_asynchronous"] = False
    o.attrs["status"] = st = v.choose("running", "closing", "closed", "starting")
    del w.log[:]
    asked = v.choose(None, True, False)
    way = v.choose("close", "exit", "shutdown", "collected") if asked is None else "close"
    if way == "exit":
        out = v.run(GC + ".__exit__", o, None, None, None)
    elif way == "shutdown":
        out, asked = v.run(GC + ".shutdown", o), True
    elif way == "collected":
        it.lib["sys.is_finalizing"] = lambda it2, a, k: False
        out = v.run(GC + ".__del__", o)
    else:
        out = v.run(GC + ".close", o, **({} if asked is None else {"shutdown": asked}))
    if not v.ok_or(out, "closing-never-raises"):
        return
    stops = w.has("sync")
    if st == "closed":
        v.prove("closes-once", z3.BoolVal(not stops))
        return
    v.prove("stops-while-the-loop-runs", z3.BoolVal(len(stops) == 1) == z3.Bool("loop_runs"))
    v.prove("releases-the-gateway", z3.BoolVal(len(w.has("gateway-closed")) == 1))
    for f, a, k in stops:
        got = a[0] if a else k.get("shutdown")
        v.prove("passes-on-what-is-asked", z3.BoolVal(is_method(f, "_stop_internal") and it.resolve(got) is asked))


@contract("C24", M + "cleanup_lingering_clusters", "at_exit")
def at_exit(v):
    it, ctx = v.it, v.ctx
    closed = []

    def one(i):
        def fn(it2, a, k):
            ctx.mut_append(closed, i)
            if v.choose("ok", "fails") == "fails":
                it.raise_(OSError, "x")

        return v.fake("GatewayCluster", asynchronous=i == 1, close=v.native(fn))

    objs = [one(i) for i in range(3)]
    s = it.getattr(v.cls(GC), "_instances")
    for x in objs:
        it.call(it.getattr(s, "add"), [x])
    it.lib["traceback.format_exception"] = lambda it2, a, k: VList(["trace"])
    it.lib["warnings.warn"] = lambda it2, a, k: None
    v.case(lambda ev: {"kind": "at_exit"})
    out = v.run(M + "cleanup_lingering_clusters")
    v.ok_or(out, "a-failure-does-not-stop-the-others")
    v.prove("closes-every-cluster-left", z3.BoolVal(sorted(closed) == [0, 2]))


@contract("C24", G + ".connect", "connect", assumes=A_CL)
def connect(v):
    it, ctx = v.it, v.ctx
    s = Server(v)
    s.o.attrs["_loop_runner"] = v.fake("LoopRunner", loop=v.opaque("g_loop"))
    w = World(v, False)
    new = v.choose("new_cluster", "connect") == "new_cluster"
    shut = v.choose(None, True, False)
    kw = {} if shut is None else {"shutdown_on_close": shut}
    v.case(lambda ev: {"kind": "connect", "new": new, "shutdown": shut})
    if new:
        opts, extra = v.opaque("cluster_options"), v.int("option")
        out = v.run(G + ".new_cluster", s.o, cluster_options=opts, colour=extra, **kw)
    else:
        out = v.run(G + ".connect", s.o, w.name, **kw)
    if not v.ok_or(out, "connects"):
        return
    o = it.resolve(out.val)
    want = shut if shut is not None else new
    v.prove("shuts-down-as-asked-else-iff-it-started-it", same(v, o.attrs.get("shutdown_on_close"), want))
    v.prove("the-given-cluster", same(v, o.attrs.get("name"), None if new else w.name))
    v.prove("same-gateway", z3.BoolVal(len(w.gate_args) == 1))
    for k in w.gate_args:
        v.prove("same-gateway", z3.And(same(v, k.get("address"), s.addr), same(v, k.get("public_address"), s.public), same(v, k.get("proxy_address"), s.proxy), z3.BoolVal(it.resolve(k.get("auth")) is s.auth and it.resolve(k.get("asynchronous")) is True)))
    if not new:
        return
    # what is submitted when it is started
    w.equip(o)
    v.run(GC + "._start_internal", o)
    sub = w.has("submit")
    v.prove("submits-the-given-options", z3.BoolVal(len(sub) == 1 and it.resolve(sub[0][1].get("cluster_options")) is opts and it.resolve(sub[0][1].get("colour")) is extra and len(sub[0][1]) == 2))


# ---------------------------------------------------------------- authenticators
@contract("C24", AUTH + "BasicAuth.pre_request", "basic", assumes=["base64.b64encode is faithful"])
def basic(v):
    it, ctx = v.it, v.ctx
    coded = []

    def enc(it2, a, k):
        ctx.mut_append(coded, it.resolve(a[0]))
        return SBytes(z3.String("coded"))

    it.lib["base64.b64encode"] = enc
    it.lib["getpass.getuser"] = lambda it2, a, k: SStr(z3.String("login"))
    user, pw = v.opt("no_user", v.str("user")), v.opt("no_password", v.str("password"))
    ascii_ = z3.Star(z3.Range(chr(0), chr(127)))
    for x in (z3.String("login"), z3.String("user"), z3.String("password")):
        v.assume(z3.InRe(x, ascii_))
    v.case(lambda ev: {"kind": "auth"})
    o = v.attempt(lambda: it.call(v.cls(AUTH + "BasicAuth"), [], {"username": user, "password": pw}))
    if not v.ok_or(o, "created"):
        return
    out = v.run(AUTH + "BasicAuth.pre_request", o.val, v.opaque("resp"))
    if not v.ok_or(out, "answers"):
        return
    h, _ = it.resolve(out.val)
    u, p = it.resolve(user), it.resolve(pw)
    want = path(z3.String("login") if u is None else u.t, ":", z3.StringVal("") if p is None else p.t)
    v.prove("presents-user-and-password", z3.And(z3.BoolVal(len(coded) == 1), it.bterm(coded[0]) == want if coded else z3.BoolVal(False)))
    v.prove("basic-scheme", same(v, at(it, h, "Authorization"), SStr(path("Basic ", z3.String("coded")))))


@contract("C24", AUTH + "JupyterHubAuth.pre_request", "jupyterhub")
def jupyterhub(v):
    it, ctx = v.it, v.ctx
    tok, env = v.opt("no_token", v.str("api_token")), v.opt("no_env", v.str("env_token"))
    it.lib["os.environ.get"] = lambda it2, a, k: env if it.resolve(a[0]) == "JUPYTERHUB_API_TOKEN" else None
    it.lib["os.environ"] = v.fake("environ", get=v.native(it.lib["os.environ.get"]))
    v.case(lambda ev: {"kind": "auth"})
    o = v.attempt(lambda: it.call(v.cls(AUTH + "JupyterHubAuth"), [], {"api_token": tok}))
    t, e = it.resolve(tok), it.resolve(env)
    if t is None and e is None:
        v.prove("no-token-is-an-error", z3.BoolVal(not o.ok and o.exc_name() == "ValueError"))
        return
    if not v.ok_or(o, "created"):
        return
    out = v.run(AUTH + "JupyterHubAuth.pre_request", o.val, v.opaque("resp"))
    if v.ok_or(out, "answers"):
        h, _ = it.resolve(out.val)
        v.prove("presents-the-token", same(v, at(it, h, "Authorization"), SStr(path("jupyterhub ", (e if t is None else t).t))))


@contract("C24", AUTH + "KerberosAuth.pre_request", "kerberos", assumes=["the kerberos module negotiates as documented", "re: Kerberos' pattern finds the negotiation token of the answer"])
def kerberos(v):
    it, ctx = v.it, v.ctx
    log = []
    context = v.opaque("krb_context")

    def init(it2, a, k):
        ctx.mut_append(log, ("init", it.resolve(a[0])))
        return (0, context)

    def step(it2, a, k):
        ctx.mut_append(log, ("step", it.resolve(a[0]), it.resolve(a[1])))
        if ctx.branch(z3.Bool("kerberos_refuses")):
            it.raise_(RuntimeError, "kerberos")

    it.lib.update({"kerberos.authGSSClientInit": init, "kerberos.authGSSClientStep": step, "kerberos.authGSSClientResponse": lambda it2, a, k: SStr(z3.String("krb_response")), "kerberos.GSS_C_MUTUAL_FLAG": 2, "kerberos.GSS_C_SEQUENCE_FLAG": 8})
    for n in ("GSS_C_MUTUAL_FLAG", "GSS_C_SEQUENCE_FLAG"):
        it.overrides["kerberos." + n] = it.lib["kerberos." + n]
    host = v.str("host")
    token, found = v.str("token"), v.choose("token", "no-token", "no-header")
    rx = v.fake("regex", search=v.native(lambda it2, a, k: None if found == "no-token" else v.fake("Match", group=v.native(lambda it3, b, c: token))))
    hdr = v.fake("headers", get=v.native(lambda it2, a, k: None if found == "no-header" else v.str("header")))
    v.assume(z3.Length(z3.String("header")) > 0)
    resp = v.fake("Response", url=v.fake("URL", host=host), headers=hdr)
    v.case(lambda ev: {"kind": "auth"})
    o = v.obj(AUTH + "KerberosAuth", auth_regex=rx)
    out = v.run(AUTH + "KerberosAuth.pre_request", o, resp)
    refuses = z3.Bool("kerberos_refuses")
    v.prove("fails-iff-kerberos-does", z3.BoolVal(out.ok) == z3.Not(refuses))
    if not out.ok:
        return
    h, c = it.resolve(out.val)
    v.prove("negotiates-with-the-server", z3.And(z3.BoolVal([x[0] for x in log] == ["init", "step"]), same(v, log[0][1], SStr(path("HTTP@", host.t)))) if log else z3.BoolVal(False))
    v.prove("presents-the-response", same(v, at(it, h, "Authorization"), SStr(path("Negotiate ", z3.String("krb_response")))))
    v.prove("remembers-the-negotiation", z3.BoolVal(it.resolve(c) is context))
    del log[:]
    out = v.run(AUTH + "KerberosAuth.post_response", o, resp, context)
    if found == "token":
        v.prove("the-server-must-prove-itself", z3.If(token.t == z3.StringVal(""), z3.BoolVal(not out.ok), z3.And(z3.BoolVal(len(log) == 1 and out.ok), *[same(v, x[2], token) for x in log])))
    else:
        v.prove("the-server-must-prove-itself", z3.BoolVal(not out.ok))


@contract("C24", AUTH + "get_auth", "get_auth", assumes=["dask.config.get returns the configured value"])
def get_auth(v):
    it, ctx = v.it, v.ctx
    kinds = {"basic": "BasicAuth", "kerberos": "KerberosAuth", "jupyterhub": "JupyterHubAuth"}
    how = v.choose("object", "name", "configured", "class", "wrong", "not-an-authenticator")
    name = v.choose(*kinds) if how in ("name", "configured") else "basic"
    kwargs = {"username": v.str("username"), "password": v.str("password")} if kinds[name] == "BasicAuth" else ({"api_token": v.str("api_token")} if kinds[name] == "JupyterHubAuth" else {})

    def get(it2, a, k):
        key = it.resolve(a[0])
        if key == "gateway.auth.type":
            return name if how == "configured" else None
        if key == "gateway.auth.kwargs":
            return v.pydict(kwargs) if kwargs else None
        it.unsupported("configuration value")

    it.lib["dask.config.get"] = get
    formatted = lambda it2, a, k: it.resolve(a[0])
    it.overrides["dask_gateway.utils.format_template"] = formatted
    obj = v.obj(AUTH + "BasicAuth", username="u", password="p")
    arg = {"object": obj, "name": name, "configured": None, "class": v.cls(AUTH + "BasicAuth"), "wrong": 7, "not-an-authenticator": v.native(lambda *a: v.fake("thing"))}[how]
    v.case(lambda ev: {"kind": "auth"})
    out = v.run(AUTH + "get_auth", arg)
    if how in ("wrong", "not-an-authenticator"):
        v.prove("anything-else-is-refused", z3.BoolVal(not out.ok and out.exc_name() == "TypeError"))
        return
    if not v.ok_or(out, "gives-an-authenticator"):
        return
    r = it.resolve(out.val)
    if how == "object":
        v.prove("uses-the-given-authenticator", z3.BoolVal(r is obj))
        return
    v.prove("uses-the-given-authenticator", z3.BoolVal(getattr(r.cls, "name", None) == kinds[name]))
    v.prove("with-the-configured-credentials", z3.And([same(v, r.attrs.get(k), x) for k, x in kwargs.items()] + [z3.BoolVal(True)]))


# ---------------------------------------------------------------- connections
@contract("C24", M + "GatewaySecurity.get_connection_args", "tls", assumes=["ssl: create_default_context(cafile) trusts the certificates in the file only; load_cert_chain presents them"])
def tls(v):
    it, ctx = v.it, v.ctx
    files, used, gone = {}, [], []
    it.lib["tempfile.TemporaryDirectory"] = lambda it2, a, k: v.fake("tempdir", __enter__=v.native(lambda *x: SStr(z3.String("tempdir"))), __exit__=v.native(lambda *x: ctx.mut_append(gone, len(used))))
    key, cert = v.str("tls_key"), v.str("tls_cert")

    def name(p):
        t = z3.simplify(it.sterm(it.resolve(p)))
        return str(t)

    def open_(it2, a, k):
        p = name(a[0])
        if it.resolve(a[1] if len(a) > 1 else k.get("mode")) not in ("w", "x"):
            it.unsupported("open mode")
        ctx.mut_dict(files, p, [])
        f = v.fake("file", write=v.native(lambda it3, b, c: ctx.mut_append(files[p], it.resolve(b[0]))))
        f.attrs.update(__enter__=v.native(lambda *x: f), __exit__=v.native(lambda *x: None), close=v.native(lambda *x: None))
        return f

    it.lib["builtins.open"] = it.lib["open"] = open_

    def content(p):
        return files.get(name(p), [None])

    sslctx = v.fake("SSLContext")

    def create(it2, a, k):
        ctx.mut_append(used, ("trust", list(content(k["cafile"])) if k.get("cafile") is not None else None, k.get("purpose"), bool(gone)))
        return sslctx

    it.lib["ssl.create_default_context"] = create
    sslctx.attrs["load_cert_chain"] = v.native(lambda it2, a, k: ctx.mut_append(used, ("own", list(content(a[0] if a else k["certfile"])), list(content(a[1] if len(a) > 1 else k["keyfile"])), bool(gone))))
    sslctx.attrs["__closed__"] = False
    for n in ("CERT_REQUIRED", "CERT_NONE", "CERT_OPTIONAL"):
        it.lib["ssl." + n] = it.overrides["ssl." + n] = v.fake(n)
    v.case(lambda ev: {"kind": "tls"})
    o = v.attempt(lambda: it.call(v.cls(M + "GatewaySecurity"), [], {"tls_key": key, "tls_cert": cert}))
    if not v.ok_or(o, "created"):
        return
    out = v.run(M + "GatewaySecurity.get_connection_args", o.val, "client")
    if not v.ok_or(out, "connects"):
        return
    trust, own = [u for u in used if u[0] == "trust"], [u for u in used if u[0] == "own"]
    one = lambda l, x: z3.And(z3.BoolVal(len(l) == 1), same(v, l[0], x) if l and l[0] is not None else z3.BoolVal(False))
    v.prove("trusts-only-the-clusters-certificate", z3.And(z3.BoolVal(len(trust) == 1 and not trust[0][3]), one(trust[0][1], cert) if trust and trust[0][1] is not None else z3.BoolVal(False)))
    v.prove("presents-the-clusters-certificate", z3.And(z3.BoolVal(len(own) == 1 and not own[0][3]), one(own[0][1], cert) if own else z3.BoolVal(False), one(own[0][2], key) if own else z3.BoolVal(False)))
    v.prove("the-scheduler-must-prove-itself", z3.BoolVal(it.resolve(sslctx.attrs.get("verify_mode")) is it.lib["ssl.CERT_REQUIRED"]))
    v.prove("encryption-is-required", z3.BoolVal(at(it, out.val, "ssl_context") is sslctx and at(it, out.val, "require_encryption") is True))
    v.prove("credentials-are-removed-from-disk", z3.BoolVal(len(gone) == 1))


@contract("C24", COMM + "GatewayConnector.connect", "connector", assumes=["urlparse splits an address gateway://host:port/path", "str.strip removes the slash before a name without slashes", "tornado's TCP client connects to the given host and port, start_tls does a TLS handshake with the given settings"])
def connector(v):
    it, ctx = v.it, v.ctx
    host, port, name = v.str("host"), v.int("port"), v.str("cluster")
    parsed = []

    def urlparse(it2, a, k):
        ctx.mut_append(parsed, it.resolve(a[0]))
        return v.fake("url", hostname=host, port=port, path=SStr(path("/", name.t)) if has else "")

    has = v.choose("path", "no-path") == "path"
    it.lib["urllib.parse.urlparse"] = urlparse
    v.assume(z3.And(z3.Length(name.t) > 0, z3.Not(z3.Contains(name.t, "/"))))
    addr = SStr(path(host.t, ":", z3.String("port_text"), "/", name.t))
    v.assume(z3.Not(z3.PrefixOf("gateway://", addr.t)))
    strip = z3.Function("str_strip_/", STR, STR)
    v.assume(strip(path("/", name.t)) == name.t)
    good = v.choose("context", "no-context", "other")
    it.lib["ssl.SSLContext"] = it.overrides["ssl.SSLContext"] = ssl_cls = __import__("ssl").SSLContext
    c = Obj(ssl_cls, {}) if good == "context" else (None if good == "no-context" else v.str("thing"))
    log = []

    def tcp(it2, a, k):
        ctx.mut_append(log, ("connect", a[0], a[1]))
        if v.choose("ok", "refused") == "refused":
            it.raise_(ConnectionError, "refused")
        return v.fake("plain", start_tls=v.afn(start))

    tls_stream = v.fake("stream", closed=v.native(lambda *a: v.bool("stream_closed")), error=v.opt("no_error", v.fake("stream_error")))

    def start(it2, a, k):
        ctx.mut_append(log, ("tls", it.resolve(a[0] if a else k.get("server_side")), it.resolve(k.get("ssl_options")), it.resolve(k.get("server_hostname"))))
        return tls_stream

    made = []
    for p in ("distributed.comm.tcp.", COMM):
        it.lib[p + "get_stream_address"] = lambda it2, a, k: v.str("local")
        it.lib[p + "TLS"] = lambda it2, a, k: (ctx.mut_append(made, list(a)), v.fake("TLS"))[1]
        it.lib[p + "MAX_BUFFER_SIZE"] = 1
        it.lib[p + "convert_stream_closed_error"] = lambda it2, a, k: it.raise_(OSError, "closed")
    it.lib["tornado.iostream.StreamClosedError"] = ConnectionError
    it.overrides["tornado.iostream.StreamClosedError"] = ConnectionError
    it.overrides["distributed.comm.tcp.MAX_BUFFER_SIZE"] = 1
    v.case(lambda ev: {"kind": "connector"})
    o = v.obj(COMM + "GatewayConnector", client=v.fake("TCPClient", connect=v.afn(tcp)))
    out = v.run(COMM + "GatewayConnector.connect", o, addr, **({} if good == "no-context" else {"ssl_context": c}))
    if not has:
        v.prove("an-address-names-a-cluster", z3.BoolVal(not out.ok and not log))
        return
    if good != "context":
        v.prove("never-connects-without-tls-settings", z3.BoolVal(not out.ok and out.exc_name() == "TypeError" and not log))
        return
    v.prove("reads-the-address", z3.And([same(v, x, SStr(path("gateway://", addr.t))) for x in parsed]))
    con, up = [x for x in log if x[0] == "connect"], [x for x in log if x[0] == "tls"]
    v.prove("connects-to-the-proxy", z3.And(z3.BoolVal(len(con) == 1), *[z3.And(same(v, x[1], host), same(v, x[2], port)) for x in con]))
    v.prove("asks-for-its-own-cluster", z3.And([z3.And(z3.BoolVal(x[1] is False and x[2] is c), same(v, x[3], SStr(path("daskgateway-", name.t)))) for x in up] + [z3.BoolVal(len(up) <= 1)]))
    if out.ok:
        v.cover("connected")
        v.prove("talks-over-tls", z3.BoolVal(len(made) == 1 and it.resolve(made[0][0]) is tls_stream and len(up) == 1))
    else:
        v.cover("failed")
    broken = z3.And(z3.Bool("stream_closed"), z3.Not(z3.Bool("no_error_none")))
    v.prove("a-broken-connection-is-an-error", z3.Implies(z3.And(z3.BoolVal(bool(up)), broken), z3.BoolVal(not out.ok)))
    v.expect_covers("connected", "failed")


@contract("C24", G + ".__init__", "addresses", assumes=["urlparse splits an address into its scheme, host and port", "dask.config.get returns the configured value"])
def addresses(v):
    from pyvc.models import to_str

    it, ctx = v.it, v.ctx
    f = lambda n, s=STR: z3.Function("url_" + n, STR, s)
    port_none = f("port_none", z3.BoolSort())

    def urlparse(it2, a, k):
        t = it.sterm(it.resolve(a[0]))
        return v.fake("url", netloc=SStr(f("netloc")(t)), hostname=SStr(f("hostname")(t)), scheme=SStr(f("scheme")(t)), port=SOpt(port_none(t), SInt(f("port", z3.IntSort())(t))))

    it.lib["urllib.parse.urlparse"] = urlparse
    rstrip = z3.Function("str_rstrip_/", STR, STR)
    conf = {}

    def get(it2, a, k):
        key = it.resolve(a[0])
        if key not in conf:
            ctx.mut_dict(conf, key, None if v.choose("unset", "set") == "unset" else SStr(z3.String("conf " + key)))
        return conf[key]

    it.lib["dask.config.get"] = get
    it.overrides["dask_gateway.utils.format_template"] = lambda it2, a, k: it.resolve(a[0])
    extra, auth = v.pydict({}), v.fake("Auth")
    schemes = []
    it.overrides[M + "_get_default_request_kwargs"] = lambda it2, a, k: (ctx.mut_append(schemes, a[0]), extra)[1]
    given = v.opaque("auth")
    asked = []
    it.overrides[AUTH + "get_auth"] = lambda it2, a, k: (ctx.mut_append(asked, it.resolve(a[0])), auth)[1]
    it.lib["distributed.utils.LoopRunner"] = lambda it2, a, k: v.fake("LoopRunner", start=v.native(lambda *x: None), stop=v.native(lambda *x: None))
    pick = lambda n, *kinds: {"none": None, "str": v.str(n), "int": v.int(n, 0)}[v.choose(*kinds)]
    addr, pub, prox = pick("address", "none", "str"), pick("public", "none", "str"), pick("proxy", "none", "str", "int")
    v.case(lambda ev: {"kind": "addresses", "address": ev(addr), "public": ev(pub), "proxy": ev(prox)})
    r = v.attempt(lambda: it.call(v.cls(G), [], {"address": addr, "public_address": pub, "proxy_address": prox, "auth": given}))
    if addr is None and conf.get("gateway.address") is None:
        v.prove("an-address-is-needed", z3.BoolVal(not r.ok and r.exc_name() == "ValueError"))
        return
    if not v.ok_or(r, "created"):
        return
    g = lambda n: it.resolve(r.val.attrs.get(n))
    raw = addr if addr is not None else conf["gateway.address"]
    a = rstrip(raw.t)
    v.prove("the-given-address", same(v, g("address"), SStr(a)))
    p = pub if pub is not None else conf.get("gateway.public-address")
    v.prove("the-given-public-address", same(v, g("_public_address"), SStr(rstrip(p.t) if p is not None else a)))
    q = prox if prox is not None else conf.get("gateway.proxy-address")
    got = it.sterm(g("proxy_address"))
    netloc, host, num = f("netloc"), f("hostname")(a), lambda t: it.sterm(to_str(it, SInt(t)))
    if q is None:
        sch = f("scheme")(a)
        port = z3.If(port_none(a), z3.If(sch == "http", 80, z3.If(sch == "https", 443, 8786)), f("port", z3.IntSort())(a))
        want = path("gateway://", host, ":", num(port))
        v.prove("the-proxy-is-the-server-unless-told", z3.Implies(netloc(a) != z3.StringVal(""), got == want))
    elif isinstance(q, SInt):
        v.prove("the-given-proxy", got == path("gateway://", host, ":", num(q.t)))
    else:
        v.prove("the-given-proxy", got == path("gateway://", z3.If(netloc(q.t) != z3.StringVal(""), netloc(q.t), q.t)))
    v.prove("the-given-authenticator", z3.BoolVal(g("auth") is auth and asked == [given]))
    v.prove("the-configured-http-proxy", z3.BoolVal(g("_request_kwargs") is extra))


@contract("C24", GC + "._watch_worker_status", "workers_seen", assumes=["comm.read yields the scheduler's worker status messages"])
def workers_seen(v):
    it, ctx = v.it, v.ctx
    gone = v.choose("alive", "collected")
    old = v.pydict({"workers": v.pydict({"w1": 1, "w2": 2}), "type": "Scheduler"})
    o = v.obj(GC, scheduler_info=old)
    it.lib["weakref.ref"] = lambda it2, a, k: v.native(lambda *x: o if gone == "alive" else None)
    closed, reads = [], []
    it.attr_hooks["getattr:GatewayCluster"] = lambda it2, ob, n: POISON if n != "_status_widget" else it.raise_(AttributeError, n)
    what = v.choose("add", "remove", "both", "broken")
    added = v.pydict({"w3": 3})
    msgs = {"add": [("add", v.pydict({"workers": added, "type": "new"}))], "remove": [("remove", "w1")], "both": [("add", v.pydict({"workers": added})), ("remove", "w3")]}

    def read(it2, a, k):
        ctx.mut_append(reads, 1)
        if len(reads) > 1 or what == "broken":
            it.raise_(OSError, "closed")
        return VList(msgs[what])

    comm = v.fake("comm", read=v.afn(read), close=v.afn(lambda it2, a, k: ctx.mut_append(closed, 1)))
    v.case(lambda ev: {"kind": "watch"})
    out = v.run(GC + "._watch_worker_status", o, comm)
    v.ok_or(out, "ends-with-the-connection")
    v.prove("the-connection-is-closed", z3.BoolVal(len(closed) == 1))
    if gone != "alive" or what == "broken":
        v.prove("ends-with-the-connection", z3.BoolVal(len(reads) == 1))
        return
    w = at(it, old, "workers")
    names = {k for k, _ in w.d.values()}
    v.prove("shows-the-schedulers-workers", z3.BoolVal(names == {"add": {"w1", "w2", "w3"}, "remove": {"w2"}, "both": {"w1", "w2"}}[what]))
    v.prove("shows-the-schedulers-state", same(v, at(it, old, "type"), "new" if what == "add" else "Scheduler"))
