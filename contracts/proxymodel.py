"""The gateway's side of the routing table: Proxy.add_route/remove_route and
the routes endpoint, from any reachable state of the change log."""
import z3

from pyvc import web
from pyvc.libs import noop_log, simple_cm
from pyvc.verify import *
from contracts.sqlmodel import MISSING, SMap
from . import loops

PX = "dask_gateway_server.proxy.core.Proxy"
RK = ref_sort("RouteKey")
VS = ref_sort("Val")
QS = ref_sort("Queue")
A = [
    "asyncio.Queue is a FIFO; a coroutine keeps running until it awaits something that suspends",
    "aiohttp StreamResponse.write sends the bytes it is given, in order; json.dumps is a function of its argument",
]


class World:
    """State of a Proxy: table, log of changes 1.._next_id-1 (ghost), of which
    the last len(events) are kept."""

    def __init__(self, v):
        self.v, self.it, self.ctx = v, v.it, v.ctx
        it = v.it
        self.typ = z3.Function("log_type", z3.IntSort(), z3.StringSort())
        self.rt = z3.Function("log_route", z3.IntSort(), VS)
        self.prefix = v.str("prefix")
        self.token = v.str("proxy_token")
        self.maxe = v.int("max_events", 0)
        self.off, self.nid = v.int("offset", 0), v.int("next_id", 1)
        v.assume(self.off.t <= self.nid.t - 1)
        self.present = z3.Function("has_route", z3.StringSort(), z3.StringSort(), z3.BoolSort())
        self.route = z3.Function("route_of", z3.StringSort(), z3.StringSort(), VS)
        self.routes = SMap(v, self.base, name="routes")
        m = self.routes.obj()
        kk, kn = z3.Function("key_kind", RK, z3.StringSort()), z3.Function("key_name", RK, z3.StringSort())
        self.table = VList([Part(("RouteKey",), lambda x: self.present(kk(x), kn(x)), lambda x: SOpaque("route", self.route(kk(x), kn(x))))])
        m.attrs["values"] = v.native(lambda it, a, k: self.table if not self.routes.ops else it.unsupported("table after a change"))
        self.cleared = []
        self.map = m
        self.wmem = z3.Function("watching", QS, z3.BoolSort())
        qc = Fake("Queue")
        self.qcls = qc

        def put_nowait(it, o, n):
            return Native("put_nowait", lambda it, a, k: it.ctx.event("put", o, a[0]))

        it.attr_hooks["Queue.put_nowait"] = put_nowait
        self.watchers = VSet([Part(("Queue",), lambda q: self.wmem(q), lambda q: SRef(qc, q))])
        self.registered = []
        self.contacted = v.fake("Flag", set=v.native(lambda *a: None))
        self.cgx = v.fake("CancelGroup", cancellable=v.native(lambda *a: simple_cm("cancellable")))
        self.p = v.obj(PX, prefix=self.prefix, api_token=self.token, max_events=self.maxe, routes=m, events=VList([self.log_seq(self.off.t, self.nid.t)]),
                       offset=self.off, _next_id=self.nid, _watchers=self.watchers, log=noop_log(), _proxy_contacted=self.contacted, cg=self.cgx)
        self.payloads = []
        it.lib["json.dumps"] = self.dumps
        v.case(lambda ev: {"kind": "proxy", "offset": ev(self.off), "next": ev(self.nid), "max": ev(self.maxe), "target": v.con.target})

    def base(self, key):
        k, n = key
        kt, nt = self.it.sterm(self.it.resolve(k)), self.it.sterm(self.it.resolve(n))
        if self.ctx.branch(self.present(kt, nt)):
            return SOpaque("route", self.route(kt, nt))
        return MISSING

    def entry(self, i):
        """The change with id i."""
        return self.v.pydict({"id": SInt(i), "type": SStr(self.typ(i)), "route": SOpaque("route", self.rt(i))})

    def log_seq(self, off, nid):
        return SSeq(z3.simplify(nid - 1 - off), lambda i: self.entry(z3.simplify(off + 1 + i)))

    def dumps(self, it, a, k):
        t = it.ctx.fresh("dumped", z3.StringSort())
        self.payloads.append((t, a[0]))
        return SStr(t)

    # --------------------------------------------------------------- reading
    def field(self, d, k):
        d = self.it.resolve(d)
        if not isinstance(d, VDict) or hk(k) not in d.d:
            return None
        return self.it.resolve(d.d[hk(k)][1])

    def is_dict(self, d, want):
        """d has exactly the keys of want with equal values."""
        d = self.it.resolve(d)
        if not isinstance(d, VDict) or d.parts or set(x[0] for x in d.d.values()) != set(want):
            return z3.BoolVal(False)
        return z3.And([self.v.eq(self.it.resolve(d.d[hk(k)][1]), x) for k, x in want.items()])

    def state(self):
        p = self.p.attrs
        return it_int(self, p["offset"]), it_int(self, p["_next_id"]), p["events"]


def it_int(w, x):
    x = w.it.resolve(x)
    return z3.IntVal(x) if isinstance(x, int) else x.t


def item_at(w, lst, i):
    return w.it.getitem(lst, SInt(i))


def length(w, lst):
    n = w.it.call(w.it.builtin("len"), [lst]) if hasattr(w.it, "builtin") else None
    return n


def seqlen(lst):
    n = z3.IntVal(0)
    for x in lst.items:
        if isinstance(x, SSeq):
            n = n + x.n
        elif isinstance(x, Part):
            return None
        else:
            n = n + 1
    return z3.simplify(n)


def at(lst, i):
    """Element at (symbolic) position i, as [(condition, element)]."""
    out, off = [], z3.IntVal(0)
    for x in lst.items:
        n = x.n if isinstance(x, SSeq) else z3.IntVal(1)
        el = x.at(z3.simplify(i - off)) if isinstance(x, SSeq) else x
        out.append((z3.And(i >= off, i < off + n), el))
        off = z3.simplify(off + n)
    return out


def check_log(w, name, lst, first, last):
    """lst is exactly the (ghost) changes first..last, in order."""
    v = w.v
    lst = w.it.resolve(lst)
    if isinstance(lst, SSeq):
        lst = VList([lst])
    if not isinstance(lst, VList) or seqlen(lst) is None:
        w.it.unsupported("event list")
    i = v.ctx.fresh("pos", z3.IntSort())
    n = seqlen(lst)
    okn = n == z3.If(last - first + 1 > 0, last - first + 1, 0)
    conds = []
    for c, el in at(lst, i):
        g = z3.And(
            w.is_dict(el, {"id": SInt(first + i), "type": SStr(w.typ(first + i)), "route": SOpaque("route", w.rt(first + i))}) if isinstance(w.it.resolve(el), VDict) else z3.BoolVal(False)
        )
        conds.append(z3.Implies(c, g))
    v.prove(name, z3.And(okn, z3.Implies(z3.And(i >= 0, i < n), z3.And(conds))))


def expected_route(w, kind, key, target=None):
    d = {"kind": kind, ("sni" if kind == "SNI" else "path"): key}
    if target is not None:
        d["target"] = target
    return d


def change(v, target_fn, with_target):
    w = World(v)
    kind = v.dyn("kind", [("SNI", "SNI"), ("PATH", "PATH"), ("none", None), ("other", v.str("odd"))])
    v.assume(z3.And(z3.String("odd") != z3.StringVal("SNI"), z3.String("odd") != z3.StringVal("PATH")))
    sni = v.dyn("sni", [("none", None), ("str", v.str("sni_s"))])
    path = v.dyn("path", [("none", None), ("str", v.str("path_s"))])
    tgt = v.dyn("target", [("none", None), ("str", v.str("target_s"))])
    kw = {"kind": kind, "sni": sni, "path": path}
    if with_target:
        kw["target"] = tgt
    n0 = w.nid.t
    susp = []
    v.ctx.state["suspend_hook"] = lambda it, why: susp.append(why)
    for x in kw.values():
        v.it.resolve(x)
    out = run_kw(v, PX + "." + target_fn, w.p, kw)
    k = v.it.resolve(kind)
    valid = k in ("SNI", "PATH") and v.it.resolve(sni if k == "SNI" else path) is not None and (not with_target or v.it.resolve(tgt) is not None)
    off, nid, events = w.state()
    puts = v.event_parts("put")
    if not valid:
        v.prove("invalid-route-is-refused", z3.BoolVal(out.kind == "raise" and out.exc_name() == "ValueError"))
        v.prove("refused-route-changes-nothing", z3.And(z3.BoolVal(not w.routes.ops and not puts), nid == n0))
        return
    v.cover("valid")
    if not v.ok_or(out, "valid-route-accepted"):
        return
    v.prove("changed-in-one-step", z3.BoolVal(not susp))
    key = sni if k == "SNI" else path
    key = SStr(v.it.resolve(key).t) if k == "SNI" else SStr(z3.Concat(w.prefix.t, v.it.resolve(key).t))
    had = w.present(z3.StringVal(k), key.t)
    # ---- the table
    now = w.routes.lookup((k, key))
    want = expected_route(w, k, key, v.it.resolve(tgt) if with_target else None)
    if with_target:
        v.prove("table-has-the-route", w.is_dict(now, want) if now is not MISSING else z3.BoolVal(False))
    else:
        v.prove("table-lost-the-route", z3.BoolVal(now is MISSING))
    ok2, on2 = v.str("other_kind"), v.str("other_name")
    v.ctx.assume(z3.Or(ok2.t != z3.StringVal(k), on2.t != key.t))
    before = w.present(ok2.t, on2.t)
    oth = w.routes.lookup((ok2, on2))
    v.prove("other-routes-untouched", z3.Not(before) if oth is MISSING else z3.And(before, v.eq(oth, SOpaque("route", w.route(ok2.t, on2.t)))))
    # ---- the log
    changed = z3.BoolVal(True) if with_target else had
    v.prove("one-new-id-per-change", z3.If(changed, nid == n0 + 1, nid == n0))
    v.prove("log-window-consistent", z3.And(off >= 0, off >= w.off.t, off <= nid - 1))
    ev = {"id": SInt(n0), "type": "PUT" if with_target else "DELETE", "route": None}
    lst = events
    n = seqlen(lst)
    v.prove("log-kept-contiguous", n == nid - 1 - off)
    i = v.ctx.fresh("pos", z3.IntSort())
    goals = []
    for c, el in at(lst, i):
        old = w.is_dict(el, {"id": SInt(off + 1 + i), "type": SStr(w.typ(off + 1 + i)), "route": SOpaque("route", w.rt(off + 1 + i))}) if not is_new(w, el) else z3.BoolVal(False)
        new = z3.And(new_event(w, el, n0, with_target, want), off + 1 + i == n0) if is_new(w, el) else z3.BoolVal(False)
        goals.append(z3.Implies(c, z3.If(off + 1 + i < n0, old, new)))
    v.prove("log-is-the-history", z3.Implies(z3.And(i >= 0, i < n), z3.And(goals)))
    # ---- the watchers
    q = v.ctx.fresh("q", QS)
    v.ctx.know("Queue", q)
    got = []
    for p in puts:
        if p.sorts:
            e = p.val(q)
            got.append((z3.And(p.guard(q), e[1].t == q), e))
        else:
            e = p.val()
            got.append((e[1].t == q, e))
    cnt = z3.Sum([z3.If(g, 1, 0) for g, _ in got]) if got else z3.IntVal(0)
    v.prove("each-watcher-told-exactly-once", z3.If(z3.And(changed, w.wmem(q)), cnt == 1, cnt == 0))
    told = []
    for g, e in got:
        l = v.it.resolve(e[2])
        if isinstance(l, VList) and len(l.items) == 1 and not isinstance(l.items[0], (SSeq, Part)):
            told.append(z3.Implies(g, new_event(w, l.items[0], n0, with_target, want)))
        else:
            told.append(z3.Not(g))
    v.prove("watchers-told-this-change", z3.And(told))


def run_kw(v, q, p, kw):
    return v.run(q, p, **{k: v.it.resolve(x) for k, x in kw.items()})


def is_new(w, el):
    r = w.field(el, "route")
    return isinstance(r, VDict)


def new_event(w, el, n0, with_target, want):
    r = w.field(el, "route")
    t = w.field(el, "type")
    i = w.field(el, "id")
    d = w.it.resolve(el)
    if t is None or i is None or not isinstance(r, VDict) or len(d.d) != 3:
        return z3.BoolVal(False)
    body = w.is_dict(r, want)
    if not with_target:
        # only kind and name matter to whoever applies a removal
        keys = {k: x for k, x in want.items()}
        body = z3.And([w.v.eq(w.field(r, k), x) if w.field(r, k) is not None else z3.BoolVal(False) for k, x in keys.items()])
    return z3.And(w.v.eq(i, SInt(n0)), w.v.eq(t, "PUT" if with_target else "DELETE"), body)


# ------------------------------------------------------------------- handler
class Serving(World):
    def __init__(self, v):
        super().__init__(v)
        it = v.it
        self.hdr = v.dyn("authorization", [("absent", None), ("present", v.str("header"))])
        self.watch = v.dyn("watch", [("absent", None), ("empty", ""), ("1", "1")])
        self.last = v.dyn("last_id", [("absent", None), ("given", v.str("last_id"))])
        q = lambda f: v.fake("Query", get=v.native(f))

        def query(it, a, k):
            x = it.resolve({"watch": self.watch, "last_id": self.last}.get(a[0]))
            return (a[1] if len(a) > 1 else k.get("default")) if x is None else x

        self.request = v.fake("Request", headers=q(lambda it, a, k: self.hdr if a[0] == "Authorization" else None), query=q(query), app=v.pydict({}))
        self.gets = 0
        self.cur = None
        self.checked = False
        self.served = []
        self.queues = []
        it.lib["asyncio.Queue"] = self.mkqueue
        v.ctx.state["suspend_hook"] = self.suspended
        self.watchers = v.fake("Watchers", add=v.native(self.w_add), discard=v.native(self.w_discard), remove=v.native(self.w_discard))
        self.p.attrs["_watchers"] = self.watchers
        self.active = []

    def w_add(self, it, a, k):
        self.active.append(a[0])

    def w_discard(self, it, a, k):
        self.active = [x for x in self.active if x is not a[0]]

    def mkqueue(self, it, a, k):
        v = self.v
        pend = []

        def put(it, a, k):
            pend.append(a[0])

        def get(it, a, k):
            v.prove("written-before-the-next-is-taken", z3.BoolVal(self.cur is None))
            if pend:
                self.before_wait()
                x = pend.pop(0)
            else:
                suspended = True
                self.suspended(it, "get")
                if v.choose("event", "cancelled") == "cancelled":
                    import asyncio

                    it.raise_(asyncio.CancelledError)
                x = v.opaque("later")
            self.gets += 1
            self.cur = x
            return x

        o = v.fake("AQueue", put_nowait=v.native(put), get=v.afn(get), empty=v.native(lambda *a: not pend))
        o.attrs["g_pend"] = pend
        self.queues.append(o)
        return o

    def before_wait(self):
        """About to give up control (or to consume): a registered watcher's
        queue must hold exactly the changes after the id it asked from."""
        if self.checked or not self.active:
            return
        self.checked = True
        v = self.v
        v.cover("registered")
        v.prove("registers-one-queue", z3.BoolVal(len(self.active) == 1 and self.active[0] in self.queues))
        items = []
        for l in self.active[0].attrs["g_pend"]:
            l = v.it.resolve(l)
            items += l.items if isinstance(l, VList) else [l]
        lid = self.last_id()
        v.prove("unknown-id-is-told-to-refresh", z3.And(lid >= self.off.t, lid < self.nid.t))
        check_log(self, "receives-every-later-change-once-in-order", VList(items), lid + 1, self.nid.t - 1)
        v.ctx.state["registered"] = True

    def last_id(self):
        x = self.it.resolve(self.last)
        if x is None:
            return z3.IntVal(0)
        return z3.Function("int_parse", z3.StringSort(), z3.IntSort())(x.t)

    def suspended(self, it, why):
        if self.active:
            self.before_wait()
            return
        # anything may have been added meanwhile
        n2 = self.ctx.fresh("next_id", z3.IntSort())
        o2 = self.ctx.fresh("offset", z3.IntSort())
        self.ctx.assume(z3.And(n2 >= self.nid.t, o2 >= self.off.t, o2 <= n2 - 1))
        self.nid, self.off = SInt(n2), SInt(o2)
        p = self.p.attrs
        p.update(_next_id=self.nid, offset=self.off, events=VList([self.log_seq(o2, n2)]))

    def cred(self):
        h = self.it.resolve(self.hdr)
        if h is None:
            return z3.BoolVal(False)
        return h.t == z3.Concat(z3.StringVal("token "), self.token.t)


def serve(v, pid):
    w = Serving(v)
    it = v.it
    st = {"writes": 0, "prepared": False}

    def ev_hook():
        pass

    hdr_ok = w.cred
    orig_event = v.ctx.event

    def event(kind, *a):
        if kind == "stream_prepare":
            st["prepared"] = True
            if pid == "C02":
                v.prove("nothing-served-without-the-token", hdr_ok())
        if kind == "stream_write":
            if pid == "C02":
                v.prove("nothing-served-without-the-token", hdr_ok())
            else:
                check_write(w, a[0])
        return orig_event(kind, *a)

    v.ctx.event = event
    LoopAny(v, w)
    out = loops.run(v, PX + ".routes_handler", w.p, w.request)
    if out is None:
        return
    if pid == "C02":
        good = hdr_ok()
        h = it.resolve(w.hdr)
        wellformed = z3.BoolVal(True) if h is None else z3.Or(z3.Contains(h.t, z3.StringVal(" ")), h.t == z3.StringVal(""))
        code = out.val.attrs.get("status") if out.kind == "raise" else None
        v.prove("nothing-served-without-the-token", z3.Or(good, z3.BoolVal(out.kind == "raise" and not st["prepared"])))
        v.prove("401-unless-malformed", z3.Or(good, z3.BoolVal(code == 401), z3.Not(wellformed)))
        v.prove("token-is-accepted", z3.Implies(good, z3.BoolVal(code != 401)))
        return
    v.ctx.assume(hdr_ok())
    if v.ctx.check() == z3.unsat:
        raise Infeasible
    v.prove("stops-watching-when-done", z3.BoolVal(not w.active))
    watch = it.resolve(w.watch)
    parsed = z3.BoolVal(True)
    if it.resolve(w.last) is not None:
        parsed = z3.Function("int_parses", z3.StringSort(), z3.BoolSort())(it.resolve(w.last).t)
    if watch:
        if out.kind == "raise" and out.exc_name() == "HTTPGone":
            lid = w.last_id()
            v.prove("refresh-only-when-needed", z3.Or(lid < w.off.t, lid >= w.nid.t))
            v.prove("refresh-only-for-valid-ids", parsed)
            v.cover("told-to-refresh")
        elif out.kind == "raise" and out.exc_name() == "HTTPUnprocessableEntity":
            v.prove("rejects-only-invalid-ids", z3.Not(parsed))
        else:
            v.prove("watch-served", z3.And(parsed, z3.BoolVal(w.checked and (out.ok or out.exc_name() == "CancelledError"))))
    else:
        v.cover("table")
        if not v.ok_or(out, "table-served"):
            return
        body = it.resolve(out.val.attrs["body"])
        v.prove("table-status", z3.BoolVal(out.val.attrs["status"] == 200))
        v.prove("id-of-the-last-change", v.eq(w.field(body, "id"), SInt(w.nid.t - 1)))
        rs = w.field(body, "routes")
        if not isinstance(rs, VList):
            it.unsupported("routes of the answer")
        ok = z3.BoolVal(False)
        if len(rs.items) == 1 and isinstance(rs.items[0], Part) and rs.items[0].sorts == ("RouteKey",):
            x = v.ctx.fresh("rk", RK)
            v.ctx.know("RouteKey", x)
            p, q = rs.items[0], w.table.items[0]
            ok = z3.And(p.guard(x) == q.guard(x), z3.Implies(q.guard(x), v.eq(p.val(x), q.val(x))))
        v.prove("the-table-exactly", ok)


def check_write(w, data):
    v, it = w.v, w.it
    t = it.bterm(it.resolve(data))
    good = []
    for d, payload in w.payloads:
        p = it.resolve(payload)
        ev = w.field(p, "events") if isinstance(p, VDict) else None
        if ev is not None and len(p.d) == 1:
            good.append(z3.And(t == z3.Concat(d, z3.StringVal("\n")), z3.BoolVal(ev is it.resolve(w.cur)) if w.cur is not None else z3.BoolVal(False)))
    v.prove("writes-what-it-took", z3.Or(good) if good else z3.BoolVal(False))
    v.cover("writes")
    w.cur = None


class LoopAny(loops.WhileInv):
    """`while True` over the queue. Loop invariant: everything taken from the
    queue so far has been written. The body runs once from an arbitrary state
    (loop variables havocked; queue with or without backlog)."""

    def __init__(self, v, w):
        super().__init__(v, lambda init, cur: {})
        self.w = w

    def __call__(self, it, n, env):
        if self.used:
            it.unsupported("second loop", n)
        self.used = True
        v = self.v
        if v.con.pid == "C14":
            v.prove("all-taken-is-written", z3.BoolVal(self.w.cur is None))
        for x in sorted(loops.modified_names(n)):
            if x in env.vars:
                v.ctx.mut_dict(env.vars, x, v.opaque("any_" + x))
        try:
            if not it.truth(it.ev(n.test, env)):
                return True
            it.ex_block(n.body, env)
        except ContinueEx:
            pass
        except BreakEx:
            return True
        if v.con.pid == "C14":
            v.prove("all-taken-is-written", z3.BoolVal(self.w.cur is None))
        raise loops.StopBody


# --------------------------------------------------------------------- setup
def setup(v, pid):
    """Proxy.setup from a blank object: initial state, and the routes it
    registers."""
    it, ctx = v.it, v.ctx
    regs, puts = [], []
    ext = v.bool("externally_managed")
    url, prefix, tok = v.str("gateway_url"), v.str("prefix"), v.str("proxy_token")
    app = v.fake("App", on_shutdown=VList([]), add_routes=v.native(lambda it, a, k: regs.extend(it.to_pylist(a[0]))))
    router = v.fake("Router")
    for m in ("get", "post", "put", "delete", "patch", "view", "head"):
        router.attrs["add_" + m] = v.native(lambda it, a, k, m=m: regs.append((m.upper(), a[0], a[1])))
    app.attrs["router"] = router
    for m in ("get", "post", "put", "delete", "patch", "view", "head"):
        it.lib["aiohttp.web." + m] = lambda it, a, k, m=m: (m.upper(), a[0], a[1])
    it.lib["weakref.WeakSet"] = lambda it, a, k: VSet([])
    it.overrides[PX + ".start_proxy_process"] = lambda it, a, k: ctx.event("start_process")
    it.overrides[PX + ".monitor_proxy_process"] = lambda it, a, k: ctx.event("monitor")
    it.overrides["dask_gateway_server.utils.Flag"] = lambda it, a, k: v.fake("Flag", set=v.native(lambda *a: None))
    it.overrides["dask_gateway_server.utils.TaskPool"] = lambda it, a, k: v.fake("TaskPool", spawn=v.native(lambda *a: None))
    p = v.obj(PX, prefix=prefix, api_token=tok, max_events=v.int("max_events", 0), log=noop_log(), externally_managed=ext, gateway_url=url)
    v.case(lambda ev: {"kind": "proxy", "offset": 0, "next": 1, "max": ev(z3.Int("max_events")), "target": "setup"})
    out = v.run(PX + ".setup", p, app)
    if not v.ok_or(out, "starts"):
        return
    if pid == "C14":
        # the table holds exactly the route to the gateway, and the log agrees
        d = it.resolve(p.attrs["routes"])
        key = ("PATH", SStr(z3.Concat(prefix.t, z3.StringVal("/"))))
        okd = isinstance(d, VDict) and len(d.d) == 1 and not d.parts
        v.prove("starts-with-the-gateway-route", z3.BoolVal(False) if not okd else z3.And([z3.And(v.eq(k, key), World.is_dict(_W(v), x, {"kind": "PATH", "path": key[1], "target": url})) for k, x in d.d.values()]))
        evs = it.resolve(p.attrs["events"])
        v.prove("starts-with-its-change-logged", z3.And(v.eq(p.attrs["offset"], 0), v.eq(p.attrs["_next_id"], 2), z3.BoolVal(False) if not isinstance(evs, VList) or seqlen(evs) is None else seqlen(evs) == 1))
        v.prove("starts-with-no-watchers", z3.BoolVal(isinstance(p.attrs["_watchers"], VSet) and not p.attrs["_watchers"].items))
        return
    # every route this component serves asks for the proxy token first
    v.prove("serves-the-routing-table", z3.BoolVal(any(r[:2] == ("GET", "/api/v1/routes") for r in regs)))
    # every handler, whatever it is, refuses without the token
    w = Serving(v)
    for a in ("routes", "events", "offset", "_next_id", "_watchers", "_proxy_contacted", "cg", "api_token", "prefix", "max_events"):
        p.attrs[a] = w.p.attrs[a]
    good = w.cred()
    ctx.assume(z3.Not(good))
    if ctx.check() == z3.unsat:
        raise Infeasible
    for m, path, h in regs:
        st = []
        e0 = len(ctx.events)
        LoopAny(v, w)
        try:
            o = v.attempt(lambda: it.call(h, [w.request]))
            st = [e for e in ctx.events[e0:] if e[0].startswith("stream")]
            served = o.kind == "return" or st
        except loops.StopBody:
            served = True
        v.prove("nothing-served-without-the-token", z3.BoolVal(not served))
        v.cover("refused")


class _W:
    def __init__(self, v):
        self.v, self.it = v, v.it
