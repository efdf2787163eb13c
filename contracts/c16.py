"""C16: the proxy's tables follow the updates; TLS is forwarded by SNI (Go:
dask-gateway-proxy/cmd and pkg/sni)."""
import z3

from pyvc.verify import *
from contracts import golang
from contracts.golang import B, I, S, Bytes, GoV, Map, Seq, SRef
from contracts.loops import StopBody, modified_names, run

M, SN = "go_main.", "go_sni."
try:
    golang.translator()
except Exception:
    pass
GO = "Go's strings, slices and maps as contracts/golang.py gives them; io.Copy returns at the end of its source, having written what it read, or at an error; a TCP connection's CloseWrite and CloseRead concern one direction"
KEY, TARGET = ref_sort("GoRouteKey"), ref_sort("GoTarget")
NOWHERE = z3.Const("no_target", TARGET)
key = z3.Function("route_key", S, KEY)  # of a path (see C15)
parsed = z3.Function("parsed_url", S, TARGET)
parse_ok = z3.Function("url_parses", S, B)
scheme = z3.Function("url_scheme", S, S)
TLS = z3.StringVal("tls://")
ROUTER, URLC = Fake("AnyRouter"), Fake("AnyURL")


class Router(SRef):
    """The routing table by the contracts of Put and Delete (C15)."""

    def __init__(self, tbl):
        SRef.__init__(self, ROUTER, z3.Const("a_router", ref_sort("AnyRouter")))
        self.tbl = tbl


def trimmed(t):
    return z3.If(z3.PrefixOf(TLS, t), z3.SubString(t, 6, z3.Length(t) - 6), t)


class Proxy(GoV):
    """A proxy with arbitrary tables."""

    def __init__(self, v):
        GoV.__init__(self, v)
        it, ctx = v.it, v.ctx
        n = v.native
        self.held = False
        self.needs_lock = True
        nop = n(lambda it2, a, k: None)
        s0, t0 = ctx.fresh_fn("sni", S, S), ctx.fresh_fn("tbl", KEY, TARGET)
        self.map = Map(lambda q: s0(q))
        self.router = Router(lambda q: t0(q))
        self.locks = []

        def lock(on, write):
            def fn(it2, a, k):
                ctx.mut_append(self.locks, (on, write))
                ctx.mut_attr(self, "held", on and write)

            return n(fn)

        self.p = of_class(v, M + "Proxy", sniRoutes=self.map, router=self.router,
                        logger=v.fake("Logger", Level=v.int("level"), Infof=nop, Debugf=nop, Warnf=nop, Errorf=nop, Debug=nop, Info=nop, Warn=nop, Error=nop),
                        routesLock=v.fake("RWMutex", Lock=lock(True, True), Unlock=lock(False, True), RLock=lock(True, False), RUnlock=lock(False, False)))
        self.p.cls = v.cls(M + "Proxy")
        self.p.partial = True
        h = it.attr_hooks

        def put(it2, a, kw, o):
            k, u = key(self.s(a[0])), it.resolve(a[1])
            t = NOWHERE if u is None else u.t
            self.changing(o)
            f = o.tbl
            ctx.mut_attr(o, "tbl", lambda q: z3.If(q == k, t, f(q)))

        def drop(it2, a, kw, o):
            k = key(self.s(a[0]))
            self.changing(o)
            f = o.tbl
            ctx.mut_attr(o, "tbl", lambda q: z3.If(q == k, NOWHERE, f(q)))

        h["AnyRouter.Put"] = lambda it2, o, nm: n(lambda i, a, k: put(i, a, k, o))
        h["AnyRouter.Delete"] = lambda it2, o, nm: n(lambda i, a, k: drop(i, a, k, o))
        it.overrides["go_router.NewRouter"] = lambda it2, a, k: Router(lambda q: NOWHERE)
        h["AnyURL.Scheme"] = lambda it2, o, nm: SStr(o.scheme)
        h["eq:AnyURL"] = lambda it2, o, c: False if c is None else o.t == c.t
        self.parse_error = v.fake("error", Error=n(lambda i, a, k: "bad url"))

        def parse(it2, a, kw):
            t = self.s(a[0])
            if not ctx.branch(parse_ok(t)):
                return (None, self.parse_error)
            u = SRefURL(URLC, parsed(t))
            u.scheme = scheme(t)
            return (u, None)

        it.lib["golib_net_url.Parse"] = parse

    def changing(self, o):
        if self.needs_lock and (o is self.p.attrs.get("sniRoutes") or o is self.p.attrs.get("router")):
            self.v.prove("tables-change-under-the-lock", z3.BoolVal(self.held))

    def tables(self):
        a = self.p.attrs
        m, r = self.it.resolve(a["sniRoutes"]), self.it.resolve(a["router"])
        if not isinstance(m, Map) or not isinstance(r, Router):
            self.it.unsupported("tables of another form")
        return m.get, r.tbl


class SRefURL(SRef):
    pass


def route(v, kind, sni, path, target):
    r = v.fake("Route", Kind=SStr(kind), SNI=SStr(sni), Path=SStr(path), Target=SStr(target), targetURL=None)
    r.cls = v.cls(M + "Route")
    r.partial = True
    return r


def valid(kind, sni, path, target, full):
    named = z3.Or(z3.And(kind == "SNI", sni != ""), z3.And(kind == "PATH", path != ""))
    if not full:
        return named
    web = z3.And(parse_ok(target), z3.Or(scheme(target) == "http", scheme(target) == "https"))
    return z3.And(named, target != "", z3.Or(kind == "SNI", web))


def step(old, r, delete):
    """The tables after adding / removing one route."""
    kind, sni, path, target = r
    s, t = old
    if delete:
        ok, sv, tv = valid(*r, False), z3.StringVal(""), NOWHERE
    else:
        ok, sv, tv = valid(*r, True), trimmed(target), parsed(target)
    return (lambda q: z3.If(z3.And(ok, kind == "SNI", q == sni), sv, s(q)), lambda q: z3.If(z3.And(ok, kind == "PATH", q == key(path)), tv, t(q)))


def fields(v):
    return tuple(v.str(n).t for n in ("kind", "sni", "path", "target"))


def route_case(v, r, ev_type):
    def case(ev):
        g = lambda t: ev(SStr(t))
        return {"kind": "updates", "steps": [{"full": [{"kind": "SNI", "sni": "a", "target": "t"}, {"kind": "PATH", "path": "/a", "target": "http://a"}]},
                                             {"events": [{"id": 1, "type": ev_type, "route": {"kind": g(r[0]), "sni": g(r[1]), "path": g(r[2]), "target": g(r[3])}}]}]}

    v.case(case)


@contract("C16", M + "Route.Validate", assumes=[GO, "url.Parse is a function of its text"])
def validate(v):
    px = Proxy(v)
    f = fields(v)
    r = route(v, *f)
    full = v.choose("full", "name only") == "full"
    route_case(v, f, "PUT" if full else "DELETE")
    out = v.run(M + "Route.Validate", r, full)
    if not v.ok_or(out, "no-panic"):
        return
    e = v.it.resolve(out.val)
    ok = valid(*f, full)
    v.prove("exactly-the-valid-routes-are-accepted", ok == z3.BoolVal(e is None))
    a = r.attrs
    same = z3.And(v.eq(a["Kind"], SStr(f[0])), v.eq(a["SNI"], SStr(f[1])), v.eq(a["Path"], SStr(f[2])))
    v.prove("the-route-keeps-its-name", same)
    if e is None and full:
        v.cover("valid")
        u = v.it.resolve(a["targetURL"])
        v.prove("its-target", z3.If(f[0] == "SNI", v.eq(a["Target"], SStr(trimmed(f[3]))), z3.BoolVal(u is not None) if u is None else u.t == parsed(f[3])))


def one(fn, delete):
    def f(v):
        px = Proxy(v)
        px.needs_lock = False  # its callers hold it
        r = fields(v)
        old = px.tables()
        m0, r0 = px.p.attrs["sniRoutes"], px.p.attrs["router"]
        route_case(v, r, "DELETE" if delete else "PUT")
        out = v.run(M + "Proxy." + fn, px.p, route(v, *r))
        if not v.ok_or(out, "no-panic"):
            return
        q, k = v.str("any_name").t, v.ctx.fresh("any_key", KEY)
        s, t = px.tables()
        ws, wt = step(old, r, delete)
        v.cover("returns")
        ok = valid(*r, not delete)
        v.prove("an-invalid-route-changes-nothing", z3.Implies(z3.Not(ok), z3.And(s(q) == old[0](q), t(k) == old[1](k))))
        v.prove("exactly-this-route-changes", z3.Implies(ok, z3.And(s(q) == ws(q), t(k) == wt(k))))

    f.__name__ = fn
    contract("C16", M + "Proxy." + fn, name=fn, assumes=[GO, "Router.Put and Router.Delete by their contracts (C15)"])(f)


one("putRoute", False)
one("deleteRoute", True)


@contract("C16", M + "Proxy.clearRoutes", assumes=[GO])
def clear(v):
    px = Proxy(v)
    px.needs_lock = False
    v.case(lambda ev: {"kind": "updates", "steps": [{"full": [{"kind": "SNI", "sni": "a", "target": "t"}, {"kind": "PATH", "path": "/a", "target": "http://a"}]}, {"full": []}]})
    out = v.run(M + "Proxy.clearRoutes", px.p)
    if not v.ok_or(out, "no-panic"):
        return
    s, t = px.tables()
    v.prove("nothing-is-left", z3.And(s(v.str("any_name").t) == "", t(v.ctx.fresh("any_key", KEY)) == NOWHERE))


class Fold:
    """for x in seq: the tables after k elements are the k-fold of the spec."""

    def __init__(self, v, px, seq, start, stepf):
        self.v, self.px, self.seq, self.start, self.stepf = v, px, seq, start, stepf
        self.fs, self.ft = z3.Function("names_after", I, S, S), z3.Function("routes_after", I, KEY, TARGET)
        self.used, self.depth = False, 0
        self.q, self.k = v.ctx.fresh("any_name", S), v.ctx.fresh("any_key", KEY)
        v.ctx.state["for_hook"] = self

    def is_fold(self, j):
        s, t = self.px.tables()
        return z3.And(s(self.q) == self.fs(j, self.q), t(self.k) == self.ft(j, self.k))

    def __call__(self, it, n, env, is_async):
        v, ctx, px = self.v, self.v.ctx, self.px
        if self.depth:
            return False
        xs = it.resolve(it.ev(n.iter, env))
        if not isinstance(xs, tuple) or xs[0] is not self.seq:
            return False
        if self.used:
            it.unsupported("second loop", n)
        ctx.mut_attr(self, "used", True)
        s0, t0 = self.start
        v.assume(z3.And(self.fs(0, self.q) == s0(self.q), self.ft(0, self.k) == t0(self.k)))
        v.aux("the-fold-begins", self.is_fold(z3.IntVal(0)))
        # an arbitrary state in the loop
        j = ctx.fresh("done", I)
        v.assume(z3.And(j >= 0, j <= self.seq.n))
        s1, t1 = ctx.fresh_fn("sni", S, S), ctx.fresh_fn("tbl", KEY, TARGET)
        m, r = px.p.attrs["sniRoutes"], px.p.attrs["router"]
        ctx.mut_attr(m, "get", lambda q: s1(q))
        ctx.mut_attr(r, "tbl", lambda q: t1(q))
        for x in modified_names(n):
            if x in env.vars:
                ctx.mut_dict(env.vars, x, POISON)
        v.assume(self.is_fold(j))
        if ctx.branch(j == self.seq.n):
            return True
        x = self.seq.item(j)
        ws, wt = self.stepf(j, (lambda q: self.fs(j, q), lambda q: self.ft(j, q)))
        v.assume(z3.And(self.fs(j + 1, self.q) == ws(self.q), self.ft(j + 1, self.k) == wt(self.k)))
        ctx.mut_attr(self, "depth", 1)
        try:
            it.assign(n.target, x if xs[1] == "values" else (SInt(j), x), env)
            it.ex_block(n.body, env)
        except ContinueEx:
            pass
        except BreakEx:
            it.unsupported("break", n)
        v.prove("each-update-in-its-turn", self.is_fold(j + 1))
        v.rep.paths += 1
        raise StopBody


def update(fn, events):
    def f(v):
        px = Proxy(v)
        it, ctx = v.it, v.ctx
        it.lib["golang.values__"] = lambda it2, a, kw: (it.resolve(a[0]), "values")
        it.lib["golang.items__"] = lambda it2, a, kw: (it.resolve(a[0]), "items")
        n = v.int("n", 0)
        fn_ = {k: z3.Function("item_" + k, I, S) for k in ("kind", "sni", "path", "target", "type")}

        def item(j):
            r = route(v, *(fn_[k](j) for k in ("kind", "sni", "path", "target")))
            if not events:
                return r
            return v.fake("Event", Route=r, Type=SStr(fn_["type"](j)), Id=SInt(z3.Function("item_id", I, I)(j)))

        seq = Seq(n.t, item)
        old = px.tables()
        q0 = ctx.fresh("x", S)

        def stepf(j, st):
            r = tuple(fn_[k](j) for k in ("kind", "sni", "path", "target"))
            if not events:
                return step(st, r, False)
            ty = fn_["type"](j)
            a, b = step(st, r, False), step(st, r, True)
            pick = lambda i: lambda q: z3.If(ty == "PUT", a[i](q), z3.If(ty == "DELETE", b[i](q), st[i](q)))
            return pick(0), pick(1)

        start = old if events else (lambda q: z3.StringVal(""), lambda q: NOWHERE)
        F = Fold(v, px, seq, start, stepf)
        def case(ev):
            g = lambda k: ev(SStr(fn_[k](z3.IntVal(0))))
            r = {k: g(k) for k in ("kind", "sni", "path", "target")}
            first = {"full": [{"kind": "SNI", "sni": "a", "target": "t"}, {"kind": "PATH", "path": "/a", "target": "http://a"}]}
            return {"kind": "updates", "steps": [first, {"events": [{"id": 1, "type": g("type"), "route": r}]} if events else {"full": [r]}]}

        v.case(case)
        out = run(v, M + "Proxy." + fn, px.p, seq)
        if out is None or not v.ok_or(out, "no-panic"):
            return
        if not F.used:
            it.unsupported("loop rewritten")
        v.cover("returns")
        v.prove("the-tables-are-what-the-update-says", F.is_fold(n.t))
        v.prove("lock-released", z3.BoolVal(not px.held and [x for x in px.locks] == [(True, True), (False, True)]))

    f.__name__ = fn
    contract("C16", M + "Proxy." + fn, name=fn, assumes=[GO, "Router.Put and Router.Delete by their contracts (C15)"])(f)


update("UpdateFromRoutes", False)
update("UpdateFromEvents", True)


def error(v, text="error"):
    return v.fake("error", Error=v.native(lambda i, a, k: text))


def logger(v):
    nop = v.native(lambda i, a, k: None)
    return v.fake("Logger", Level=v.int("level"), **{k: nop for k in ("Infof", "Debugf", "Warnf", "Errorf", "Debug", "Info", "Warn", "Error")})


def of_class(v, name, **attrs):
    o = v.fake(name.rsplit(".", 1)[-1], **attrs)
    o.cls = v.cls(name)
    o.partial = True
    return o


class Zero(GoV):
    """zero__ of the named types gives the given objects (once each)."""

    def __init__(self, v, **zeros):
        GoV.__init__(self, v)
        self.zeros = zeros

    def zero__(self, a, kw):
        for k, f in self.zeros.items():
            if a[0] == k or a[0].endswith("." + k):
                return f()
        return GoV.zero__(self, a, kw)


JSON_ = "encoding/json.Unmarshal reads the document it is given, whole, or returns an error; bufio.Scanner.Scan moves to the next line"


@contract("C16", M + "evIter.Next", assumes=[GO, JSON_])
def next_message(v):
    n = v.native
    msg = v.fake("EventsMsg", Events=None)
    g = Zero(v, EventsMsg=lambda: msg)
    it, ctx = v.it, v.ctx
    more, bad = ctx.branch(z3.Bool("another_line")), ctx.branch(z3.Bool("unreadable"))
    log = []
    line, events = v.fake("line"), v.fake("events")
    before = v.fake("events before")
    broken = error(v)

    def scan(it2, a, k):
        ctx.mut_append(log, "scan")
        return more

    def unmarshal(it2, a, k):
        v.prove("the-message-that-came", z3.BoolVal(it.resolve(a[0]) is line and it.resolve(a[1]) is msg and log.count("scan") == 1))
        if bad:
            return broken
        ctx.mut_dict(msg.attrs, "Events", events)
        return None

    it.lib["golib_encoding_json.Unmarshal"] = unmarshal
    me = of_class(v, M + "evIter", err=None, events=before, body=v.fake("Body", Close=n(lambda i, a, k: ctx.mut_append(log, "close"))),
                  scanner=v.fake("Scanner", Scan=n(scan), Bytes=n(lambda i, a, k: line), Err=n(lambda i, a, k: None)))
    a = {"kind": "PATH", "path": "/a", "target": "http://a"}
    v.case(lambda ev: {"kind": "watch", "tables": [{"routes": [a], "id": 1}], "watches": [[{"events": [{"id": 2, "type": "DELETE", "route": a}]}, {"events": [{"id": 3, "type": "PUT", "route": a}]}] + (['{"ev\n'] if bad else []), [410]]})
    out = v.run(M + "evIter.Next", me)
    if not v.ok_or(out, "no-panic"):
        return
    v.prove("one-message-at-a-time", z3.BoolVal(log.count("scan") == 1))
    r = v.eq(out.val, True)
    v.cover("returns")
    if not more or bad:
        v.prove("the-end-is-reported", z3.And(z3.Not(r), z3.BoolVal("close" in log)))
        if more:
            v.prove("a-failure-is-reported", z3.BoolVal(it.resolve(me.attrs["err"]) is not None))
        return
    v.prove("its-events-are-given", z3.And(r, z3.BoolVal(it.resolve(me.attrs["events"]) is events and it.resolve(me.attrs["err"]) is None)))
    ev2, er2 = v.run(M + "evIter.Events", me), v.run(M + "evIter.Err", me)
    if v.ok_or(ev2, "no-panic") and v.ok_or(er2, "no-panic"):
        v.prove("given-by-Events-and-Err", z3.BoolVal(it.resolve(ev2.val) is events and it.resolve(er2.val) is None))


class WatchLoops:
    """Nested loops: at the head of each, the variables found to equal the
    position (the id of the last update applied) when it is entered are the
    invariant, with what the ghost state says; an arbitrary iteration keeps
    it."""

    def __init__(self, v, G):
        self.v, self.G, self.depth = v, G, 0
        v.ctx.state["while_hook"] = self

    def positions(self, env):
        G, ctx = self.G, self.v.ctx
        if not G["synced"]:
            return []
        out = []
        for x in sorted(env.vars):
            val = env.vars[x]
            if isinstance(val, SInt) and not isinstance(val, bool):
                if ctx.check(val.t != G["pos"]) == z3.unsat:
                    out.append(x)
        return out

    def __call__(self, it, n, env):
        v, ctx, G = self.v, self.v.ctx, self.G
        if self.depth > 2:
            it.unsupported("another loop", n)
        outer = self.depth == 0
        same = [] if outer else self.positions(env)
        if not outer and G["synced"] and not same:
            it.unsupported("the position is kept elsewhere", n)
        state = {k: G[k] for k in ("synced", "refetch", "pending", "open")}
        for x in sorted(modified_names(n)):
            if x in env.vars:
                val = it.resolve(env.vars[x])
                ctx.mut_dict(env.vars, x, SInt(ctx.fresh("l_" + x, I)) if isinstance(val, (int, SInt)) and not isinstance(val, bool) else POISON)
        for x in env.vars:  # changed by a function value
            val = env.vars[x]
            if x in G["shared"](env) and isinstance(val, (int, SInt)):
                ctx.mut_dict(env.vars, x, SInt(ctx.fresh("l_" + x, I)))
        pos = ctx.fresh("pos", I)
        ctx.mut_dict(G, "pos", pos)
        if outer:  # nothing is known of the tables
            ctx.mut_dict(G, "synced", False)
            ctx.mut_dict(G, "pending", None)
            ctx.mut_dict(G, "open", None)
            ctx.mut_dict(G, "refetch", True)
        for x in same:
            ctx.mut_dict(env.vars, x, SInt(pos))
        ctx.mut_attr(self, "depth", self.depth + 1)
        if not it.truth(it.ev(n.test, env)):
            ctx.mut_attr(self, "depth", self.depth - 1)
            return True
        try:
            it.ex_block(n.body, env)
        except ContinueEx:
            pass
        except BreakEx:
            ctx.mut_attr(self, "depth", self.depth - 1)
            return True
        if not outer:
            for x in same:
                v.aux("the-position-is-that-of-the-last-update", z3.BoolVal(False) if x not in env.vars or not isinstance(it.resolve(env.vars[x]), SInt) else it.resolve(env.vars[x]).t == G["pos"])
            for k in ("synced", "refetch", "open"):
                v.aux("the-state-is-kept", z3.BoolVal(G[k] is state[k]))
            G["unapplied"]("no-update-is-left-out")
        v.rep.paths += 1
        raise StopBody


@contract("C16", M + "Proxy.watchRoutes", assumes=[GO, "the API client's functions by their contracts below"])
def watch_routes(v):
    g = GoV(v)
    it, ctx, n = v.it, v.ctx, v.native
    G = {"synced": False, "refetch": True, "pending": None, "open": None, "pos": z3.IntVal(-1), "table": None}
    put = lambda **k: [ctx.mut_dict(G, a, b) for a, b in k.items()]
    a = {"kind": "PATH", "path": "/a", "target": "http://a"}
    b = {"kind": "PATH", "path": "/b", "target": "http://b"}
    e = lambda i, t, r: {"id": i, "type": t, "route": r}
    v.case(lambda ev: {"kind": "watch", "tables": [500, {"routes": [a], "id": 4}, {"routes": [b], "id": 9}, {"routes": [a, b], "id": 11}],
                       "watches": [[{"events": [e(5, "PUT", b), e(6, "DELETE", a)]}, {"events": []}, {"events": [e(7, "PUT", a)]}], [], [410], [{"events": [e(10, "DELETE", b)]}, '{"ev\n'], [503]]})
    # variables that function values change
    import ast as _ast

    fn = v.func(M + "Proxy.watchRoutes")
    names = {x for d in _ast.walk(fn.node) if isinstance(d, _ast.Nonlocal) for x in d.names}
    G["shared"] = lambda env: names

    def unapplied(why):
        p = G["pending"]
        if p is not None:
            v.prove(why, p.n == 0)

    G["unapplied"] = unapplied
    too_old = error(v, "too old")
    it.overrides[M + "errTooOld"] = too_old
    for k, x in (("Nanosecond", 1), ("Microsecond", 1000), ("Millisecond", 1000000), ("Second", 1000000000), ("Minute", 60000000000)):
        it.overrides["golib_time." + k] = x
    it.lib["golib_time.Sleep"] = lambda it2, a, k: None
    it.attr_hooks["int.Seconds"] = lambda it2, o, name: n(lambda i, a, k: v.real("secs"))

    def get_table(it2, a, k):
        if not ctx.branch(ctx.fresh("fetched", B)):
            return (None, error(v))
        t = v.fake("RoutesMsg", Routes=v.fake("routes"), Id=SInt(ctx.fresh("table_id", I)))
        put(table=t)
        return (t, None)

    def whole(it2, a, k):
        t = G["table"]
        ok = t is not None and it.resolve(a[0]) is t.attrs["Routes"]
        v.prove("a-table-is-applied-as-fetched", z3.BoolVal(ok))
        if ok:
            put(synced=True, refetch=False, pending=None, pos=t.attrs["Id"].t, open=None)

    def open_watch(it2, a, k):
        v.prove("a-lost-position-is-not-asked-for-again", z3.BoolVal(G["synced"] and not G["refetch"]))
        unapplied("no-update-is-left-out")
        last = it.resolve(a[0])
        v.prove("asks-from-the-last-event-applied", z3.BoolVal(last == 0) if not isinstance(last, SInt) else last.t == G["pos"])
        if ctx.branch(ctx.fresh("too_old", B)):
            put(refetch=True)
            return (None, too_old)
        if ctx.branch(ctx.fresh("refused", B)):
            put(refetch=True)
            return (None, error(v))
        s = v.fake("evIter", Next=n(lambda i, x, y: following(s)), Events=n(lambda i, x, y: G["pending"] if G["open"] is s else it.unsupported("events of another stream")), Err=n(lambda i, x, y: s.attrs["failed"]), failed=None)
        put(open=s, pending=None)
        return (s, None)

    def following(s):
        v.prove("reads-the-stream-it-opened", z3.BoolVal(G["open"] is s))
        unapplied("no-update-is-left-out")
        if not ctx.branch(ctx.fresh("another", B)):
            bad = ctx.branch(ctx.fresh("failed", B))
            put(pending=None, open=None)
            if bad:
                put(refetch=True)
                ctx.mut_dict(s.attrs, "failed", error(v))
            return False
        ids = ctx.fresh_fn("event_id", I, I)
        m = ctx.fresh("events", I)
        v.assume(m >= 0)
        put(pending=Seq(m, lambda j: v.fake("Event", Id=SInt(ids(j)))))
        return True

    def events(it2, a, k):
        s = it.resolve(a[0])
        p = G["pending"]
        v.prove("each-message-is-applied-once", z3.BoolVal(p is not None and s is p))
        if p is not None and s is p:
            v.assume(p.n > 0) if ctx.branch(p.n > 0) else None
            last = p.item(p.n - 1).attrs["Id"].t
            put(pos=z3.If(p.n > 0, last, G["pos"]), pending=None)

    client = v.fake("apiClient", getRoutingTable=n(get_table), watchRoutingEvents=n(open_watch))
    url, token = v.str("api_url"), v.str("api_token")

    def new_client(it2, a, k):
        v.prove("the-configured-API", z3.And(v.eq(a[0], url), v.eq(a[1], token)))
        return client

    it.overrides[M + "NewApiClient"] = new_client
    p = of_class(v, M + "Proxy", logger=logger(v), UpdateFromRoutes=n(whole), UpdateFromEvents=n(events))
    WatchLoops(v, G)
    out = run(v, M + "Proxy.watchRoutes", p, url, token, SInt(ctx.fresh("max_backoff", I)))
    if out is None:
        return
    v.prove("watching-never-ends", z3.BoolVal(False))


HTTP = "net/http's Client.Do sends the request it is given and returns its response or an error; url.Parse and json decode as documented"


def api(fn, watching):
    def f(v):
        n = v.native
        msg = v.fake("RoutesMsg", Routes=None, Id=0)
        g = Zero(v, RoutesMsg=lambda: msg)
        it, ctx = v.it, v.ctx
        url, token = v.str("api_url"), v.str("api_token")
        log, head = [], {}
        last = v.int("last_id", 0)
        status = v.int("status")
        digits = z3.Function("decimal", I, S)
        it.lib["golib_strconv.FormatUint"] = lambda it2, a, k: SStr(digits(g.i(a[0]))) if it.resolve(a[1]) == 10 else it.unsupported("base")
        body = v.fake("Body", Close=n(lambda i, a, k: ctx.mut_append(log, ("close",))))
        resp = v.fake("Response", StatusCode=status, Status=v.str("status_text"), Body=body)
        req = v.fake("Request", Header=v.fake("Header", Set=n(lambda i, a, k: ctx.mut_dict(head, it.resolve(a[0]), it.resolve(a[1])))))
        bad_url, down, garbled = (ctx.branch(z3.Bool(x)) for x in ("bad_url", "unreachable", "unreadable"))

        def new_request(it2, a, k):
            ctx.mut_append(log, ("request", it.resolve(a[0]), it.resolve(a[1]), it.resolve(a[2])))
            return (None, error(v)) if bad_url else (req, None)

        def do(it2, a, k):
            v.prove("sends-its-request", z3.BoolVal(it.resolve(a[0]) is req))
            want = z3.Concat(z3.StringVal("token "), token.t)
            auth = head.get("Authorization")
            v.prove("carries-the-token", z3.BoolVal(False) if auth is None else v.eq(auth, SStr(want)))
            ctx.mut_append(log, ("do",))
            return (None, error(v)) if down else (resp, None)

        def decode(it2, a, k):
            v.prove("decodes-the-body", z3.BoolVal(it.resolve(a[0]) is msg))
            if garbled:
                return error(v)
            ctx.mut_append(log, ("decoded",))
            return None

        it.lib["golib_net_http.NewRequest"] = new_request

        def decoder(it2, a, k):
            v.prove("decodes-the-body", z3.BoolVal(it.resolve(a[0]) is body))
            return v.fake("Decoder", Decode=n(decode))

        it.lib["golib_encoding_json.NewDecoder"] = decoder
        too_old = error(v, "too old")
        it.overrides[M + "errTooOld"] = too_old
        stream = v.fake("evIter")

        def new_iter(it2, a, k):
            v.prove("reads-the-body", z3.BoolVal(it.resolve(a[0]) is body and ("close",) not in log))
            return stream

        it.overrides[M + "NewEvIter"] = new_iter
        me = of_class(v, M + "apiClient", apiURL=url, apiToken=token, client=v.fake("Client", Do=n(do)))
        a = {"kind": "PATH", "path": "/a", "target": "http://a"}
        v.case(lambda ev: {"kind": "watch", "tables": [500, 404, {"routes": [a], "id": 4}, {"routes": [a], "id": 5}, {"routes": [], "id": 6}, {"routes": [], "id": 12345678901}],
                           "watches": [[404], [410], [503], [{"events": [{"id": 12345678905, "type": "PUT", "route": a}]}]]})
        out = v.run(M + "apiClient." + fn, me, last) if watching else v.run(M + "apiClient." + fn, me)
        if not v.ok_or(out, "no-panic"):
            return
        res, err = [it.resolve(x) for x in out.val]
        rq = [x for x in log if x[0] == "request"]
        want = z3.Concat(url.t, z3.StringVal("?watch=1&last_id="), digits(last.t)) if watching else url.t
        v.prove("asks-the-API-for-it", z3.And(z3.BoolVal(len(rq) == 1), v.eq(rq[0][1], "GET"), v.eq(rq[0][2], SStr(want)), z3.BoolVal(rq[0][3] is None)) if rq else z3.BoolVal(False))
        v.cover("returns")
        refused = status.t >= 400
        failed = z3.Or(z3.BoolVal(bad_url or down), refused, z3.BoolVal(garbled and not watching))
        v.prove("every-failure-is-an-error", failed == z3.BoolVal(err is not None))
        if err is not None:
            if watching:
                v.prove("an-expired-position-is-recognised", z3.BoolVal(err is too_old) == z3.And(z3.BoolVal(not bad_url and not down), status.t == 410))
        elif watching:
            v.prove("the-stream-that-was-opened", z3.BoolVal(res is stream and ("close",) not in log))
        else:
            v.prove("the-table-that-was-sent", z3.BoolVal(res is msg and ("decoded",) in log))
        if not bad_url and not down and (err is not None or not watching):
            v.prove("closed-when-done", z3.BoolVal(("close",) in log))

    f.__name__ = fn
    contract("C16", M + "apiClient." + fn, name=fn, assumes=[GO, HTTP])(f)


api("getRoutingTable", False)
api("watchRoutingEvents", True)

PEEK = "bufio.Reader.Peek returns the next n bytes without advancing, or what it has and an error; all it took from the connection and did not give out is in its buffer"
TLS_ = "crypto/tls calls GetConfigForClient with the ServerName of the ClientHello it reads, if it is one, and reads only from the connection given to it"
server_name = z3.Function("server_name", S, S)
is_hello = z3.Function("is_hello", S, B)


class Wrap(GoV):
    """`new` of the wrappers gives plain records."""

    def new__(self, a, kw):
        if a[0] == "peekedTCPConn":
            o = self.v.fake("peekedTCPConn", **{"peeked": None, **{k: self.it.resolve(x) for k, x in kw.items()}})
            return o
        return self.v.fake(str(a[0]), **{k: self.it.resolve(x) for k, x in kw.items()})

    struct__ = new__


@contract("C16", SN + "ReadSNI", assumes=[GO, PEEK, TLS_])
def read_sni(v):
    g = Wrap(v)
    it, ctx, n = v.it, v.ctx, v.native
    stream = v.str("stream").t  # all the client will ever send
    conn = v.fake("TCPConn")
    st = {"b": z3.IntVal(0)}  # bytes taken from the connection, all buffered
    broken = error(v)

    def peek(it2, a, k):
        want = g.i(a[0])
        b = st["b"]
        if ctx.branch(want <= b):
            return (Bytes(z3.SubString(stream, 0, want)), None)
        b2 = ctx.fresh("buffered", I)
        v.assume(z3.And(b2 >= b, b2 <= z3.Length(stream)))
        ctx.mut_dict(st, "b", b2)
        if ctx.branch(want <= b2):
            return (Bytes(z3.SubString(stream, 0, want)), None)
        return (Bytes(z3.SubString(stream, 0, b2)), broken)

    reader = v.fake("Reader", Peek=n(peek), Buffered=n(lambda i, a, k: SInt(st["b"])))

    def new_reader(it2, a, k):
        v.prove("reads-this-connection", z3.BoolVal(it.resolve(a[0]) is conn))
        return reader

    it.lib["golib_bufio.NewReader"] = new_reader
    it.lib["golib_bytes.NewReader"] = lambda it2, a, k: v.fake("bytes", data=it.resolve(a[0]))
    seen = []

    def server(it2, a, k):
        c, conf = it.resolve(a[0]), it.resolve(a[1])
        r = c.attrs.get("r") if isinstance(c, Obj) else None
        d = r.attrs.get("data") if isinstance(r, Obj) else None
        if not isinstance(d, Bytes) or "GetConfigForClient" not in conf.attrs:
            it.unsupported("TLS on another connection")

        def handshake(it3, b, kk):
            ctx.mut_append(seen, d.data)
            if ctx.branch(is_hello(d.data)):
                it.call(conf.attrs["GetConfigForClient"], [v.fake("ClientHelloInfo", ServerName=SStr(server_name(d.data)))], {})
            return error(v)

        return v.fake("tls.Conn", Handshake=n(handshake))

    it.lib["golib_crypto_tls.Server"] = server
    v.case(lambda ev: {"kind": "conn", "routes": {"c1": 0}, "name": "daskgateway-c1", "hello": True, "body": "x" * 6000, "chunks": [], "mode": "", "fwd": True})
    out = v.run(SN + "ReadSNI", conn)
    if not v.ok_or(out, "no-panic"):
        return
    name, tls, wrapped, err = [it.resolve(x) for x in out.val]
    v.cover("returns")
    if err is not None:
        v.prove("fails-only-when-nothing-was-sent", st["b"] == 0)
        return
    v.prove("the-connection-with-all-that-was-read", z3.BoolVal(isinstance(wrapped, Obj) and wrapped.attrs.get("TCPConn") is conn))
    p = wrapped.attrs.get("peeked") if isinstance(wrapped, Obj) else None
    p = z3.StringVal("") if p is None else p.data
    v.prove("no-byte-is-lost", p == z3.SubString(stream, 0, st["b"]))
    byte = lambda k: z3.StrToCode(z3.SubString(stream, k, 1))
    size = 5 + 256 * byte(3) + byte(4)
    hello = z3.SubString(stream, 0, size)
    whole = z3.And(st["b"] >= 5, byte(0) == 22, st["b"] >= size)
    named = z3.And(whole, is_hello(hello))
    v.prove("the-name-is-that-of-the-hello", v.eq(name, SStr(z3.If(named, server_name(hello), z3.StringVal("")))))
    v.prove("only-TLS-has-a-name", z3.Implies(z3.Not(v.eq(name, "")), v.eq(tls, True)))
    v.prove("TLS-begins-with-a-handshake-record", z3.Implies(v.eq(tls, True), byte(0) == 22))


class Copy(GoV):
    """Bytes written to a buffer of some length."""

    def __init__(self, v):
        GoV.__init__(self, v)
        self.written = None
        self.room = v.int("room", 0)
        self.buf = SRef(Fake("GoBuffer"), z3.Const("a_buffer", ref_sort("GoBuffer")))
        v.it.attr_hooks["len:GoBuffer"] = lambda it2, o: self.room
        v.it.lib["golang.copy__"] = self.copy

    def copy(self, it2, a, kw):
        src = self.it.resolve(a[1])
        if self.it.resolve(a[0]) is not self.buf or not isinstance(src, Bytes) or self.written is not None:
            self.it.unsupported("copy")
        n = z3.If(self.room.t < z3.Length(src.data), self.room.t, z3.Length(src.data))
        self.ctx.mut_attr(self, "written", z3.SubString(src.data, 0, n))
        return SInt(n)


@contract("C16", SN + "peekedTCPConn.Read", assumes=[GO])
def peeked_read(v):
    g = Copy(v)
    it, ctx = v.it, v.ctx
    p = v.str("peeked").t
    res = (v.int("n"), error(v))
    calls = []

    def read(it2, a, k):
        ctx.mut_append(calls, it.resolve(a[0]) is g.buf)
        return res

    me = of_class(v, SN + "peekedTCPConn", peeked=Bytes(p), TCPConn=v.fake("TCPConn", Read=v.native(read)))
    v.case(lambda ev: {"kind": "conn", "routes": {"c1": 0}, "name": "other", "hello": True, "body": "x" * 6000, "chunks": [], "mode": "", "fwd": True})
    out = v.run(SN + "peekedTCPConn.Read", me, g.buf)
    if not v.ok_or(out, "no-panic"):
        return
    n, err = [it.resolve(x) for x in out.val]
    left = it.resolve(me.attrs["peeked"])
    left = z3.StringVal("") if left is None else left.data
    v.cover("returns")
    if calls:
        v.prove("the-connection-is-read-after-what-was-peeked", z3.And(p == "", left == "", z3.BoolVal(calls == [True] and n is res[0] and err is res[1] and g.written is None)))
        return
    w = z3.StringVal("") if g.written is None else g.written
    v.prove("no-failure", z3.BoolVal(err is None))
    v.prove("what-was-peeked-comes-first-and-once", z3.And(z3.Concat(w, left) == p, g.i(n) == z3.Length(w)))
    v.prove("something-is-read", z3.Implies(g.room.t > 0, z3.Length(w) > 0))


@contract("C16", M + "NewEvIter", assumes=[GO, "bufio.Scanner gives up on a line longer than the limit its Buffer was given (64 KB without)"])
def new_iter(v):
    n = v.native
    g = Wrap(v)
    it, ctx = v.it, v.ctx
    lim = []
    body = v.fake("Body")
    scanner = v.fake("Scanner", Buffer=n(lambda i, a, k: ctx.mut_append(lim, g.i(a[1]))))

    def new_scanner(it2, a, k):
        v.prove("reads-the-body", z3.BoolVal(it.resolve(a[0]) is body))
        return scanner

    it.lib["golib_bufio.NewScanner"] = new_scanner
    it.overrides["golib_math.MaxInt"] = 2**63 - 1
    it.overrides["golib_math.MaxInt64"] = 2**63 - 1
    it.overrides["golib_math.MaxInt32"] = 2**31 - 1
    it.overrides["golib_bufio.MaxScanTokenSize"] = 64 * 1024
    v.case(lambda ev: {"kind": "watch", "tables": [{"routes": [], "id": 1}], "watches": [[{"events": [{"id": 2 + i, "type": "PUT", "route": {"kind": "PATH", "path": f"/p{i}", "target": "http://h/" + "y" * 1000}} for i in range(3000)]}], [410]]})
    out = v.run(M + "NewEvIter", body)
    if not v.ok_or(out, "no-panic"):
        return
    r = it.resolve(out.val)
    v.cover("returns")
    v.prove("an-iterator-over-the-body", z3.BoolVal(isinstance(r, Obj) and r.attrs.get("scanner") is scanner and r.attrs.get("body") is body and r.attrs.get("err") is None))
    v.prove("no-message-is-too-long", z3.And(z3.BoolVal(len(lim) == 1), *[x >= 2**31 - 1 for x in lim]))


class Conns(Zero):
    """Connections and goroutines."""

    def __init__(self, v, **zeros):
        Zero.__init__(self, v, **zeros)
        self.log = []
        self.rlocked = 0

    def put(self, *x):
        self.ctx.mut_append(self.log, x)

    def nat(self, name):
        return self.v.native(lambda i, a, k: self.put(name, *[self.it.resolve(x) for x in a]))

    def go(self, f, args):
        self.put("go")
        self.it.call(f, args, {})
        self.put("started")

    def reading(self, o):
        self.v.prove("tables-are-read-under-the-lock", z3.BoolVal(self.rlocked > 0))


PIPE = "the goroutines started run until their function returns; WaitGroup.Wait returns when Done was called as often as Add said"


@contract("C16", M + "Proxy.handleConnection", assumes=[GO, PIPE, "sni.ReadSNI by its contract", "net.DialTimeout connects to the address it is given or returns an error"])
def handle(v):
    wg = v.fake("WaitGroup")
    g = Conns(v, WaitGroup=lambda: wg)
    it, ctx, n = v.it, v.ctx, v.native
    wg.attrs.update(Add=n(lambda i, a, k: g.put("add", it.resolve(a[0]))), Wait=g.nat("wait"), Done=g.nat("done"))
    name = v.str("name")
    tls, failed, with_forwarder, dial_fails = (ctx.branch(z3.Bool(x)) for x in ("is_tls", "no_sni", "with_forwarder", "dial_fails"))
    v.assume(z3.Implies(z3.BoolVal(not tls), name.t == ""))
    conn = v.fake("TCPConn", Close=n(lambda i, a, k: g.put("close", "in")))
    shut = lambda s: {k: n(lambda i, a, kw: g.put("shut", s)) for k in ("CloseRead", "CloseWrite")}
    peeked = v.fake("peekedTCPConn", Close=n(lambda i, a, k: g.put("close", "in")), **shut("in"))
    dest = v.fake("TCPConn", Close=n(lambda i, a, k: g.put("close", "out")), **shut("out"))

    def read(it2, a, k):
        v.prove("asks-for-the-name-of-this-connection", z3.BoolVal(it.resolve(a[0]) is conn))
        return ("", False, None, error(v)) if failed else (name, tls, peeked, None)

    it.overrides[SN + "ReadSNI"] = read
    tbl = ctx.fresh_fn("sni", S, S)
    routes = Map(lambda q: tbl(q))

    def lock(k, d):
        return n(lambda i, a, kw: ctx.mut_attr(g, "rlocked", g.rlocked + d))

    p = of_class(v, M + "Proxy", logger=logger(v), sniRoutes=routes, proxyConnections=n(lambda i, a, k: g.put("pipe", *[it.resolve(x) for x in a])),
               routesLock=v.fake("RWMutex", RLock=lock("r", 1), RUnlock=lock("r", -1), Lock=lock("w", 1), Unlock=lock("w", -1)))
    fw = v.fake("Forwarder", Forward=n(lambda i, a, k: g.put("forward", it.resolve(a[0])))) if with_forwarder else None

    def dial(it2, a, k):
        v.prove("no-dialling-under-the-lock", z3.BoolVal(g.rlocked == 0))
        g.put("dial", it.resolve(a[0]), it.resolve(a[1]))
        return (None, error(v)) if dial_fails else (dest, None)

    it.lib["golib_net.DialTimeout"] = dial
    it.lib["golib_net.Dial"] = dial
    for k, x in (("Millisecond", 1000000), ("Second", 1000000000), ("Minute", 60000000000)):
        it.overrides["golib_time." + k] = x
    PRE = z3.StringVal("daskgateway-")
    short = z3.SubString(name.t, 12, z3.Length(name.t) - 12)
    base = {"kind": "conn", "routes": {"c1": 0, "Cd": 1}, "body": "x" * 3000, "chunks": [], "mode": ""}

    def case(ev):
        s = ev(name)
        s = "".join(ch if ch.isascii() and (ch.isalnum() or ch in "-.") else "x" for ch in s)[:60].strip("-.")
        return {**base, "name": s if tls and s else "daskgateway-Cd", "hello": not failed and tls, "fwd": with_forwarder}

    v.case(case)
    out = v.run(M + "Proxy.handleConnection", p, conn, fw)
    if not v.ok_or(out, "no-panic"):
        return
    v.prove("locks-released", z3.BoolVal(g.rlocked == 0))
    ev = lambda k: [x for x in g.log if x[0] == k]
    closed_in, dials, pipes, fwd = ("close", "in") in g.log, ev("dial"), ev("pipe"), ev("forward")
    if failed:
        v.cover("no name")
        v.prove("closed-when-nothing-can-be-read", z3.BoolVal(closed_in and not dials and not pipes and not fwd))
        return
    ours = z3.And(z3.BoolVal(tls), z3.PrefixOf(PRE, name.t))
    if dials or pipes:
        v.cover("dialled")
        v.prove("only-TLS-for-a-scheduler-is-forwarded-to-one", ours)
        v.prove("to-the-scheduler-registered-under-the-name", z3.And(z3.BoolVal(len(dials) == 1), tbl(short) != "", *[z3.And(v.eq(x[1], "tcp"), v.eq(x[2], SStr(tbl(short)))) for x in dials]))
        v.prove("and-nowhere-else", z3.BoolVal(not fwd))
    else:
        v.cover("not dialled")
        v.prove("a-registered-scheduler-is-reached", z3.Not(z3.And(ours, tbl(short) != "")))
        v.prove("what-is-for-no-scheduler-goes-to-the-HTTP-server", z3.Implies(z3.Not(ours), z3.BoolVal([x[1] for x in fwd] == [peeked] and not closed_in if with_forwarder else closed_in)))
        v.prove("an-unknown-name-reaches-nobody", z3.Implies(ours, z3.BoolVal(not fwd and closed_in)))
        return
    if dial_fails:
        v.prove("closed-when-the-scheduler-is-unreachable", z3.BoolVal(closed_in and not pipes))
        return
    v.cover("forwarded")
    want = [(wg, peeked, dest), (wg, dest, peeked)]
    got = [x[1:] for x in pipes]
    v.prove("both-directions-with-every-byte", z3.BoolVal(len(got) == 2 and all(any(len(a) == 3 and all(p is q for p, q in zip(a, b)) for a in got) for b in want)))
    kinds = [x[0] for x in g.log]
    last = max(i for i, k in enumerate(kinds) if k == "pipe")
    first = min(i for i, k in enumerate(kinds) if k == "pipe")
    v.prove("in-parallel", z3.BoolVal(first > 0 and kinds[first - 1] == "go"))
    waits = [i for i, k in enumerate(kinds) if k == "wait"]
    closes = [i for i, x in enumerate(g.log) if x[0] in ("close", "shut")]
    adds = [x for x in g.log if x[0] == "add"]
    v.prove("waits-for-both-before-closing", z3.BoolVal(sum(x[1] for x in adds) == 2 and all(kinds.index("add") < first for _ in adds) and bool(waits) and last < min(waits) and all(i > min(waits) for i in closes)))
    v.prove("closed-in-the-end", z3.BoolVal(closed_in and ("close", "out") in g.log))


@contract("C16", M + "Proxy.proxyConnections", assumes=[GO])
def pipe(v):
    g = Conns(v)
    it, ctx, n = v.it, v.ctx, v.native
    fails = ctx.branch(z3.Bool("copy_fails"))
    conn = lambda s: v.fake("TCPConn", RemoteAddr=n(lambda i, a, k: "addr"), LocalAddr=n(lambda i, a, k: "addr"), **{f: n(lambda i, a, k, f=f: g.put(f, s)) for f in ("CloseRead", "CloseWrite", "Close")})
    dst, src = conn("dst"), conn("src")
    wg = v.fake("WaitGroup", Done=n(lambda i, a, k: g.put("done")))

    def copy(it2, a, k):
        g.put("copy", it.resolve(a[0]) is dst and it.resolve(a[1]) is src)
        return (SInt(ctx.fresh("n", I)), error(v) if fails else None)

    it.lib["golib_io.Copy"] = copy
    v.case(lambda ev: {"kind": "conn", "routes": {"c1": 0}, "name": "daskgateway-c1", "hello": True, "body": "x" * 9000, "chunks": [], "mode": "target-first", "fwd": False})
    out = v.run(M + "Proxy.proxyConnections", of_class(v, M + "Proxy", logger=logger(v)), wg, dst, src)
    if not v.ok_or(out, "no-panic"):
        return
    v.cover("returns")
    v.prove("copies-from-the-one-to-the-other", z3.BoolVal([x for x in g.log if x[0] == "copy"] == [("copy", True)] and g.log[0][0] == "copy"))
    v.prove("says-when-it-is-done", z3.BoolVal(g.log[-1] == ("done",) and g.log.count(("done",)) == 1))
    v.prove("the-end-is-passed-on", z3.BoolVal(("CloseWrite", "dst") in g.log))
    v.prove("the-other-direction-goes-on", z3.BoolVal(not any(x in g.log for x in (("CloseRead", "dst"), ("CloseWrite", "src"), ("Close", "dst"), ("Close", "src")))))


class Forever:
    """for { ... }: one arbitrary iteration."""

    def __init__(self, v, after):
        self.v, self.after, self.used = v, after, False
        v.ctx.state["while_hook"] = self

    def __call__(self, it, n, env):
        if self.used:
            it.unsupported("second loop", n)
        self.v.ctx.mut_attr(self, "used", True)
        for x in sorted(modified_names(n)):
            if x in env.vars:
                self.v.ctx.mut_dict(env.vars, x, POISON)
        if not it.truth(it.ev(n.test, env)):
            return True
        try:
            it.ex_block(n.body, env)
        except ContinueEx:
            pass
        except BreakEx:
            return True
        self.after()
        self.v.rep.paths += 1
        raise StopBody


@contract("C16", M + "Proxy.runTCP", assumes=[GO, PIPE])
def run_tcp(v):
    g = Conns(v)
    it, ctx, n = v.it, v.ctx, v.native
    fails = ctx.branch(z3.Bool("accept_fails"))
    c, fw = v.fake("TCPConn"), v.fake("Forwarder")
    ln = v.fake("Listener", Accept=n(lambda i, a, k: (g.put("accept"), (None, error(v)) if fails else (c, None))[1]))
    p = of_class(v, M + "Proxy", logger=logger(v), handleConnection=n(lambda i, a, k: g.put("handle", *[it.resolve(x) for x in a])))
    v.case(lambda ev: {"kind": "accept"})

    def after():
        h = [x for x in g.log if x[0] == "handle"]
        if fails:
            v.cover("failed")
            v.prove("a-failed-accept-is-survived", z3.BoolVal(not h))
            return
        v.cover("accepted")
        v.prove("each-connection-is-handled-once", z3.BoolVal(len(h) == 1 and len(h[0]) == 3 and h[0][1] is c and h[0][2] is fw))
        k = [x[0] for x in g.log]
        v.prove("none-waits-for-another", z3.BoolVal(bool(h) and k[k.index("handle") - 1] == "go"))

    Forever(v, after)
    out = run(v, M + "Proxy.runTCP", p, ln, fw)
    if out is None:
        return
    v.ok_or(out, "no-panic")
    v.prove("serving-never-ends", z3.BoolVal(False))


@contract("C16", M + "Forwarder.Forward", assumes=[GO, "a value sent on a channel is received once"])
def forward(v):
    n = v.native
    sent = []
    ch, c, got = v.fake("chan"), v.fake("Conn"), v.fake("Conn")

    class Chan(GoV):
        def send(self, o, x):
            self.ctx.mut_append(sent, (o is ch, x is c))

        def recv(self, o):
            return got if o is ch else None

    Chan(v)
    me = of_class(v, M + "Forwarder", conns=ch)
    v.case(lambda ev: {"kind": "conn", "routes": {}, "name": "other", "hello": False, "body": "GET /", "chunks": [], "mode": "", "fwd": True})
    out, acc = v.run(M + "Forwarder.Forward", me, c), v.run(M + "Forwarder.Accept", me)
    if not v.ok_or(out, "no-panic") or not v.ok_or(acc, "no-panic"):
        return
    v.prove("the-connection-is-passed-on", z3.BoolVal(sent == [(True, True)]))
    r, e = acc.val
    v.prove("the-connection-is-accepted", z3.BoolVal(v.it.resolve(r) is got and v.it.resolve(e) is None))


@contract("C16", M + "Proxy.run", assumes=[GO, PIPE, "net.Listen listens at the address it is given"])
def run_all(v):
    g = Conns(v)
    it, ctx, n = v.it, v.ctx, v.native
    addr, tcp, url, token, cert, tkey = (v.str(x) for x in ("address", "tcp_address", "api_url", "api_token", "cert", "key"))
    child = ctx.branch(z3.Bool("is_child"))
    made = []

    def listen(it2, a, k):
        l = v.fake("Listener", address=it.resolve(a[1]), proto=it.resolve(a[0]))
        ctx.mut_append(made, l)
        return (l, None)

    it.lib["golib_net.Listen"] = listen
    it.overrides["golib_time.Second"] = 1000000000
    it.overrides["golib_time.Millisecond"] = 1000000
    fwd = v.fake("Forwarder", on=None)

    def forwarder(it2, a, k):
        ctx.mut_dict(fwd.attrs, "on", it.resolve(a[0]))
        return fwd

    it.overrides[M + "newForwarder"] = forwarder
    it.overrides[M + "awaitShutdown"] = lambda it2, a, k: g.put("await")
    it.lib["golang.zero__"] = lambda it2, a, k: None
    p = of_class(v, M + "Proxy", logger=logger(v), runHTTP=g.nat("http"), runTCP=g.nat("tcp"), watchRoutes=g.nat("watch"))
    out = v.run(M + "Proxy.run", p, addr, tcp, url, token, cert, tkey, child)
    if not v.ok_or(out, "no-panic"):
        return
    v.cover("returns")
    k = {x[0]: x[1:] for x in g.log}
    kinds = [x[0] for x in g.log]
    v.prove("serves-both-and-watches", z3.BoolVal(all(kinds.count(x) == 1 for x in ("http", "tcp", "watch")) and all(kinds[kinds.index(x) - 1] == "go" for x in ("http", "tcp")) and kinds[-1] == "watch"))
    if not {"http", "tcp", "watch"} <= set(k):
        return
    v.prove("watches-the-configured-API", z3.And(v.eq(k["watch"][0], url), v.eq(k["watch"][1], token)))
    h, t = k["http"], k["tcp"]
    shared = z3.Or(tcp.t == "", tcp.t == addr.t)
    if h[0] is fwd:
        v.prove("one-port-is-shared", z3.And(shared, z3.BoolVal(len(made) == 1 and t[0] is made[0] and t[1] is fwd and fwd.attrs["on"] is made[0]), v.eq(made[0].attrs["address"], addr)))
    else:
        ok = len(made) == 2 and t[0] in made and h[0] in made and t[0] is not h[0] and t[1] is None
        v.prove("each-has-its-port", z3.BoolVal(False) if not ok else z3.And(z3.Not(shared), v.eq(t[0].attrs["address"], tcp), v.eq(h[0].attrs["address"], addr)))
    v.prove("with-its-certificate", z3.And(v.eq(h[1], cert), v.eq(h[2], tkey)))
    v.prove("ends-with-its-parent", z3.BoolVal(("await" in kinds) == child))


@contract("C16", M + "Proxy.runHTTP", assumes=[GO, "http.Server serves its Handler until it fails"])
def run_http(v):
    g = Wrap(v)
    it, ctx, n = v.it, v.ctx, v.native
    cert, tkey = v.str("cert"), v.str("key")
    log, ln, p = [], v.fake("Listener"), v.fake("Proxy", logger=logger(v))
    closed = error(v)
    it.overrides["golib_net_http.ErrServerClosed"] = closed
    it.lib["golib_os.Exit"] = lambda it2, a, k: None

    def serve(name):
        def fn(it2, a, k):
            ctx.mut_append(log, (name, *[it.resolve(x) for x in a]))
            return closed

        return n(fn)

    def new__(a, kw):
        if a[0].endswith("http.Server"):
            ctx.mut_append(log, ("server", kw.get("Handler") is p or it.resolve(kw.get("Handler")) is p))
            return v.fake("Server", Serve=serve("plain"), ServeTLS=serve("tls"))
        it.unsupported("new")

    it.lib["golang.new__"] = lambda it2, a, kw: new__([it.resolve(x) for x in a], kw)
    out = v.run(M + "Proxy.runHTTP", p, ln, cert, tkey)
    if not v.ok_or(out, "no-panic"):
        return
    v.cover("returns")
    s = [x for x in log if x[0] in ("plain", "tls")]
    v.prove("serves-the-proxy", z3.BoolVal([x for x in log if x[0] == "server"] == [("server", True)] and len(s) == 1 and s[0][1] is ln))
    if len(s) == 1:
        v.prove("with-TLS-when-configured", (cert.t == "") == z3.BoolVal(s[0][0] == "plain"))
        if s[0][0] == "tls":
            v.prove("its-certificate", z3.And(v.eq(s[0][2], cert), v.eq(s[0][3], tkey)))
