"""C19: the cache of Kubernetes resources, and of the gateway's clusters."""
import asyncio

import z3

from pyvc import web  # noqa: F401
from pyvc.libs import noop_log
from pyvc.verify import *
from . import k8s
from .c25 import at, same
from .docs import opaque_docs
from .loops import ForInv, MapState, StopBody, WhileInv, modified_names, run
from .symmap import GONE, SymMap

U = "dask_gateway_server.backends.kubernetes.utils."
INF, KB = U + "Informer", "dask_gateway_server.backends.kubernetes.backend.KubeBackend"
STR = z3.StringSort()
OBJ = ref_sort("KObj")
A_API = ["the API server names each listed object differently"]


class Cache:
    """An informer with any cached objects. Objects are opaque except for
    their key (get_key is under contract itself)."""

    def __init__(self, v):
        self.v, self.it, self.ctx = v, v.it, v.ctx
        it, ctx = v.it, v.ctx
        self.cls = Fake("KObj")
        opaque_docs(v, self.cls)
        self.key = z3.Function("key_of", OBJ, STR)
        self.had = z3.Function("was_cached", STR, z3.BoolSort())
        self.old = z3.Function("cached_at", STR, OBJ)
        self.fails = z3.Function("handler_fails", OBJ, z3.BoolSort())
        it.overrides[INF + ".get_key"] = lambda it2, a, k: SStr(self.key(it.resolve(a[-1]).t))
        self.cache = VDict()
        self.cache.parts = [Part(("Str",), lambda x: self.had(x), lambda x: (SStr(x), SRef(self.cls, self.old(x))))]

        def told(what):
            def fn(it2, a, k):
                o = it.resolve(a[0])
                old = it.resolve(a[1] if len(a) > 1 else k.get("old")) if what == "update" else None
                ctx.event(what, o, old)
                if ctx.branch(self.fails(o.t)):
                    it.raise_(RuntimeError, "handler")

            return v.native(fn)

        self.o = v.obj(INF, cache=self.cache, log=noop_log(), name="pods", on_update=told("update"), on_delete=told("delete"))

    def get(self, x):
        """(present, object) at the name x, afterwards."""
        it = self.it
        c = it.resolve(self.o.attrs["cache"])
        r = it.contains(c, SStr(x))
        r = z3.BoolVal(r) if isinstance(r, bool) else (r.t if isinstance(r, SBool) else r)
        return r, c

    def told(self, what, o, old=None):
        """Whether the handler has been told of the object (with the old one)."""
        hits = []
        for p in self.v.event_parts(what):
            if not p.sorts:
                _, y, w = p.val()
                g = z3.And(y.t == o, p.guard() if callable(p.guard) else z3.BoolVal(True))
                hits.append((g, w))
        return hits


@contract("C19", INF + ".get_key", "names")
def names(v):
    it = v.it
    o = v.pydict({"metadata": v.pydict({"name": v.str("name"), "namespace": v.str("namespace")})})
    want = SStr(z3.Concat(z3.String("namespace"), z3.StringVal("."), z3.String("name")))
    v.case(lambda ev: {"kind": "informer"})
    out = v.run(INF + ".get_key", v.obj(INF), o)
    if v.ok_or(out, "named"):
        v.prove("key-is-namespace-and-name", same(v, out.val, want))
    out = v.run(KB + ".get_cluster_name", v.obj(KB), o)
    if v.ok_or(out, "named"):
        v.prove("key-is-namespace-and-name", same(v, out.val, want))


@contract("C19", INF + ".handle", "event")
def event(v):
    it, ctx = v.it, v.ctx
    s = Cache(v)
    o = SRef(s.cls, z3.Const("the_object", OBJ))
    n = s.key(o.t)
    ctx.know("Str", n)
    typ = v.choose("ADDED", "MODIFIED", "DELETED")
    x = z3.String("any_name")
    ctx.know("Str", x)
    v.case(lambda ev: {"kind": "informer"})
    out = v.run(INF + ".handle", s.o, o, typ)
    if not v.ok_or(out, "a-failing-handler-changes-nothing"):
        return
    up, de = s.told("update", o.t), s.told("delete", o.t)
    had = ctx.branch(s.had(n))
    if typ == "DELETED":
        v.prove("told-of-the-removal", z3.BoolVal(len(de) == 1 and not up))
    else:
        v.prove("told-of-the-change", z3.BoolVal(len(up) == 1 and not de))
        for g, w in up:
            v.prove("told-of-the-object-before", z3.BoolVal(isinstance(w, SRef)) if had and not isinstance(w, SRef) else (w.t == s.old(n) if had else z3.BoolVal(w is None)))
    # the cache at any name
    at_n = ctx.branch(x == n)
    has, c = s.get(x)
    if at_n:
        v.prove("mirrors-the-last-event", has == z3.BoolVal(typ != "DELETED"))
        if typ != "DELETED" and ctx.branch(has):
            v.prove("mirrors-the-last-event", it.resolve(it.getitem(c, SStr(x))).t == o.t)
    else:
        v.prove("other-objects-are-kept", has == s.had(x))
        if ctx.branch(has):
            v.prove("other-objects-are-kept", it.resolve(it.getitem(c, SStr(x))).t == s.old(x))
    r = it.resolve(v.attempt(lambda: it.call(it.getattr(s.o, "get"), [SStr(x)])).val)
    v.prove("get-reads-the-cache", z3.BoolVal(isinstance(r, SRef)) == has)


class Relist:
    """What happened to each name: how often the handlers were told of it, and
    with which objects."""

    FIELDS = (("tdel", z3.IntSort()), ("ldel", OBJ), ("tupd", z3.IntSort()), ("lupd", OBJ), ("hadold", z3.BoolSort()), ("lold", OBJ))

    def __init__(self, v):
        self.v, self.ctx = v, v.ctx
        for f, s in self.FIELDS:
            setattr(self, f, z3.K(STR, z3.IntVal(0)) if s == z3.IntSort() else z3.Const("g_" + f, z3.ArraySort(STR, s)))

    def havoc(self):
        for f, s in self.FIELDS:
            self.ctx.mut_attr(self, f, self.ctx.fresh("g_" + f, z3.ArraySort(STR, s)))

    def put(self, **k):
        for f, (t, x) in k.items():
            self.ctx.mut_attr(self, f, z3.Store(getattr(self, f), t, x))


@contract("C19", INF + ".handle_initial", "relist", assumes=A_API, alternatives=[0, 1])
def relist(v):
    it, ctx = v.it, v.ctx
    s = Cache(v)
    g = Relist(v)
    listed = z3.Function("is_listed", OBJ, z3.BoolSort())
    named = z3.Function("object_named", STR, OBJ)
    sel = z3.Select
    mem = MapState(v, STR, OBJ, z3.Const("was_cached", z3.ArraySort(STR, z3.BoolSort())), z3.Const("cached_at", z3.ArraySort(STR, OBJ)), lambda t: SRef(s.cls, t))
    had0, at0 = mem.has, mem.at
    had, old = (lambda x: sel(had0, x)), (lambda x: sel(at0, x))
    s.o.attrs["cache"] = mem.o
    ctx.state["inverse"] = {"key_of": lambda t: named(t)}
    L = lambda x: z3.And(listed(named(x)), s.key(named(x)) == x)
    ctx.forall(("KObj",), lambda o: z3.Implies(listed(o), named(s.key(o)) == o), "listed under one name each")
    ctx.forall(("Str",), lambda x: z3.Implies(had(x), s.key(old(x)) == x), "cached under their names")

    def told(what):
        def fn(it2, a, k):
            o = it.resolve(a[0])
            t = s.key(o.t)
            ctx.know("KObj", o.t)
            ctx.know("Str", t)
            if what == "delete":
                g.put(tdel=(t, sel(g.tdel, t) + 1), ldel=(t, o.t))
            else:
                w = it.resolve(a[1] if len(a) > 1 else k.get("old"))
                g.put(tupd=(t, sel(g.tupd, t) + 1), lupd=(t, o.t), hadold=(t, z3.BoolVal(w is not None)))
                if w is not None:
                    g.put(lold=(t, w.t))
            if ctx.branch(s.fails(o.t)):
                it.raise_(RuntimeError, "handler")

        return v.native(fn)

    s.o.attrs["on_update"], s.o.attrs["on_delete"] = told("update"), told("delete")
    shape = v.alt or 0

    def state(x, dead, upd):
        """The state at a name, when the removal (dead) or the change (upd) has been handled."""
        return {
            "cache-holds-the-listed-objects": z3.And(sel(mem.has, x) == z3.Or(upd, z3.And(had(x), z3.Not(dead))), z3.Implies(sel(mem.has, x), sel(mem.at, x) == z3.If(upd, named(x), old(x)))),
            "each-removed-object-told-once": z3.And(sel(g.tdel, x) == z3.If(dead, 1, 0), z3.Implies(dead, sel(g.ldel, x) == old(x))),
            "each-listed-object-told-once": z3.And(sel(g.tupd, x) == z3.If(upd, 1, 0), z3.Implies(upd, sel(g.lupd, x) == named(x))),
            "told-with-the-object-before": z3.Implies(upd, z3.And(sel(g.hadold, x) == had(x), z3.Implies(had(x), sel(g.lold, x) == old(x)))),
        }

    gone = lambda x: z3.And(had(x), z3.Not(L(x)))

    def inv(k, es, done, x):
        # the removals first (0), or the changes first (1)
        if es == "Str":
            return state(x, z3.And(gone(x), done(x)), L(x) if shape else z3.BoolVal(False))
        return state(x, z3.BoolVal(False) if shape else gone(x), z3.And(L(x), done(named(x))))

    def havoc(k):
        g.havoc()
        ctx.mut_attr(mem, "has", ctx.fresh("c_has", mem.has.sort()))
        ctx.mut_attr(mem, "at", ctx.fresh("c_at", mem.at.sort()))

    ForInv(v, inv, havoc, know=lambda x: ctx.know("KObj", named(x)))
    x = z3.String("any_name")
    ctx.know("Str", x)
    ctx.know("KObj", named(x))
    objs = VList([Part(("KObj",), lambda o: listed(o), lambda o: SRef(s.cls, o))])
    v.case(lambda ev: {"kind": "informer"})
    out = run(v, INF + ".handle_initial", s.o, objs)
    if out is None:
        return
    if v.ok_or(out, "a-failing-handler-changes-nothing"):
        for c, t in state(x, gone(x), L(x)).items():
            v.prove(c, t)


class Loops:
    """The informer's loops: listing, watching from the version last seen,
    each event of a watch."""

    def __init__(self, v, s):
        self.v, self.it, self.ctx = v, v.it, v.ctx
        self.s = s
        self.depth = 0
        self.last = None  # resource version last seen
        self.ends = None
        v.ctx.state["while_hook"] = self.loop

    def own(self, n, env):
        return [x for x in sorted(modified_names(n)) if x in env.vars]

    def versions(self, n, env):
        """Variables holding the version last seen."""
        return [x for x in self.own(n, env) if self.is_last(env.vars[x])]

    def is_last(self, x):
        x = self.it.resolve(x)
        return isinstance(x, SStr) and x.t.eq(self.last)

    def havoc(self, names, env):
        self.last = self.ctx.fresh("version", STR)
        for x in names:
            self.ctx.mut_dict(env.vars, x, SStr(self.last))

    def body(self, n, env, names):
        """One iteration; the version last seen is still remembered."""
        keep = {x: env.vars[x] for x in self.own(n, env) if x not in names and env.vars[x] is not POISON}
        try:
            self.it.ex_block(n.body, env)
        except ContinueEx:
            pass
        except BreakEx:
            return True
        if self.depth > 1:
            self.v.prove("an-error-makes-it-list-again", z3.BoolVal(self.ends != "error"))
        self.v.aux("watches-from-the-version-last-seen", z3.BoolVal(all(self.is_last(env.vars[x]) for x in names)))
        if any(self.it.resolve(env.vars[x]) is not self.it.resolve(y) and env.vars[x] != y for x, y in keep.items() if not self.temp(n, x)):
            self.it.unsupported("other state kept between iterations", n)
        self.v.rep.paths += 1
        raise StopBody

    def temp(self, n, x):
        """Assigned first thing in each iteration."""
        return any(x in modified_names(st) for st in n.body[:3])

    def loop(self, it, n, env):
        if self.depth > 1:
            it.unsupported("deeper loop", n)
        self.depth += 1
        try:
            if self.last is None:  # listing
                for x in self.own(n, env):
                    self.ctx.mut_dict(env.vars, x, POISON)
                names = []
            else:
                names = self.versions(n, env)
                self.havoc(names, env)
            if not it.truth(it.ev(n.test, env)):
                return True
            self.ctx.event("round", self.depth)
            return self.body(n, env, names)
        finally:
            self.depth -= 1

    def stream(self, kw):
        def aloop(it, a, k):
            n, env = a[0], a[1]
            v, ctx = self.v, self.ctx
            names = self.versions(n, env)
            self.havoc(names, env)
            what = v.choose("event", "end", "fails", "cancelled")
            if what == "end":
                it.ex_block(n.orelse, env)
                return
            if what == "fails":
                it.raise_(RuntimeError, "watch")
            if what == "cancelled":
                it.raise_(asyncio.CancelledError)
            typ = v.choose("ADDED", "MODIFIED", "DELETED", "BOOKMARK", "ERROR", "error")
            ev = v.pydict({})
            if typ.lower() == "error":
                o = v.pydict({})
                for f, x in (("code", v.choose(None, 410, 500)), ("message", v.choose(None, "text"))):
                    if x is not None:
                        it.setitem(o, f, x)
            else:
                ver = v.choose("version", "none")
                self.last_new = ctx.fresh("version", STR) if ver == "version" else None
                md = v.pydict({"name": v.str("name"), "namespace": v.str("namespace")})
                if ver == "version":
                    it.setitem(md, "resourceVersion", SStr(self.last_new))
                o = v.pydict({"metadata": md})
            it.setitem(ev, "type", typ)
            it.setitem(ev, "object", o)
            self.event = (typ, o)
            it.assign(n.target, ev, env)
            # the version of the event is the last one seen, once it is handled
            before = self.last
            nev = len(ctx.events)
            keep = list(names)

            class Stop(Exception):
                pass

            broke = False
            try:
                it.ex_block(n.body, env)
            except ContinueEx:
                pass
            except BreakEx:
                broke = True
            handled = [e for e in ctx.events[nev:] if e[0] == "handle"]
            if typ.lower() == "error":
                v.prove("an-error-event-is-not-handled-as-an-object", z3.BoolVal(not handled))
                v.prove("an-error-makes-it-list-again", z3.BoolVal(broke))
                self.ends = "error"
                if broke:
                    return
            else:
                v.prove("each-event-is-handled-once", z3.BoolVal(len(handled) == 1 and handled[0][1] is o and handled[0][2] == typ))
                v.prove("watching-goes-on-after-an-event", z3.BoolVal(not broke))
                if self.last_new is not None:
                    self.last = self.last_new
                v.prove("watches-from-the-version-last-seen", z3.BoolVal(all(self.is_last(env.vars[x]) for x in keep) and bool(keep)))
            v.rep.paths += 1
            raise StopBody

        return Obj(Fake("events"), {"__aloop__": self.v.native(aloop)})


@contract("C19", INF + ".run", "watching", assumes=["a listing has items and a resourceVersion; handle and handle_initial meet their contracts (they do not fail)"])
def watching(v):
    it, ctx = v.it, v.ctx
    s = Cache(v)
    lo = Loops(v, s)
    kwargs = v.pydict({"group": v.str("group"), "label_selector": v.str("selector")})
    items = v.opaque("listed items")
    ver = v.str("list_version")
    listed = v.pydict({"items": items, "metadata": v.pydict({"resourceVersion": ver})})
    raw = v.opaque("listing")
    init = v.fake("event", set=v.native(lambda it2, a, k: ctx.event("initialized")))

    def same_kwargs(k, more=()):
        return set(k) == {"group", "label_selector"} | set(more) and all(same_str(k[x], it.getitem(kwargs, x)) for x in ("group", "label_selector"))

    def same_str(a, b):
        a, b = it.resolve(a), it.resolve(b)
        return isinstance(a, SStr) and isinstance(b, SStr) and a.t.eq(b.t)

    def lists(it2, a, k):
        ctx.event("list")
        v.prove("lists-all-its-resources", z3.BoolVal(not a and same_kwargs(k)))

        def answer():
            w = v.choose("listing", "fails", "cancelled")
            if w == "fails":
                it.raise_(RuntimeError, "list")
            if w == "cancelled":
                it.raise_(asyncio.CancelledError)
            return raw

        return Coro(answer, "list")

    method = v.native(lists)
    client = v.fake("client", list_cluster_custom_object=method, api_client=v.fake("api_client", sanitize_for_serialization=v.native(lambda it2, a, k: listed if it.resolve(a[0]) is raw else it.unsupported("other answer"))))
    s.o.attrs.update(method_kwargs=kwargs, client=client, method="list_cluster_custom_object", timeout_seconds=v.int("timeout"), initialized=init)

    def initial(it2, a, k):
        lo.last = ver.t
        ctx.event("initial", it.resolve(a[-1] if a else k["objs"]))

    def handle(it2, a, k):
        a = [it.resolve(x) for x in a if it.resolve(x) is not s.o]
        typ = a[1] if len(a) > 1 else it.resolve(k.get("event_type", "ADDED"))
        ctx.event("handle", a[0] if a else it.resolve(k["obj"]), typ)

    it.overrides[INF + ".handle_initial"] = initial
    it.overrides[INF + ".handle"] = handle

    def watch(it2, a, k):
        ctx.event("watch")
        seq = [e[0] for e in ctx.events]
        v.prove("a-listing-is-handled-before-watching", z3.BoolVal("initial" in seq and "initialized" in seq))
        v.prove("watches-the-same-resources", z3.BoolVal(len(a) == 1 and it.resolve(a[0]) is method and same_kwargs({x: y for x, y in k.items() if x not in ("resource_version", "timeout_seconds", "watch")})))
        v.prove("watches-from-the-version-last-seen", z3.BoolVal(lo.is_last(k.get("resource_version"))))
        return lo.stream(k)

    it.overrides[U + "watch"] = watch
    v.case(lambda ev: {"kind": "informer"})
    out = run(v, INF + ".run", s.o)
    ini = [e for e in ctx.events if e[0] == "initial"]
    if ini:
        v.prove("the-whole-listing-is-handled", z3.BoolVal(all(e[1] is items for e in ini) and len(ini) == 1))
        v.prove("waiters-are-released-after-the-listing", z3.BoolVal([e[0] for e in ctx.events if e[0] in ("initial", "initialized")] == ["initial", "initialized"]))
    if out is not None:
        v.prove("only-cancellation-ends-it", z3.BoolVal(not out.ok and out.exc_name() == "CancelledError"))


@contract("C19", U + "watch", "lines", assumes=["a watch answer is one JSON document per line, and readline returns an empty line at its end only"])
def lines(v):
    it, ctx = v.it, v.ctx
    n = v.int("number_of_lines")
    v.assume(n.t >= 0)
    at_ = z3.Function("line_at", z3.IntSort(), STR)
    ctx.forall(("Int",), lambda i: z3.Implies(z3.And(i >= 0, i < n.t), z3.Length(at_(i)) > 0), "lines")
    pos = [SInt(z3.IntVal(0))]
    text = z3.Function("utf8_text", STR, STR)
    ctx.state["yield_hook"] = lambda it2, x, node: ctx.event("yielded", x)

    def readline(it2, a, k):
        i = pos[0].t
        ctx.know("Int", i)
        line = SStr(z3.If(i < n.t, at_(i), z3.StringVal("")))
        ctx.mut_list(pos, [SInt(i + 1)])
        return Coro(lambda: v.fake("bytes", decode=v.native(lambda it3, a3, k3: line)), "readline")

    it.lib["json.loads"] = lambda it2, a, k: SOpaqueDoc(v, it.resolve(a[0]))
    closed = []
    resp = v.fake("response", content=v.fake("content", readline=v.native(readline)))
    resp.attrs["__aenter__"] = v.afn(lambda it2, a, k: resp)
    resp.attrs["__aexit__"] = v.afn(lambda it2, a, k: closed.append(1))

    def inv(init, cur):
        return {"reads-on": z3.And(pos[0].t >= 0, pos[0].t <= n.t)}

    def havoc():
        ctx.mut_list(pos, [SInt(ctx.fresh("pos", z3.IntSort()))])

    start = {}

    def on_iter():
        start["pos"] = pos[0].t
        start["events"] = len(ctx.events)

    WhileInv(v, inv, havoc, on_iter)

    def method(it2, a, k):
        ctx.event("request", dict(k))
        return Coro(lambda: resp, "method")

    ver = v.str("resource_version")
    v.case(lambda ev: {"kind": "informer"})
    fn = it.get_func(U + "watch")
    stopped = False
    try:
        g = it.call(fn, [v.native(method)], {"resource_version": ver})
        it.to_pylist(g) if not isinstance(g, GenV) else g.thunk()
    except StopBody:
        stopped = True
    req = v.events("request")
    v.prove("asks-for-a-watch", z3.BoolVal(len(req) == 1 and it.resolve(req[0][1].get("watch")) is True and it.resolve(req[0][1].get("_preload_content")) is False and same_t(it, req[0][1].get("resource_version"), ver)))
    if start:
        got = [e for e in ctx.events[start["events"]:] if e[0] == "yielded"]
        i = start["pos"]
        if stopped:
            v.prove("passes-on-each-line", z3.And(pos[0].t == i + 1, z3.BoolVal(len(got) == 1)) if not got else z3.And(pos[0].t == i + 1, z3.BoolVal(len(got) == 1), got[0][1].attrs["text"].t == at_(i)))
        else:
            v.prove("ends-when-the-answer-ends", z3.And(i >= n.t, z3.BoolVal(not got)))


def SOpaqueDoc(v, text):
    return Obj(Fake("document"), {"text": text})


def same_t(it, a, b):
    a, b = it.resolve(a), it.resolve(b)
    return hasattr(a, "t") and hasattr(b, "t") and a.t.eq(b.t)


# ---------------------------------------------------------------- the backend

MS = "dask_gateway_server.models.ClusterStatus"
A_OWNER = ["the owner of a cluster resource (spec.username) never changes; only sync_clusters_loop changes the caches, one cluster at a time (C12)"]


class Kube:
    """A backend with any clusters cached, each indexed under its owner and
    only there."""

    def __init__(self, v, name):
        self.v, self.it, self.ctx = v, v.it, v.ctx
        v, it, ctx = self.v, self.it, self.ctx
        self.name = name
        self.MS = it.get_class(MS)
        self.has = z3.Function("is_cached", STR, z3.BoolSort())
        self.owner = z3.Function("owner_of", STR, STR)
        self.waited = z3.Function("is_waited_for", STR, z3.BoolSort())
        self.releases = []

        def old(t):
            cert = self.cert if t.eq(name.t) else v.opaque("cert")
            return v.obj("dask_gateway_server.models.Cluster", name=SStr(t), username=SStr(self.owner(t)), tls_cert=cert, tls_key=self.key, token=self.token, status=v.enum("old_status", MS))

        self.cert, self.key, self.token = v.opaque("old_cert"), v.opaque("old_key"), v.str("old_token")
        self.clusters = SymMap(v, self.has, old, name="clusters")
        self.inner = {}
        self.users = SymMap(v, lambda u: self.anyone(u), lambda u: self.of(u), default=lambda u: self.of(u, True), name="username_to_clusters")
        self.waiters = SymMap(v, self.waited, self.flag, default=self.flag, name="cluster_waiters")
        self.client_calls = []
        self.o = v.obj(KB, clusters=self.clusters.o, username_to_clusters=self.users.o, cluster_waiters=self.waiters.o, log=noop_log(), crd_version=v.str("crd_version"))

    some = z3.Function("has_clusters", STR, z3.BoolSort())

    def anyone(self, u):
        return self.some(u)

    def of(self, u, new=False):
        """The clusters indexed under a user."""
        for t, m in self.inner.items():
            if t.eq(u):
                return m.o
        v, ctx = self.v, self.ctx
        ctx.know("Str", u)
        if new:
            m = SymMap(v, lambda n: z3.BoolVal(False), lambda n: None, name="clusters of a user")
        else:
            # a user without clusters is forgotten, but may be still there
            m = SymMap(v, lambda n: z3.And(self.has(n), self.owner(n) == u), self.clusters.lookup_first, name="clusters of a user")
        m.empty_hook = lambda: SBool(self.nonempty(m, u))
        ctx.mut_dict(self.inner, u, m)
        return m.o

    def nonempty(self, m, u):
        b = self.ctx.fresh("nonempty", z3.BoolSort())
        w = self.ctx.fresh("member", STR)
        self.ctx.know("Str", w)
        log = list(m.log)  # as of now
        self.ctx.assume(z3.Implies(b, self.now(m, w, log)))
        self.ctx.forall(("Str",), lambda n: z3.Implies(self.now(m, n, log), b), "nonempty")
        return b

    def now(self, m, n, log=None):
        """Whether a map holds the key, after what was done to it."""
        r = m.has(n)
        for y, x, w in m.log if log is None else log:
            if w:
                r = z3.If(y == n, z3.BoolVal(x is not GONE), r)
        return r

    def indexed(self, u, n):
        """Whether the cluster is indexed under the user, afterwards."""
        v = self.v
        cur = z3.And(self.has(n), self.owner(n) == u)
        for t, m in self.inner.items():
            cur = z3.If(u == t, self.now(m, n), cur)
        for y, x, w in self.users.log:
            if w:
                if x is GONE:
                    cur = z3.If(u == y, z3.BoolVal(False), cur)
        return cur

    def flag(self, t):
        return self.v.fake("Flag", set=self.v.native(lambda it, a, k: self.ctx.mut_append(self.releases, t)))

    def released(self, n):
        return z3.Or([t == n for t in self.releases] + [z3.BoolVal(False)])


@contract("C19", KB + ".sync_cluster", "sync", assumes=A_OWNER, max_paths=6000, budget=600)
def sync(v):
    it, ctx = v.it, v.ctx
    name = v.str("cluster_name")
    s = Kube(v, name)
    it.overrides["dask_gateway_server.backends.kubernetes.backend.parse_k8s_timestamp"] = it.overrides[U + "parse_k8s_timestamp"] = lambda it2, a, k: ("ms", it.resolve(a[0]))
    it.lib["base64.b64decode"] = lambda it2, a, k: decoded(it.resolve(a[0]))
    ns, rname = v.str("namespace"), v.str("name")
    v.assume(name.t == z3.Concat(ns.t, z3.StringVal("."), rname.t))
    user = v.str("username")

    dec = {}

    def decoded(x):
        if id(x) not in dec:
            b = v.opaque("decoded")
            b = v.fake("bytes", decode=v.native(lambda it2, a, k: dec[id(x)][1]), source=x)
            dec[id(x)] = (b, v.fake("text", source=x))
        return dec[id(x)][0]

    class_old = v.choose("known", "new")
    v.assume(s.has(name.t) == z3.BoolVal(class_old == "known"))
    v.assume(z3.Implies(s.has(name.t), s.owner(name.t) == user.t))
    cert_old = class_old == "known" and v.choose("with", "without") == "with"
    if not cert_old:
        s.cert, s.key, s.token = b"", b"", ""
    else:
        s.cert = v.fake("bytes", __bool__=v.native(lambda it2, a, k: True))
    there = v.choose("there", "gone") == "there"
    reads = []
    data = v.pydict({"dask.crt": v.fake("crt"), "dask.pem": v.fake("pem"), "api-token": v.fake("tok")})
    secret = v.fake("secret", data=data)

    def read(it2, a, k):
        reads.append((a, k))
        secret_fails = v.choose("read", "fails", "cancelled")

        def go():
            if secret_fails == "fails":
                it.raise_(RuntimeError, "api")
            if secret_fails == "cancelled":
                it.raise_(asyncio.CancelledError)
            return secret

        s.failed = secret_fails != "read"
        return Coro(go, "read")

    s.failed = False
    s.o.attrs["core_client"] = v.fake("core", read_namespaced_secret=v.native(read))
    meta = v.pydict({"name": rname, "namespace": ns, "creationTimestamp": v.str("created")})
    options, config = v.opaque("options"), v.opaque("config")
    obj = None
    want = {}
    if there:
        spec = v.pydict({"username": user, "options": v.pydict({"x": options}), "config": v.pydict({"y": config})})
        obj = v.pydict({"metadata": meta, "spec": spec})
        phase = v.choose("no status", None, "Pending", "Running", "Stopping", "Stopped", "Failed")
        cred = serv = done = None
        if phase != "no status":
            st = v.pydict({})
            if phase:
                it.setitem(st, "phase", phase)
            cred = v.choose(True, False)
            serv = v.choose(True, False)
            done = v.choose(True, False)
            if cred:
                cred = v.str("credentials")
                v.assume(z3.Length(cred.t) > 0)
                it.setitem(st, "credentials", cred)
            if serv:
                serv = v.str("service")
                v.assume(z3.Length(serv.t) > 0)
                it.setitem(st, "service", serv)
            if done:
                done = v.str("completed")
                it.setitem(st, "completionTime", done)
            it.setitem(obj, "status", st)
        status = {"Running": 2, "Stopping": 3, "Stopped": 4, "Failed": 5}.get(phase, 1)
    s.o.attrs["informer"] = v.fake("informer", get=v.native(lambda it2, a, k: obj if same_t(it, a[0], name) else it.unsupported("other name")))
    u, n = z3.String("any_user"), z3.String("any_name")
    ctx.know("Str", u), ctx.know("Str", n), ctx.know("Str", name.t), ctx.know("Str", user.t)
    # what is known of the index: users without clusters need no entry
    ctx.forall(("Str",), lambda m: z3.Implies(s.has(m), s.some(s.owner(m))), "owners are indexed")
    v.case(lambda ev: {"kind": "kubeback"})
    out = v.run(KB + ".sync_cluster", s.o, name)
    if s.failed:
        v.prove("a-failing-secret-read-is-retried", z3.BoolVal(not out.ok))
        v.prove("a-failing-secret-read-changes-nothing", z3.And(z3.BoolVal(not s.releases and not any(w for _, _, w in s.clusters.log)), s.indexed(u, n) == z3.And(s.has(n), s.owner(n) == u)))
        return
    if not v.ok_or(out, "no-exception"):
        return
    v.cover("there" if there else "gone")
    now = s.now(s.clusters, n)
    idx = s.indexed(u, n)
    if not there:
        v.prove("a-deleted-cluster-is-forgotten", z3.And(now == z3.And(s.has(n), n != name.t), idx == z3.And(s.has(n), n != name.t, s.owner(n) == u)))
        v.prove("waiters-of-a-deleted-cluster-are-released", z3.Implies(s.waited(n), s.released(n) == (n == name.t)))
        v.prove("other-waiters-keep-waiting", z3.Implies(n != name.t, z3.Not(s.released(n))))
        return
    v.prove("clusters-are-indexed-under-their-owner-only", z3.And(now == z3.Or(s.has(n), n == name.t), idx == z3.If(n == name.t, u == user.t, z3.And(s.has(n), s.owner(n) == u))))
    new = [x for y, x, w in s.clusters.log if w]
    ok = len(new) == 1 and isinstance(new[0], Obj)
    v.prove("its-state-follows-the-resource", z3.BoolVal(ok))
    if not ok:
        return
    c = new[0]
    for m in s.inner.values():
        v.prove("index-holds-the-same-record", z3.BoolVal(all(x is c for _, x, w in m.log if w)))
    g = lambda f: it.resolve(it.getattr(c, f))
    stt = g("status")
    v.prove("its-state-follows-the-resource", z3.BoolVal(int(getattr(stt, "value", -1)) == status))
    v.prove("its-owner-follows-the-resource", z3.BoolVal(same_t(it, g("username"), user)) if not (isinstance(g("username"), SStr)) else g("username").t == user.t)
    v.prove("its-name-is-that-of-the-resource", g("name").t == name.t)
    op, co = g("options"), g("config")
    v.prove("its-options-follow-the-resource", z3.BoolVal(isinstance(op, VDict) and it.resolve(it.getitem(op, "x")) is options and isinstance(co, VDict) and it.resolve(it.getitem(co, "y")) is config))
    times = (g("start_time"), g("stop_time"))
    v.prove("its-times-follow-the-resource", z3.BoolVal(isinstance(times[0], tuple) and same_t(it, times[0][1], it.getitem(meta, "creationTimestamp")) and (times[1] is None if not done else isinstance(times[1], tuple) and same_t(it, times[1][1], done))))
    for f, proto, port in (("scheduler_address", "tls", 8786), ("dashboard_address", "http", 8787), ("api_address", "http", 8788)):
        a = g(f)
        if status == 2 and serv:
            w = z3.Concat(z3.StringVal(proto + "://"), serv.t, z3.StringVal("."), ns.t, z3.StringVal(":%d" % port))
            v.prove("addresses-are-those-of-its-own-service", z3.BoolVal(False) if isinstance(a, str) else a.t == w)
        else:
            v.prove("no-address-unless-running", z3.BoolVal(a == "" if isinstance(a, str) else False))
    creds = (g("tls_cert"), g("tls_key"), g("token"))
    if cert_old:
        v.prove("credentials-are-kept", z3.BoolVal(creds[0] is s.cert and creds[1] is s.key and (creds[2] is s.token or same_t(it, creds[2], s.token))))
    elif status <= 2 and cred:
        v.prove("credentials-only-from-its-own-secret", z3.BoolVal(len(reads) == 1))
        for a, k in reads:
            k = dict(zip(("name", "namespace"), a), **k)
            v.prove("credentials-only-from-its-own-secret", z3.And(it.sterm(it.resolve(k["name"])) == cred.t, it.sterm(it.resolve(k["namespace"])) == ns.t))
        src = [getattr(x, "attrs", {}).get("source") for x in creds]
        v.prove("credentials-only-from-its-own-secret", z3.BoolVal(all(x is it.resolve(it.getitem(data, f)) for x, f in zip(src, ("dask.crt", "dask.pem", "api-token")))))
        v.cover("credentials")
    else:
        v.prove("no-credentials-without-a-secret", z3.BoolVal(not reads and all(x in (b"", "") if isinstance(x, (str, bytes)) else False for x in creds)))
    v.prove("waiters-are-released-when-it-runs-or-ended", s.released(n) == z3.And(n == name.t, z3.BoolVal(status >= 2)))


@contract("C19", KB + ".get_cluster", "lookup", assumes=A_OWNER + ["asyncio.wait_for returns when the flag is set, or raises TimeoutError"])
def lookup(v):
    it, ctx = v.it, v.ctx
    name = v.str("cluster_name")
    s = Kube(v, name)
    wait = v.choose("wait", "now") == "wait"
    later = z3.Function("is_cached_later", STR, z3.BoolSort())
    waits = []

    def wait_for(it2, a, k):
        w = it.resolve(a[0])
        waits.append((w, it.resolve(a[1] if len(a) > 1 else k.get("timeout"))))

        def go():
            s.clusters.has = later
            ctx.mut_list(s.clusters.log, [])
            how = v.choose("set", "timeout", "cancelled")
            if how == "timeout":
                it.raise_(asyncio.TimeoutError)
            if how == "cancelled":
                it.raise_(asyncio.CancelledError)

        return Coro(go, "wait_for")

    it.lib["asyncio.wait_for"] = wait_for
    flags = {}

    def flag(t):
        for y, f in flags.items():
            if y.eq(t):
                return f
        f = v.fake("Flag", of=t)
        ctx.mut_dict(flags, t, f)
        return f

    s.waiters.at, s.waiters.default = flag, flag
    v.case(lambda ev: {"kind": "kubeback"})
    out = v.run(KB + ".get_cluster", s.o, name, wait=wait)
    if not out.ok:
        v.prove("only-cancellation-fails-a-lookup", z3.BoolVal(wait and out.exc_name() == "CancelledError"))
        return
    has = later if waits else s.has
    if wait:
        v.prove("waits-for-its-own-cluster", z3.BoolVal(len(waits) == 1 and isinstance(waits[0][0], Obj) and "of" in waits[0][0].attrs and waits[0][0].attrs["of"].eq(name.t)))
        v.prove("waits-for-a-limited-time", z3.BoolVal(all(isinstance(t, (int, float)) and not isinstance(t, bool) and t > 0 for _, t in waits)))
    else:
        v.prove("answers-at-once", z3.BoolVal(not waits))
    r = it.resolve(out.val)
    v.prove("answers-what-is-cached", has(name.t) == z3.BoolVal(r is not None))
    if r is not None:
        v.prove("answers-with-that-cluster", it.sterm(it.resolve(it.getattr(r, "name"))) == name.t)
    v.prove("a-lookup-changes-no-cluster", z3.BoolVal(not any(w for _, _, w in s.clusters.log)))


@contract("C19", KB + ".list_clusters", "listing", assumes=A_OWNER)
def listing(v):
    it, ctx = v.it, v.ctx
    s = Kube(v, v.str("unused"))
    status = z3.Function("status_of", STR, z3.IntSort())
    ms = s.MS
    CL = ref_sort("Cluster")
    cls = it.get_class("dask_gateway_server.models.Cluster")
    record, named = z3.Function("record_of", STR, CL), z3.Function("name_of_record", CL, STR)
    it.attr_hooks["Cluster.status"] = lambda it2, o, n: SEnum(ms, status(named(o.t)))
    it.attr_hooks["Cluster.username"] = lambda it2, o, n: SStr(s.owner(named(o.t)))
    it.attr_hooks["Cluster.name"] = lambda it2, o, n: SStr(named(o.t))
    ctx.forall(("Str",), lambda t: named(record(t)) == t, "names")
    rec = lambda t: SRef(cls, record(t))
    ctx.forall(("Str",), lambda t: z3.And(status(t) >= 1, status(t) <= 5), "statuses")
    who = v.choose("everybody", "user", "unknown")
    user = v.str("user")
    d = VDict()
    d.parts = [Part(("Str",), lambda t: s.has(t), lambda t: (SStr(t), rec(t)))]
    mine = VDict()
    mine.parts = [Part(("Str",), lambda t: z3.And(s.has(t), s.owner(t) == user.t), lambda t: (SStr(t), rec(t)))]
    v.assume(s.some(user.t) == z3.BoolVal(who == "user"))
    ctx.forall(("Str",), lambda t: z3.Implies(s.has(t), s.some(s.owner(t))), "indexed")
    s.o.attrs["clusters"] = d
    users = SymMap(v, lambda u: s.some(u), lambda u: mine if ctx.branch(u == user.t) else it.unsupported("other user"), name="username_to_clusters")
    s.o.attrs["username_to_clusters"] = users.o
    sts = v.choose(None, ("RUNNING",), ("STOPPED", "FAILED"), ())
    statuses = None if sts is None else VList([ms.enum[x] for x in sts])
    v.case(lambda ev: {"kind": "kubeback"})
    out = v.run(KB + ".list_clusters", s.o, None if who == "everybody" else user, statuses)
    if not v.ok_or(out, "no-exception"):
        return
    t = z3.String("any_name")
    ctx.know("Str", t)
    ctx.know("Str", s.owner(t))
    have = []
    for p in it.iterate(it.resolve(out.val)):
        if not isinstance(p, Part):
            it.unsupported("list")
        r = it.resolve(p.val(t))
        v.prove("lists-clusters", it.sterm(it.resolve(it.getattr(r, "name"))) == t)
        have.append(p.guard(t))
    have = z3.Or(have or [z3.BoolVal(False)])
    want = [s.has(t), status(t) <= 2 if sts is None else z3.Or([status(t) == ms.enum[x].value for x in sts] or [z3.BoolVal(False)])]
    if who != "everybody":
        want.append(s.owner(t) == user.t)
        v.prove("never-lists-somebody-elses-cluster", z3.Implies(have, s.owner(t) == user.t))
    v.prove("lists-exactly-the-matching-clusters", have == z3.And(want))


@contract("C19", KB + ".on_cluster_event", "queued")
def queued(v):
    it = v.it
    q = []
    o = v.obj(KB, queue=v.fake("queue", put=v.native(lambda it2, a, k: q.append(it.resolve(a[0])))))
    res = v.pydict({"metadata": v.pydict({"name": v.str("name"), "namespace": v.str("namespace")})})
    v.case(lambda ev: {"kind": "kubeback"})
    out = v.run(KB + ".on_cluster_event", o, res, **({"old": v.choose(None, res)} if v.choose("update", "delete") == "update" else {}))
    if v.ok_or(out, "no-exception"):
        v.prove("every-event-is-queued-under-its-name", z3.BoolVal(len(q) == 1) if len(q) != 1 else it.sterm(q[0]) == z3.Concat(z3.String("namespace"), z3.StringVal("."), z3.String("name")))


@contract("C19", KB + ".sync_clusters_loop", "syncing", assumes=["WorkQueue meets its contract (C12)"])
def syncing(v):
    it, ctx = v.it, v.ctx
    WC = it.get_class("dask_gateway_server.workqueue.WorkQueueClosed")
    name = v.str("cluster_name")

    def get(it2, a, k):
        def go():
            w = v.choose("item", "closed", "cancelled")
            ctx.event("get", w)
            if w == "closed":
                it.raise_(WC)
            if w == "cancelled":
                it.raise_(asyncio.CancelledError)
            return name

        return Coro(go, "get")

    def synced(it2, a, k):
        w = v.choose("ok", "fails", "cancelled")
        ctx.event("sync", it.resolve(a[-1]), w)
        if w == "fails":
            it.raise_(RuntimeError, "sync")
        if w == "cancelled":
            it.raise_(asyncio.CancelledError)

    q = v.fake("queue", get=v.native(get), **{f: v.native(lambda it2, a, k, f=f: ctx.event(f, it.resolve(a[0]))) for f in ("put", "put_backoff", "reset_backoff", "task_done")})
    it.overrides[KB + ".sync_cluster"] = synced
    WhileInv(v, lambda init, cur: {})
    v.case(lambda ev: {"kind": "kubeback"})
    out = run(v, KB + ".sync_clusters_loop", v.obj(KB, queue=q, log=noop_log()))
    evs = v.events()
    got = [e for e in evs if e[0] == "get"]
    if got and got[0][1] == "item":
        sy = [e for e in evs if e[0] == "sync"]
        v.prove("each-queued-cluster-is-synced", z3.BoolVal(len(sy) == 1 and sy[0][1] is name))
        done = [e for e in evs if e[0] == "task_done"]
        v.prove("each-item-is-finished-once", z3.BoolVal(len(done) == 1 and evs[-1][0] == "task_done" and done[0][1] is name))
        if sy and sy[0][2] != "cancelled":
            v.prove("a-failed-sync-is-retried", z3.BoolVal([e[:2] for e in evs if e[0] in ("put_backoff", "reset_backoff")] == [("put_backoff" if sy[0][2] == "fails" else "reset_backoff", name)]))
            v.prove("a-failure-does-not-end-it", z3.BoolVal(out is None))
    if out is not None:
        v.prove("only-closing-or-cancellation-ends-it", z3.BoolVal((out.ok and got[-1][1] == "closed") or (not out.ok and out.exc_name() == "CancelledError")))


class Config:
    def __init__(self, v):
        self.ns, self.d = v.str("namespace"), v.opaque("config")
        self.o = v.fake("config", namespace=self.ns, to_dict=v.native(lambda it, a, k: self.d))


@contract("C19", KB + ".start_cluster", "start", assumes=["uuid.uuid4 is random and never repeats"])
def start(v):
    it, ctx = v.it, v.ctx
    hexes = []

    def uuid4(it2, a, k):
        hexes.append(v.str("uuid%d" % len(hexes)))
        return v.fake("UUID", hex=hexes[-1])

    it.lib["uuid.uuid4"] = uuid4
    c = Config(v)
    options, asked = v.opaque("options"), v.opaque("requested")
    user = v.obj("dask_gateway_server.models.User", name=v.str("username"))
    refused = v.choose("accepted", "refused") == "refused"

    def process(it2, a, k):
        v.prove("the-request-is-that-of-the-user", z3.BoolVal([it.resolve(x) for x in a[-2:]] == [user, asked]))
        if refused:
            it.raise_(ValueError, "options")
        return (options, c.o)

    it.overrides["dask_gateway_server.backends.base.Backend.process_cluster_options"] = process
    calls = []

    def create(it2, a, k):
        calls.append(([it.resolve(x) for x in a], k))
        bad = v.choose("created", "fails")

        def go():
            if bad == "fails":
                calls.append(None)
                it.raise_(RuntimeError, "api")

        return Coro(go, "create")

    labels = v.pydict({"common": v.str("common_label")})
    inst = v.str("instance")
    o = v.obj(KB, log=noop_log(), crd_version=v.str("crd"), common_labels=labels, common_annotations=v.opaque("annotations"), gateway_instance=inst, custom_client=v.fake("custom", create_namespaced_custom_object=v.native(create)))
    v.case(lambda ev: {"kind": "kubeback"})
    out = v.run(KB + ".start_cluster", o, user, asked)
    if refused:
        v.prove("nothing-is-created-for-a-refused-request", z3.BoolVal(not out.ok and not calls))
        return
    v.prove("one-resource-is-created", z3.BoolVal(len([x for x in calls if x]) == 1))
    if calls and calls[-1] is None:
        v.prove("a-failed-creation-is-reported", z3.BoolVal(not out.ok))
        return
    if not v.ok_or(out, "no-exception"):
        return
    a, k = calls[0]
    v.prove("the-resource-is-created-in-its-namespace", z3.BoolVal(len(a) == 5 and a[0] == "gateway.dask.org" and a[2] is c.ns and a[3] == "daskclusters"))
    res = a[4]
    md = at(it, res, "metadata")
    v.prove("every-cluster-has-a-name-of-its-own", z3.BoolVal(len(hexes) == 1 and same_t(it, at(it, res, "metadata", "name"), hexes[0])))
    v.prove("the-caller-gets-its-name", it.sterm(it.resolve(out.val)) == z3.Concat(c.ns.t, z3.StringVal("."), hexes[0].t))
    v.prove("the-resource-names-its-owner", z3.BoolVal(same_t(it, at(it, res, "spec", "username"), user.attrs["name"])))
    v.prove("the-resource-has-the-accepted-options", z3.BoolVal(at(it, res, "spec", "options") is options and at(it, res, "spec", "config") is c.d))
    v.prove("the-resource-is-watched-by-this-gateway", z3.BoolVal(same_t(it, at(it, res, "metadata", "labels", "gateway.dask.org/instance"), inst)))


@contract("C19", KB + ".stop_cluster", "stop", assumes=["names of namespaces and resources hold no dot"])
def stop(v):
    it, ctx = v.it, v.ctx
    ns, nm = v.str("namespace"), v.str("name")
    full = SStr(z3.Concat(ns.t, z3.StringVal("."), nm.t))
    status = v.enum("status", MS)
    known = v.choose("known", "unknown") == "known"
    cl = v.obj("dask_gateway_server.models.Cluster", status=status, name=full)
    parts = lambda it2, a, k: VList([ns, nm])
    name = v.fake("str", split=v.native(parts), rsplit=v.native(parts), partition=v.native(lambda it2, a, k: (ns, ".", nm)), rpartition=v.native(lambda it2, a, k: (ns, ".", nm)))
    clusters = v.fake("clusters", get=v.native(lambda it2, a, k: cl if known and it.resolve(a[0]) is name else (a[1] if len(a) > 1 else None)), __contains__=v.native(lambda it2, a, k: known and it.resolve(a[0]) is name), __getitem__=v.native(lambda it2, a, k: cl))
    calls = []

    def patch(it2, a, k):
        calls.append([it.resolve(x) for x in a])
        return Coro(lambda: it.raise_(RuntimeError, "api") if v.choose("patched", "fails") == "fails" else None, "patch")

    o = v.obj(KB, log=noop_log(), clusters=clusters, crd_version=v.str("crd"), custom_client=v.fake("custom", patch_namespaced_custom_object=v.native(patch)))
    v.case(lambda ev: {"kind": "kubeback"})
    out = v.run(KB + ".stop_cluster", o, name, **({"failed": v.choose(True, False)}))
    ended = known and ctx.branch(status.t >= 4)
    if ended:
        v.prove("a-stopped-cluster-is-left-alone", z3.BoolVal(out.ok and not calls))
        return
    v.prove("its-resource-is-told-to-stop", z3.BoolVal(len(calls) == 1))
    for a in calls:
        v.prove("only-its-own-resource-is-told", z3.BoolVal(len(a) == 6 and a[0] == "gateway.dask.org" and a[2] is ns and a[3] == "daskclusters" and a[4] is nm))
        ops = it.to_pylist(a[5])
        v.prove("its-resource-is-told-to-stop", z3.BoolVal(len(ops) == 1 and [it.resolve(at(it, ops[0], x)) for x in ("op", "path", "value")] in (["add", "/spec/active", False], ["replace", "/spec/active", False])))


@contract("C19", KB + ".setup", "wiring", assumes=["Informer runs as under contract once started; WorkQueue and Flag as under contract (C12)"])
def wiring(v):
    it, ctx = v.it, v.ctx
    made = []
    n = v.native
    for f in ("load_incluster_config", "load_kube_config"):
        it.lib["kubernetes_asyncio.config." + f] = lambda it2, a, k, f=f: Coro(lambda: None, f) if f == "load_kube_config" else None
    for f in ("ApiClient", "CoreV1Api", "CustomObjectsApi"):
        it.lib["kubernetes_asyncio.client." + f] = lambda it2, a, k, f=f: v.fake(f)

    def informer(it2, a, k):
        o = v.fake("Informer", start=v.afn(lambda it3, a3, k3: ctx.event("started")))
        made.append(k)
        return o

    it.overrides[INF] = informer
    it.overrides["dask_gateway_server.workqueue.WorkQueue"] = lambda it2, a, k: v.fake("WorkQueue")
    it.overrides["dask_gateway_server.backends.base.Backend.setup"] = lambda it2, a, k: None
    ev = []
    it.lib["asyncio.ensure_future"] = it.lib["asyncio.create_task"] = lambda it2, a, k: ev.append(getattr(it.resolve(a[0]), 'name', None)) or v.fake("Task")
    o = v.obj(KB, log=noop_log(), crd_version=v.str("crd"), label_selector=v.str("selector"))
    out = v.run(KB + ".setup", o, v.fake("app"))
    if not v.ok_or(out, "no-exception"):
        return
    v.prove("cluster-resources-are-watched", z3.BoolVal(len(made) == 1 and len(v.events("started")) == 1))
    for k in made:
        mk = it.resolve(k.get("method_kwargs"))
        v.prove("cluster-resources-are-watched", z3.BoolVal(at(it, mk, "group") == "gateway.dask.org" and at(it, mk, "plural") == "daskclusters" and same_t(it, at(it, mk, "label_selector"), o.attrs["label_selector"]) and k.get("method") == "list_cluster_custom_object"))
        for f in ("on_update", "on_delete"):
            b = it.resolve(k.get(f))
            v.prove("every-event-reaches-the-backend", z3.BoolVal(isinstance(b, BoundV) and b.func.qual == KB + ".on_cluster_event" and b.self_ is o))
    v.prove("events-are-synced", z3.BoolVal(len(ev) == 1 and "sync_clusters_loop" in str(ev[0])))
