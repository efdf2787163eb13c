"""C15: the routing table (Go: dask-gateway-proxy/pkg/router).

A path, normalized, is cut at its slashes. Its boundaries are the positions at
which a part begins (0 and after each slash) and -1, its end. way(b) names the
tree path of the parts before boundary b; table = url: tree path -> URL."""
import z3

from pyvc.verify import *
from contracts import golang
from contracts.golang import B, I, S, PATH, URLS, ROOT, NIL, NOURL, Node, Slice, SRef, Tree, GoV, _init, _last, _snoc
from contracts.loops import StopBody, modified_names, run

R = "go_router."
try:
    golang.translator()  # once, before the contracts are shared out
except Exception:
    pass
ASSUMES = [
    "Go's strings, slices and maps as contracts/golang.py gives them (a string is a sequence of bytes; a panic is an exception); strings.IndexRune of an ASCII rune finds the first occurrence of that byte",
    "the tree is changed by one goroutine at a time (ServeHTTP and the update functions hold routesLock)",
    "nodes of the tree are named by their place in it: each is stored in one map only (obligation: a node is put in one place)",
]


@contract("C15", R + "normalizePath", assumes=ASSUMES[:1])
def normalize(v):
    GoV(v)
    p = v.str("path")
    v.case(lambda ev: {"kind": "match", "routes": [["/", 0]], "path": ev(p)})
    out = v.run(R + "normalizePath", p)
    if not v.ok_or(out, "no-panic"):
        return
    q, off = out.val
    q, off = v.it.sterm(q), v_int(v.it, off)
    n = z3.Length(p.t)
    v.prove("offset", z3.And(off >= 0, off <= 1, off + z3.Length(q) <= n))
    slash = z3.StringVal("/")
    lead = z3.PrefixOf(slash, p.t)
    # one slash is dropped at either end
    v.prove("one-leading-slash-is-dropped", z3.Implies(p.t != slash, off == z3.If(lead, z3.IntVal(1), z3.IntVal(0))))
    v.prove("the-rest-is-kept", q == z3.SubString(p.t, off, z3.Length(q)))
    v.prove("one-trailing-slash-is-dropped", z3.Or(off + z3.Length(q) == n, z3.And(off + z3.Length(q) == n - 1, z3.SuffixOf(slash, p.t))))
    v.prove("a-trailing-slash-does-not-count", z3.Implies(z3.SuffixOf(slash, p.t), z3.Or(p.t == slash, n == off + z3.Length(q) + 1, z3.And(off == 1, n == 1 + z3.Length(q)))))
    v.prove("root", z3.Implies(z3.Or(p.t == "", p.t == slash), z3.And(q == "", off == 0)))
    v.cover("returns")


@contract("C15", R + "getSegment", assumes=ASSUMES[:1])
def segment(v):
    g = GoV(v)
    p, start = v.str("path"), v.int("start", 0)
    x = v.int("x")
    g.watch = (x.t - 1,)
    v.assume(start.t <= z3.Length(p.t))
    v.case(lambda ev: {"kind": "match", "routes": [[ev(p), 0]], "path": ev(p)})
    out = v.run(R + "getSegment", p, start)
    if not v.ok_or(out, "no-panic"):
        return
    s, nx = out.val
    s, nx = v.it.sterm(s), v_int(v.it, nx)
    n = z3.Length(p.t)
    end = z3.If(nx == -1, n, nx - 1)
    v.prove("next-begins-after-a-slash", z3.Or(nx == -1, z3.And(nx > start.t, nx <= n, z3.SubString(p.t, nx - 1, 1) == "/")))
    v.prove("the-part-between", s == z3.SubString(p.t, start.t, end - start.t))
    v.prove("no-boundary-is-skipped", z3.Implies(z3.And(start.t < x.t, x.t <= end), z3.SubString(p.t, x.t - 1, 1) != "/"))
    v.prove("only-the-empty-path-is-one-empty-part", z3.Implies(z3.And(start.t == 0, nx == -1), s == p.t))
    v.cover("returns")


# ------------------------------------------------------------------ the walk

seg = z3.Function("part_at", I, S)
nxt = z3.Function("boundary_after", I, I)
way = z3.Function("way", I, PATH)
bnd = z3.Function("boundary", I, B)


class Walk:
    """A path, its normal form P2 and its boundaries, by the contracts of
    normalizePath and getSegment. X is an arbitrary boundary."""

    def __init__(self, v, tree, path):
        self.v, self.tree, self.path = v, tree, path
        it = v.it
        self.p2, self.off = v.ctx.fresh("p2", S), v.ctx.fresh("off", I)
        self.len2 = z3.Length(self.p2)
        v.assume(z3.And(self.off >= 0, self.off <= 1, self.off + self.len2 <= z3.Length(path.t)))
        self.X = v.ctx.fresh("X", I)
        v.assume(bnd(self.X))
        v.assume(z3.And(bnd(z3.IntVal(0)), bnd(z3.IntVal(-1)), way(z3.IntVal(0)) == ROOT, nxt(z3.IntVal(-1)) == -1))
        self.boundary(self.X)
        it.overrides[R + "normalizePath"] = self.normalize
        it.overrides[R + "getSegment"] = self.segment
        self.b = None
        # the key of the route this path names
        self.key = z3.If(self.p2 == "", ROOT, way(z3.IntVal(-1)))

    def ord(self, b):
        return z3.If(b == -1, self.len2 + 1, b)

    def boundary(self, b):
        """What a boundary is: positions from 0 to the length, and the end."""
        self.v.assume(z3.Implies(bnd(b), z3.And(b >= -1, b <= self.len2, z3.Implies(b == 0, way(b) == ROOT), z3.Implies(b != 0, z3.And(way(b) != ROOT, way(b) != NIL)))))

    def normalize(self, it, a, k):
        x = it.resolve(a[0])
        self.v.aux("its-own-path", z3.BoolVal(isinstance(x, SStr) and x.t.eq(self.path.t)))
        return (SStr(self.p2), SInt(self.off))

    def step(self, b):
        """getSegment's postcondition at boundary b."""
        v = self.v
        n = nxt(b)
        v.assume(n == z3.If(b == -1, -1, n))
        v.assume(z3.Implies(z3.And(bnd(b), b >= 0), z3.And(bnd(n), z3.Or(n == -1, z3.And(n > b, n <= self.len2)), z3.Not(z3.And(self.ord(b) < self.ord(self.X), self.ord(self.X) < self.ord(n))), z3.Implies(z3.And(b == 0, n == -1), seg(b) == self.p2))))
        self.tree.child(way(b), seg(b))
        v.assume(z3.Implies(z3.And(bnd(b), b >= 0), way(n) == _snoc(way(b), seg(b))))
        self.boundary(b)
        self.boundary(n)
        self.tree.known(way(n))
        self.tree.known(way(b))
        return n

    def segment(self, it, a, k):
        x, b = it.resolve(a[0]), v_int(it, a[1])
        v = self.v
        v.aux("of-the-normalized-path", z3.BoolVal(isinstance(x, SStr)) if not isinstance(x, SStr) else x.t == self.p2)
        v.aux("at-a-boundary", z3.And(bnd(b), b >= 0))
        n = self.step(b)
        return (SStr(seg(b)), SInt(n))

    def absent_below(self, st, b):
        """Lemma below: a boundary at which there is no node, none after it."""
        self.v.assume(z3.Implies(z3.And(bnd(b), z3.Not(st[0](way(b))), self.ord(self.X) >= self.ord(b)), z3.Not(st[0](way(self.X)))))
        self.v.assume(z3.Implies(z3.And(bnd(b), z3.Not(st[0](way(b)))), z3.Not(st[0](way(z3.IntVal(-1))))))


def v_int(it, x):
    x = it.resolve(x)
    return z3.IntVal(x) if isinstance(x, int) else x.t


@contract("C15", R + "Router", name="prefix_closed")
def prefix_closed(v):
    """Induction step of the lemma used in absent_below: where a node is
    missing, its children are."""
    t = Tree(v)
    p, s = v.ctx.fresh("p", PATH), v.ctx.fresh("s", S)
    c = t.child(p, s)
    t.known(c)
    v.prove("below-a-missing-node-there-is-none", z3.Implies(z3.Not(t.has(p)), z3.Not(t.has(c))))


class Loops:
    """Loop rule: invs[k] is the invariant of the k-th loop met,
    inv(vars, b, old) -> {clause: term}; b: the boundary the loop is at."""

    def __init__(self, v, tree, *invs):
        self.v, self.tree, self.invs = v, tree, list(invs)
        self.count, self.depth = 0, 0
        v.ctx.state["while_hook"] = self

    def fresh(self, x, val, n):
        ctx = self.v.ctx
        if isinstance(val, (bool, SBool)):
            return SBool(ctx.fresh("l_" + x, B))
        if isinstance(val, (int, SInt)):
            return SInt(ctx.fresh("l_" + x, I))
        if isinstance(val, (str, SStr)):
            return SStr(ctx.fresh("l_" + x, S))
        if isinstance(val, Node):
            return Node(val.cls, ctx.fresh("l_" + x, PATH))
        if isinstance(val, Slice):
            f, g = ctx.fresh_fn("l_part", I, S), ctx.fresh_fn("l_node", I, PATH)
            return Slice(ctx.fresh("l_len", I), lambda k: f(k), lambda k: g(k))
        if isinstance(val, SRef):
            return SRef(val.cls, ctx.fresh("l_" + x, val.t.sort()))
        self.v.it.unsupported(f"loop variable {x}", n)

    def __call__(self, it, n, env):
        v, ctx = self.v, self.v.ctx
        if self.depth or self.count >= len(self.invs):
            it.unsupported("another loop", n)
        inv = self.invs[self.count]
        ctx.mut_attr(self, "count", self.count + 1)
        names = sorted(x for x in modified_names(n) if x in env.vars)
        init = {x: it.resolve(env.vars[x]) for x in names}
        allv = lambda: {x: it.resolve(env.vars[x]) for x in env.vars}
        self.check(inv, allv(), "entry")
        cur = {}
        for x in names:
            ctx.mut_dict(env.vars, x, self.fresh(x, init[x], n))
        self.tree.havoc("loop")
        head = allv()
        for t in inv(head, "head").values():
            v.assume(t)
        if ctx.check() == z3.unsat:
            raise Infeasible
        if not it.truth(it.ev(n.test, env)):
            return True
        ctx.mut_attr(self, "depth", 1)
        try:
            it.ex_block(n.body, env)
        except ContinueEx:
            pass
        except BreakEx:
            ctx.mut_attr(self, "depth", 0)
            return True
        self.check(inv, allv(), "kept")
        v.rep.paths += 1
        raise StopBody

    def check(self, inv, vars, when):
        try:
            d = inv(vars, when)
        except (KeyError, AttributeError, TypeError):
            self.v.it.unsupported("loop over other variables")
        for k, t in d.items():
            self.v.aux(k, t)


def start(v):
    t = Tree(v)
    path = v.str("path")
    w = Walk(v, t, path)
    router = Node(golang.ROUTER, ROOT)
    return t, w, path, router


def match_case(v, path):
    v.case(lambda ev: {"kind": "match", "routes": [], "path": ev(path)})


@contract("C15", R + "Router.Match", assumes=ASSUMES)
def match(v):
    t, w, path, router = start(v)
    st = (t.has, t.url, t.nomap)
    J = {}

    def end(b):
        return z3.If(b == -1, w.len2, b)

    def inv(x, when):
        n, node, out, o2 = v_int(v.it, x["n"]), x["node"].t, x["out"].t, v_int(v.it, x["offset2"])
        if when == "entry":
            j = z3.IntVal(0)
        elif when == "head":
            j = v.ctx.fresh("best", I)
            w.boundary(j)
            J["head"], J["b"] = j, n
        else:
            j = z3.If(t.url(way(n)) != NOURL, n, J["head"])
            w.boundary(n)
        J["now"] = j
        r = {
            "at-the-node-of-this-boundary": z3.And(bnd(n), n >= 0, node == way(n), t.has(node)),
            "best-so-far": z3.And(bnd(j), j >= 0, j <= n, out == t.url(way(j)), o2 == j, z3.Implies(out == NOURL, j == 0)),
            "no-longer-one-so-far": z3.Implies(z3.And(w.ord(j) < w.ord(w.X), w.ord(w.X) <= n), t.url(way(w.X)) == NOURL),
            "table-unchanged": t.url(way(w.X)) == st[1](way(w.X)),
        }
        if when == "head":
            t.known(way(n))
            w.step(n)
            w.absent_below((t.has, t.url, t.nomap), nxt(n))
            t.known(way(w.X))
        return r

    Loops(v, t, inv)
    match_case(v, path)
    t.known(ROOT)
    t.known(way(w.X))
    out = run(v, R + "Router.Match", router, path)
    if out is None or not v.ok_or(out, "no-panic"):
        return
    if "head" not in J:
        v.it.unsupported("loop rewritten")
    u, rest = out.val
    u = t.uterm(u)
    n = J["b"]
    nx = nxt(n)
    j = z3.If(t.url(way(nx)) != NOURL, nx, J["head"])
    X = w.X
    isroute = z3.And(t.url(way(X)) != NOURL)
    v.cover("returns")
    v.prove("a-route-of-the-table", z3.Implies(u != NOURL, z3.And(u == t.url(way(j)), bnd(j))))
    v.prove("matches-when-there-is-a-route", z3.Implies(isroute, u != NOURL))
    v.prove("the-longest-route-wins", z3.Implies(isroute, w.ord(X) <= w.ord(j)))
    e = w.off + end(j)
    v.prove("the-unmatched-remainder", v.eq(rest, SStr(z3.If(u == NOURL, z3.StringVal(""), z3.SubString(path.t, e, z3.Length(path.t) - e)))))


def walker(v, t, w, st, extra=None, ghost=None):
    """The invariant of `for part, i := getSegment(path, 0); ; part, i = ...`."""
    G = ghost if ghost is not None else {}

    def inv(x, when, node="node"):
        i, part = v_int(v.it, x["i"]), v.it.sterm(x["part"])
        nd = x[node].t if node in x else x["router"].t
        if when == "entry":
            b = z3.IntVal(0)
        elif when == "head":
            b = v.ctx.fresh("b", I)
        else:
            b = nxt(G["b"])
        G["b"] = b
        r = {
            "at-the-node-of-this-boundary": z3.And(bnd(b), b >= 0, nd == way(b), t.has(nd)),
            "at-this-part": z3.And(part == seg(b), i == nxt(b)),
        }
        if extra:
            r.update(extra(x, when, b))
        if when == "head":
            G["head"] = b
            w.boundary(b)
            t.known(way(b))
            w.step(b)
            w.absent_below((t.has, t.url, t.nomap), nxt(b))
            t.known(way(w.X))
        return r

    return inv


@contract("C15", R + "Router.HasMatch", assumes=ASSUMES)
def has_match(v):
    t, w, path, router = start(v)
    st = (t.has, t.url, t.nomap)
    X = w.X
    Q = v.ctx.fresh("Q", PATH)

    def extra(x, when, b):
        return {
            "no-route-so-far": z3.Implies(w.ord(X) <= w.ord(b), t.url(way(X)) == NOURL),
            "table-unchanged": t.url(way(X)) == st[1](way(X)),
        }

    G = {}
    Loops(v, t, lambda x, when: walker_inv(x, when, "router"))
    walker_inv = walker(v, t, w, st, extra, G)
    match_case(v, path)
    t.known(ROOT)
    t.known(way(X))
    w.step(z3.IntVal(0))
    M_ = {}

    def by_match(it2, o, name):
        def fn(it3, a, k):
            """Match by its contract"""
            if o is not router or it2.sterm(it2.resolve(a[0])) is not path.t and not it2.sterm(it2.resolve(a[0])).eq(path.t):
                it2.unsupported("another match")
            u, j = v.ctx.fresh("matched", golang.URLS), v.ctx.fresh("at", I)
            v.assume(z3.And(z3.Implies(t.url(way(X)) != NOURL, u != NOURL), z3.Implies(u != NOURL, z3.And(u == t.url(way(j)), bnd(j)))))
            M_["j"] = j
            return (SRef(golang.URL, u), v.str("rest"))

        return v.native(fn)

    v.it.attr_hooks["GoRouter.Match"] = by_match
    out = run(v, R + "Router.HasMatch", router, path)
    if out is None or not v.ok_or(out, "no-panic"):
        return
    r = v.truth(out.val)
    v.cover("returns")
    v.prove("matches-when-there-is-a-route", z3.Implies(z3.And(t.url(way(X)) != NOURL), r))
    some = t.url(ROOT) != NOURL
    if "head" in G:
        some = z3.Or(some, z3.And(bnd(nxt(G["head"])), t.url(way(nxt(G["head"]))) != NOURL))
    if "j" in M_:
        some = z3.Or(some, z3.And(bnd(M_["j"]), t.url(way(M_["j"])) != NOURL))
    v.prove("only-when-there-is-a-route", z3.Implies(r, some))


@contract("C15", R + "Router.Put", assumes=ASSUMES)
def put(v):
    t, w, path, router = start(v)
    st = (t.has, t.url, t.nomap)
    Q = v.ctx.fresh("Q", PATH)
    u = SRef(golang.URL, v.ctx.fresh("u", URLS))

    def extra(x, when, b):
        r = {
            "table-unchanged-so-far": t.url(Q) == st[1](Q),
            "well-formed": t.wf(Q),
            "its-own-route": z3.BoolVal(x["path"].t.eq(w.p2) and any(isinstance(z, SRef) and z.cls is golang.URL and z.t.eq(u.t) for z in x.values())),
            "not-the-root": w.p2 != "",
        }
        if when == "head":
            t.known(Q)
        return r

    G = {}
    inv = walker(v, t, w, st, extra, G)
    Loops(v, t, inv)
    v.case(lambda ev: {"kind": "match", "routes": [[ev(path), 0]], "path": ev(path)})
    t.known(ROOT)
    t.known(Q)
    w.step(z3.IntVal(0))
    out = run(v, R + "Router.Put", router, path, u)
    if out is None or not v.ok_or(out, "no-panic"):
        return
    v.cover("returns")
    v.prove("the-route-is-added-and-no-other-changes", t.url(Q) == z3.If(Q == w.key, u.t, st[1](Q)))
    v.prove("well-formed", z3.Implies(u.t != NOURL, t.wf(Q)))


@contract("C15", R + "Router.Delete", assumes=ASSUMES, max_paths=6000)
def delete(v):
    t, w, path, router = start(v)
    st = (t.has, t.url, t.nomap)
    Q = v.ctx.fresh("Q", PATH)
    K = v.ctx.fresh("K", I)
    G = {}
    v.ctx.know("Str", _last(Q))

    def chain(p, k, last):
        """The k-th record leads to the next one."""
        c = _snoc(p.node(k), p.part(k))
        return z3.Implies(z3.And(k >= 0, k < p.n), c == z3.If(k == p.n - 1, last, p.node(k + 1)))

    def extra(x, when, b):
        p, nd = x["paths"], x["node"].t
        r = {
            "table-unchanged-so-far": z3.And(t.url(Q) == st[1](Q)),
            "well-formed": t.wf(Q),
            "records-lead-here": z3.And(p.n >= 0, chain(p, K, nd), z3.Implies(p.n > 0, p.node(z3.IntVal(0)) == ROOT), z3.Implies(p.n == 0, nd == ROOT)),
            "its-own-path": z3.BoolVal(x["path"].t.eq(w.p2)),
            "not-the-root": w.p2 != "",
        }
        if when == "head":
            t.known(Q)
            G["url"] = t.url
            for k in (p.n - 1,):
                v.assume(chain(p, k, nd))
                t.child(p.node(k), p.part(k))
        return r

    def up(x, when):
        p, i = x["paths"], v_int(v.it, x["i"])
        c = _snoc(p.node(i), p.part(i))
        last = G["leaf"] if "leaf" in G else x["node"].t
        G["leaf"] = last
        s = v.ctx.fresh("any_part", S) if when != "head" else None
        r = {
            "records-lead-here": z3.And(i >= -1, i < p.n, chain(p, K, last)),
            "a-node-without-routes": z3.Implies(i >= 0, z3.And(t.has(c), t.url(c) == NOURL)),
            "the-route-is-gone-and-no-other": t.url(Q) == z3.If(Q == w.key, NOURL, st[1](Q)),
            "well-formed": t.wf(Q),
        }
        t.child(p.node(i), p.part(i))
        if when == "head":
            has = t.has
            v.ctx.forall(("Str",), lambda y: z3.Implies(i >= 0, z3.Not(has(_snoc(c, y)))), "no children")
            for k in (i, i - 1):
                v.assume(chain(p, k, last))
                t.child(p.node(k), p.part(k))
            t.known(Q)
            t.known(c)
        else:
            v.ctx.know("Str", s)
            t.child(c, s)
            t.known(_snoc(c, s))
            r["nothing-below-it"] = z3.Implies(i >= 0, z3.Not(t.has(_snoc(c, s))))
        return r

    inv = walker(v, t, w, st, extra, G)
    Loops(v, t, inv, up)
    v.case(lambda ev: {"kind": "delete", "path": ev(path)})
    t.known(ROOT)
    t.known(Q)
    w.step(z3.IntVal(0))
    out = run(v, R + "Router.Delete", router, path)
    if out is None or not v.ok_or(out, "no-panic"):
        return
    v.cover("returns")
    v.prove("the-route-is-gone-and-no-other", t.url(Q) == z3.If(Q == w.key, NOURL, st[1](Q)))
    v.prove("well-formed", t.wf(Q))


# ------------------------------------------------------- what is forwarded

M = "go_main."


@contract("C15", M + "singleJoiningSlash", assumes=ASSUMES[:1])
def joining(v):
    GoV(v)
    a, b = v.str("a"), v.str("b")
    v.case(lambda ev: {"kind": "serve", "ops": [["put", "/", "http://t" + "/" * (ev(a)[-1:] == "/")]], "queries": [ev(b)]})
    out = v.run(M + "singleJoiningSlash", a, b)
    if not v.ok_or(out, "no-panic"):
        return
    sl = z3.StringVal("/")
    la, lb = z3.Length(a.t), z3.Length(b.t)
    a1 = z3.If(z3.SuffixOf(sl, a.t), z3.SubString(a.t, 0, la - 1), a.t)
    b1 = z3.If(z3.PrefixOf(sl, b.t), z3.SubString(b.t, 1, lb - 1), b.t)
    v.prove("joined-by-one-slash", v.it.sterm(out.val) == z3.Concat(a1, sl, b1))


@contract("C15", M + "Proxy.ServeHTTP", assumes=ASSUMES[:1] + ["http.Error answers the request with the given status; httputil.ReverseProxy.ServeHTTP sends the request to its URL's host"])
def serve(v):
    g = GoV(v)
    it, ctx = v.it, v.ctx
    n = v.native
    path, rest = v.str("path"), v.str("rest")
    log = []
    held = {"read": 0}

    def ev(*x):
        ctx.mut_append(log, x)

    def lock(d):
        def fn(it2, a, k):
            ctx.mut_dict(held, "read", held["read"] + d)
        return n(fn)

    tgt = {k: v.str("target_" + k) for k in ("Scheme", "Host", "Path", "RawQuery")}
    target = v.fake("URL", **tgt)
    found = ctx.branch(z3.Bool("found"))

    def match_(it2, a, k):
        v.prove("table-read-under-its-lock", z3.BoolVal(held["read"] > 0))
        v.prove("matched-by-the-request's-path", v.eq(a[0], path))
        ev("match")
        return (target, rest) if found else (None, "")

    joined = z3.Function("joined", S, S, S)
    it.overrides[M + "singleJoiningSlash"] = lambda it2, a, k: SStr(joined(it2.sterm(it2.resolve(a[0])), it2.sterm(it2.resolve(a[1]))))
    it.overrides["go_logging.DEBUG"] = 3
    url = v.fake("URL", Path=path, Scheme=v.str("s0"), Host=v.str("h0"), RawQuery=v.str("q0"), RequestURI=n(lambda it2, a, k: v.str("uri")))
    q0 = url.attrs["RawQuery"]
    req = v.fake("Request", URL=url, Host=v.str("h1"))
    w = v.fake("ResponseWriter")
    nop = n(lambda it2, a, k: None)

    def send(it2, a, k):
        u = req.attrs["URL"].attrs
        ev("send", a[0] is w and a[1] is req, dict(u), req.attrs["Host"])

    it.lib["golib_net_http.Error"] = lambda it2, a, k: ev("error", a[0] is w, it2.resolve(a[2]))
    it.overrides["golib_net_http.StatusNotFound"] = 404
    p = v.fake("Proxy", router=v.fake("Router", Match=n(match_)), proxy=v.fake("ReverseProxy", ServeHTTP=n(send)),
               logger=v.fake("Logger", Level=v.int("level"), Infof=nop, Debugf=nop, Warnf=nop, Errorf=nop, Debug=nop, Info=nop),
               routesLock=v.fake("RWMutex", RLock=lock(1), RUnlock=lock(-1), Lock=lock(1), Unlock=lock(-1)))
    v.case(lambda e: {"kind": "serve", "ops": [["put", "/a", "http://t/" + ("?k=1" if e(tgt["RawQuery"]) else "")]] if found else [], "queries": ["/a/b" + ("?q=1" if e(q0) else ""), "/a/", "/b"]})
    out = v.run(M + "Proxy.ServeHTTP", p, w, req)
    if not v.ok_or(out, "no-panic"):
        return
    v.prove("lock-released", z3.BoolVal(held["read"] == 0))
    acts = [x for x in log if x[0] in ("send", "error")]
    if not found:
        v.cover("not found")
        v.prove("a-path-without-a-route-is-not-forwarded", z3.BoolVal([x[0] for x in acts] == ["error"] and acts[0][1] and acts[0][2] == 404))
        return
    v.cover("found")
    v.prove("forwarded-once", z3.BoolVal([x[0] for x in acts] == ["send"] and acts[0][1]))
    if [x[0] for x in acts] != ["send"]:
        return
    u, host = acts[0][2], acts[0][3]
    v.prove("forwarded-to-the-route's-target", z3.And(v.eq(u["Scheme"], tgt["Scheme"]), v.eq(u["Host"], tgt["Host"]), v.eq(host, tgt["Host"])))
    v.prove("the-remainder-is-forwarded", v.eq(u["Path"], SStr(joined(tgt["Path"].t, rest.t))))
    tq = tgt["RawQuery"].t
    v.prove("the-query-is-forwarded", v.eq(u["RawQuery"], SStr(z3.If(tq == "", q0.t, z3.If(q0.t == "", tq, z3.Concat(tq, z3.StringVal("&"), q0.t))))))
    v.expect_covers("found", "not found")
