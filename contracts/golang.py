"""Go functions under contract. gofront/go2py.go prints the functions of a Go
file as Python source on every run; the meaning of Go's strings, slices and
maps (with their bounds: a Go panic is an exception here) is given below."""
import hashlib
import os
import shutil
import subprocess

import z3

from pyvc.core import SRef, ref_sort
from pyvc.verify import *

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "dask-gateway-server/dask-gateway-proxy/"
FILES = {"go_router": "pkg/router/router.go", "go_main": "cmd/dask-gateway-proxy/main.go", "go_sni": "pkg/sni/sni.go"}
_TEXT = {}


def goenv():
    env = dict(os.environ)
    env["GO111MODULE"] = "off"
    env["GOFLAGS"] = ""
    env["GOTOOLCHAIN"] = "local"
    env.setdefault("HOME", "/tmp")
    if not env.get("GOCACHE"):
        env["GOCACHE"] = os.path.join(HERE, "build", "gocache")
    return env


def translator():
    src = os.path.join(HERE, "gofront", "go2py.go")
    with open(src, "rb") as f:
        h = hashlib.sha256(f.read()).hexdigest()[:16]
    out = os.path.join(HERE, "build", "go2py-" + h)
    if not os.path.exists(out):
        go = shutil.which("go") or "/usr/local/bin/go"
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = f"{out}.{os.getpid()}"
        subprocess.run([go, "build", "-o", tmp, src], env=goenv(), check=True, capture_output=True, timeout=240)
        os.replace(tmp, out)
    return out


def source(base, name):
    key = (base, name)
    if key not in _TEXT:
        p = os.path.join(base, BASE, FILES.get(name, "no such file"))
        try:
            r = subprocess.run([translator(), p], capture_output=True, timeout=60)
            _TEXT[key] = r.stdout.decode() if r.returncode == 0 else None
        except (OSError, subprocess.SubprocessError):
            _TEXT[key] = None
    return _TEXT[key]


ROUTER = Fake("GoRouter")
BRANCHES = Fake("GoBranches")
URL = Fake("GoURL")
SLICE = Fake("GoSlice")
MAP, SEQ, BYTES = Fake("GoMap"), Fake("GoSeq"), Fake("GoBytes")
PATH = ref_sort("GoPath")
URLS = ref_sort("GoURL")
B, I, S = z3.BoolSort(), z3.IntSort(), z3.StringSort()
ROOT, NIL = z3.Const("path_root", PATH), z3.Const("path_nil", PATH)
NOURL = z3.Const("url_nil", URLS)
_snoc = z3.Function("path_child", PATH, S, PATH)
_init = z3.Function("path_parent", PATH, PATH)
_depth = z3.Function("path_depth", PATH, I)
_last = z3.Function("path_part", PATH, S)


class Node(SRef):
    """A *Router: the node at a path of the tree, nil, or one just created
    (t is None) and not yet put into the tree."""

    url = None

    def __repr__(self):
        return f"Node({self.t})"


class Slice(SRef):
    """[]record{part string, node *Router}"""

    def __init__(self, n, part, node):
        SRef.__init__(self, SLICE, z3.Const("a_slice", ref_sort("GoSlice")))
        self.n, self.part, self.node = n, part, node


class GoV:
    """Go's built-in operations."""

    def __init__(self, v):
        self.v, self.it, self.ctx = v, v.it, v.ctx
        it = v.it
        for k in ("index__", "index2__", "slice__", "append__", "delete__", "make__", "new__", "struct__", "zero__", "unsupported__", "items__", "values__"):
            it.lib["golang." + k] = lambda it2, a, kw, f=getattr(self, k): f([it.resolve(x) for x in a], kw)
        for k in ("addr__", "deref__", "copy__", "int__", "max__", "min__", "panic__", "string__"):
            it.lib["golang." + k] = lambda it2, a, kw, k=k: it.unsupported("Go's " + k)
        it.lib["golang.typed__"] = self.typed
        it.lib["golang.send__"] = lambda it2, a, kw: self.send(it.resolve(a[0]), it.resolve(a[1]))
        it.lib["golang.recv__"] = lambda it2, a, kw: self.recv(it.resolve(a[0]))
        it.lib["golang.int__"] = lambda it2, a, kw: it.resolve(a[0])
        it.lib["golang.go__"] = lambda it2, a, kw: self.go(it.resolve(a[0]), [it.resolve(x) for x in a[1:]])
        it.lib["golang.bit__"] = lambda it2, a, kw: self.bit(it.resolve(a[0]), self.i(a[1]), self.i(a[2]))
        it.lib["golib_errors.New"] = lambda it2, a, kw: v.fake("error", Error=v.native(lambda i, x, k: "error"))
        it.attr_hooks["setitem:GoMap"] = self.map_set
        it.attr_hooks["eq:GoMap"] = lambda it2, o, c: o is c
        it.attr_hooks["len:GoSeq"] = lambda it2, o: SInt(o.n)
        it.attr_hooks["len:GoBytes"] = lambda it2, o: SInt(z3.Length(o.data))
        it.attr_hooks["eq:GoBytes"] = lambda it2, o, c: z3.Length(o.data) == 0 if c is None else it.unsupported("comparison of slices")
        it.attr_hooks["eq:GoSeq"] = lambda it2, o, c: o is c
        it.lib["golang.addr__"] = lambda it2, a, kw: it.resolve(a[0])
        it.lib["golib_strings.IndexRune"] = self.index_rune
        it.lib["golib_strings.IndexByte"] = self.index_rune
        it.lib["golib_strings.Index"] = self.index_rune
        it.lib["golib_strings.HasPrefix"] = lambda it2, a, kw: SBool(z3.PrefixOf(self.s(a[1]), self.s(a[0])))
        it.lib["golib_strings.HasSuffix"] = lambda it2, a, kw: SBool(z3.SuffixOf(self.s(a[1]), self.s(a[0])))
        it.lib["golib_strings.TrimPrefix"] = self.trim_prefix
        it.lib["golib_strings.TrimSuffix"] = self.trim_suffix

    def s(self, x):
        return self.it.sterm(self.it.resolve(x))

    def i(self, x):
        x = self.it.resolve(x)
        return z3.IntVal(x) if isinstance(x, int) else x.t

    def panic(self, why):
        self.it.raise_(IndexError, why)

    def need(self, t, why):
        if not self.ctx.branch(t):
            self.panic(why)

    def is_str(self, x):
        return isinstance(x, (str, SStr))

    def index__(self, a, kw):
        o, k = a
        if self.is_str(o):
            s, k = self.s(o), self.i(k)
            self.need(z3.And(k >= 0, k < z3.Length(s)), "index out of range")
            return SStr(z3.SubString(s, k, 1))
        if isinstance(o, Bytes):
            s, k = o.data, self.i(k)
            self.need(z3.And(k >= 0, k < z3.Length(s)), "index out of range")
            c = z3.StrToCode(z3.SubString(s, k, 1))
            self.v.assume(z3.And(c >= 0, c < 256))
            return SInt(c)
        if isinstance(o, Slice):
            k = self.i(k)
            self.need(z3.And(k >= 0, k < o.n), "index out of range")
            return self.record(SStr(o.part(k)), Node(ROUTER, o.node(k)))
        if isinstance(o, Map):
            self.reading(o)
            return SStr(o.get(self.s(k)))
        if isinstance(o, Seq):
            k = self.i(k)
            self.need(z3.And(k >= 0, k < o.n), "index out of range")
            return o.item(k)
        return self.map_get(o, k)[0]

    def record(self, part, node):
        return self.v.fake("record", part=part, node=node)

    def index2__(self, a, kw):
        if isinstance(a[0], Map):
            self.reading(a[0])
            x = a[0].get(self.s(a[1]))
            there = self.ctx.fresh("there", B)  # an empty value may be stored
            self.v.assume(z3.Implies(x != "", there))
            return (SStr(x), SBool(there))
        return self.map_get(a[0], a[1])

    def map_get(self, o, k):
        self.it.unsupported(f"index of {o!r}")

    def slice__(self, a, kw):
        o, lo, hi = a
        if o is None:
            o = Bytes(z3.StringVal(""))
        if not self.is_str(o) and not isinstance(o, Bytes):
            self.it.unsupported(f"slice of {o!r}")
        s = o.data if isinstance(o, Bytes) else self.s(o)
        n = z3.Length(s)
        lo = z3.IntVal(0) if lo is None else self.i(lo)
        hi = n if hi is None else self.i(hi)
        self.need(z3.And(lo >= 0, lo <= hi, hi <= n), "slice bounds out of range")
        r = z3.SubString(s, lo, hi - lo)
        return Bytes(r) if isinstance(o, Bytes) else SStr(r)

    # positions at which the contract asks what IndexRune has seen
    watch = ()

    def index_rune(self, it2, a, kw):
        """The first occurrence of one byte: it is there, and not before (at
        the positions watched)."""
        s, c = self.s(a[0]), self.it.resolve(a[1])
        if not (isinstance(c, str) and len(c) == 1):
            return SInt(z3.IndexOf(s, self.s(c), 0))
        base, lo, n = s, z3.IntVal(0), z3.Length(s)
        if s.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
            base, lo = s.arg(0), s.arg(1)
        r = self.ctx.fresh("index", I)
        self.v.assume(z3.Or(r == -1, z3.And(r >= 0, r < n, z3.SubString(base, lo + r, 1) == c)))
        end = lo + z3.If(r == -1, n, r)
        for x in self.watch:
            self.v.assume(z3.Implies(z3.And(lo <= x, x < end), z3.SubString(base, x, 1) != c))
        return SInt(r)

    def trim_prefix(self, it2, a, kw):
        s, p = self.s(a[0]), self.s(a[1])
        n = z3.Length(p)
        return SStr(z3.If(z3.PrefixOf(p, s), z3.SubString(s, n, z3.Length(s) - n), s))

    def trim_suffix(self, it2, a, kw):
        s, p = self.s(a[0]), self.s(a[1])
        return SStr(z3.If(z3.SuffixOf(p, s), z3.SubString(s, 0, z3.Length(s) - z3.Length(p)), s))

    def zero__(self, a, kw):
        t = a[0]
        if t == "string":
            return ""
        if t in ("int", "int64", "uint8"):
            return 0
        if t == "bool":
            return False
        if t == "[]record":
            return Slice(z3.IntVal(0), lambda k: z3.StringVal(""), lambda k: NIL)
        if t.startswith(("*", "[]", "map[")) or t == "error":
            return None
        self.it.unsupported("zero value of " + t)

    def append__(self, a, kw):
        o, x = a
        if not isinstance(o, Slice):
            self.it.unsupported("append")
        if not (isinstance(x, Obj) and set(x.attrs) >= {"part", "node"}):
            self.it.unsupported("a record of another form")
        part, node = self.s(x.attrs["part"]), self.it.resolve(x.attrs["node"])
        if not isinstance(node, Node) or node.t is None:
            self.it.unsupported("a record of another form")
        n, p, q = o.n, o.part, o.node
        return Slice(n + 1, lambda k: z3.If(k == n, part, p(k)), lambda k: z3.If(k == n, node.t, q(k)))

    def map_set(self, it2, o, k, x):
        k, x, f = self.s(k), self.s(x), o.get
        self.changing(o)
        self.ctx.mut_attr(o, "get", lambda q: z3.If(q == k, x, f(q)))

    def changing(self, o):
        """A shared structure is about to be changed."""

    def typed(self, it2, a, kw):
        x = self.it.resolve(a[0])
        if x is None:
            self.panic("interface conversion: interface is nil")
        return x

    def send(self, ch, x):
        self.it.unsupported("channel")

    def recv(self, ch):
        self.it.unsupported("channel")

    def reading(self, o):
        """A shared structure is about to be read."""

    def go(self, f, args):
        self.it.unsupported("go statement")

    def bit(self, op, a, b):
        if op == "<<" and z3.is_int_value(b):
            return SInt(a * (1 << b.as_long()))
        if op == "|":
            r = self.ctx.fresh("bits", I)
            self.v.assume(z3.Implies(z3.And(b >= 0, b < 256, a % 256 == 0), r == a + b))
            return SInt(r)
        self.it.unsupported("Go's " + op)

    def delete__(self, a, kw):
        if isinstance(a[0], Map):
            k, f = self.s(a[1]), a[0].get
            self.changing(a[0])
            self.ctx.mut_attr(a[0], "get", lambda q: z3.If(q == k, z3.StringVal(""), f(q)))
            return None
        self.it.unsupported("delete")

    def make__(self, a, kw):
        if a[0] == "map[string]string":
            return Map(lambda q: z3.StringVal(""))
        self.it.unsupported("make " + str(a[0]))

    def new__(self, a, kw):
        self.it.unsupported("new " + str(a[0]))

    def struct__(self, a, kw):
        if a[0] == "record" and set(kw) == {"part", "node"}:
            return self.record(kw["part"], kw["node"])
        self.it.unsupported("struct " + str(a[0]))

    def items__(self, a, kw):
        self.it.unsupported("iteration")

    values__ = items__

    def unsupported__(self, a, kw):
        self.it.unsupported("Go: " + str(a[0])[:80])


class Tree(GoV):
    """The routing tree. Each node is in one place of it, so that a node is
    named by its path. has(q): there is a node at path q; url(q): its URL;
    nomap(q): its map of branches is nil. Well-formed: a node's parent is a
    node and has a map; where there is no node there is no URL, and none is at
    the path of a single empty part (no request or route names it)."""

    def __init__(self, v):
        GoV.__init__(self, v)
        it, ctx = v.it, v.ctx
        self.snaps = []
        self.havoc("t0")
        h = it.attr_hooks
        h["GoRouter.url"] = self.read_url
        h["GoRouter.branches"] = self.read_branches
        h["set:GoRouter.url"] = self.write_url
        h["set:GoRouter.branches"] = self.write_branches
        h["GoRouter.*"] = self.method
        h["eq:GoRouter"] = self.eq_node
        h["eq:GoURL"] = self.eq_url
        h["eq:GoBranches"] = self.eq_branches
        h["len:GoBranches"] = self.len_branches
        h["len:GoSlice"] = lambda it2, o: SInt(o.n)
        h["setitem:GoBranches"] = self.put
        it.lib["golib_net_url.URL"] = lambda it2, a, kw: it.unsupported("URL")

    # -- paths
    def child(self, p, s):
        t = _snoc(p, s)
        self.v.assume(z3.And(_init(t) == p, _last(t) == s, _depth(t) == _depth(p) + 1, t != ROOT, t != NIL))
        return t

    # -- state
    def havoc(self, name="t"):
        ctx = self.ctx
        f = lambda n, r: ctx.fresh_fn(f"{name}_{n}", PATH, r)
        self.set(f("has", B), f("url", URLS), f("nomap", B))
        self.snap()

    def set(self, has, url, nomap):
        for k, x in (("has", has), ("url", url), ("nomap", nomap)):
            self.ctx.mut_attr(self, k, x)

    def snap(self):
        """The tree is well-formed now (everywhere)."""
        self.ctx.mut_attr(self, "snaps", [(self.has, self.url, self.nomap)])

    def wf_of(self, st, q):
        has, url, nomap = st
        return z3.And(
            has(ROOT), z3.Not(has(NIL)),
            z3.Implies(has(q), z3.Or(q == ROOT, z3.And(q == _snoc(_init(q), _last(q)), has(_init(q)), z3.Not(nomap(_init(q)))))),
            z3.Implies(z3.Not(has(q)), url(q) == NOURL),
            z3.Implies(q == _snoc(ROOT, z3.StringVal("")), url(q) == NOURL),
        )

    def wf(self, q):
        return self.wf_of((self.has, self.url, self.nomap), q)

    def known(self, q):
        """Use what well-formedness says of q."""
        for st in self.snaps:
            self.v.assume(self.wf_of(st, q))
        self.v.assume(z3.And(_snoc(ROOT, z3.StringVal("")) != ROOT, _init(_snoc(ROOT, z3.StringVal(""))) == ROOT, _last(_snoc(ROOT, z3.StringVal(""))) == ""))

    # -- nodes
    def at(self, o):
        """The path of a node that is in the tree."""
        if o.t is None:
            return None
        self.need(o.t != NIL, "nil pointer dereference")
        self.known(o.t)
        if not self.ctx.branch(self.has(o.t)):
            self.it.unsupported("a node that was removed from the tree")
        return o.t

    def read_url(self, it2, o, n):
        p = self.at(o)
        if p is None:
            return o.url if o.url is not None else SRef(URL, NOURL)
        return SRef(URL, self.url(p))

    def uterm(self, x):
        x = self.it.resolve(x)
        if x is None:
            return NOURL
        if isinstance(x, SRef) and x.cls is URL:
            return x.t
        self.it.unsupported("URL of another kind")

    def write_url(self, it2, o, x):
        t = self.uterm(x)
        p = self.at(o)
        if p is None:
            self.ctx.mut_attr(o, "url", SRef(URL, t))
            return
        u = self.url
        self.set(self.has, lambda q: z3.If(q == p, t, u(q)), self.nomap)

    def read_branches(self, it2, o, n):
        p = self.at(o)
        return NoBranches(o) if p is None else SRef(BRANCHES, p)

    def no_children(self, p, why):
        s = self.ctx.fresh("any_part", S)
        self.ctx.know("Str", s)
        c = self.child(p, s)
        self.known(c)
        if self.ctx.branch(self.has(c)):
            self.v.unreachable(why)
            raise Infeasible

    def write_branches(self, it2, o, x):
        p = self.at(o)
        if p is None:
            self.it.unsupported("branches of a new node")
        x = self.it.resolve(x)
        n = self.nomap
        if x is None or x == "newmap":
            # an empty map replaces the old one: nothing may be lost with it
            self.no_children(p, "no-route-is-lost-with-a-map")
            b = z3.BoolVal(x is None)
            self.set(self.has, self.url, lambda q: z3.If(q == p, b, n(q)))
            return
        self.it.unsupported("branches of another kind")

    def method(self, it2, o, name):
        c = self.v.cls("go_router.Router")
        m, _ = c.lookup(name)
        if m is None:
            self.it.unsupported(f"field {name} of a node")
        return BoundV(o, m)

    def eq_node(self, it2, o, c):
        if isinstance(c, Node):
            if o.t is None or c.t is None:
                return o is c
            return o.t == c.t
        if c is None:
            return False if o.t is None else o.t == NIL
        self.it.unsupported("comparison of a node")

    def eq_url(self, it2, o, c):
        return o.t == self.uterm(c)

    # -- maps of branches
    def eq_branches(self, it2, o, c):
        if c is not None:
            self.it.unsupported("comparison of maps")
        return True if isinstance(o, NoBranches) else self.nomap(o.t)

    def map_get(self, o, k):
        if isinstance(o, NoBranches):
            return (Node(ROUTER, NIL), False)
        if not (isinstance(o, SRef) and o.cls is BRANCHES):
            self.it.unsupported(f"index of {o!r}")
        c = self.child(o.t, self.s(k))
        self.known(c)
        h = self.has(c)
        return (Node(ROUTER, z3.If(h, c, NIL)), SBool(h))

    def len_branches(self, it2, o):
        if isinstance(o, NoBranches):
            return 0
        n = self.ctx.fresh("branches", I)
        has = self.has
        self.v.assume(n >= 0)
        s = self.ctx.fresh("some_part", S)
        c = self.child(o.t, s)
        self.known(c)
        self.v.assume(z3.Implies(n > 0, has(c)))
        self.v.assume(z3.Implies(self.nomap(o.t), n == 0))
        p = o.t
        # empty: nothing is below it
        self.ctx.forall(("Str",), lambda x: z3.Implies(n == 0, z3.Not(has(_snoc(p, x)))), "empty map")
        return SInt(n)

    def put(self, it2, o, k, x):
        x = self.it.resolve(x)
        if isinstance(o, NoBranches) or not isinstance(x, Node):
            self.it.unsupported("branch of another kind")
        p = o.t
        self.need(z3.Not(self.nomap(p)), "assignment to entry in nil map")
        if x.t is not None:
            self.it.unsupported("a node in two places")
        c = self.child(p, self.s(k))
        self.known(c)
        if self.ctx.branch(self.has(c)):
            # its subtree is replaced
            self.v.unreachable("no-route-is-lost-by-adding-one")
            raise Infeasible
        h, u, m = self.has, self.url, self.nomap
        w = NOURL if x.url is None else x.url.t
        self.set(lambda q: z3.Or(q == c, h(q)), lambda q: z3.If(q == c, w, u(q)), lambda q: z3.Or(q == c, m(q)))
        self.ctx.mut_attr(x, "t", c)

    def delete__(self, a, kw):
        o, k = a
        if isinstance(o, NoBranches):
            return None
        if not (isinstance(o, SRef) and o.cls is BRANCHES):
            self.it.unsupported("delete")
        c = self.child(o.t, self.s(k))
        self.known(c)
        h, u, m = self.has, self.url, self.nomap
        if not self.ctx.branch(h(c)):
            return None
        # only a node without a URL and without branches is removed: what is
        # below it would be lost
        self.v.prove("no-route-is-lost-by-removing-one", u(c) == NOURL)
        self.v.assume(u(c) == NOURL)
        self.no_children(c, "no-route-is-lost-by-removing-one")
        self.set(lambda q: z3.And(q != c, h(q)), u, m)
        return None

    def make__(self, a, kw):
        if a[0] == "map[string]*Router":
            return "newmap"
        self.it.unsupported("make " + str(a[0]))

    def new__(self, a, kw):
        if a[0] == "Router" and not kw:
            return Node(ROUTER, None)
        self.it.unsupported("new " + str(a[0]))


class Map(SRef):
    """map[string]string: the value at each key, "" where there is none."""

    def __init__(self, get):
        SRef.__init__(self, MAP, z3.Const("a_map", ref_sort("GoMap")))
        self.get = get


class Seq(SRef):
    """A slice of structs: n of them, the k-th given by item(k)."""

    def __init__(self, n, item):
        SRef.__init__(self, SEQ, z3.Const("a_seq", ref_sort("GoSeq")))
        self.n, self.item = n, item


class Bytes(SRef):
    """A []byte: a string whose characters are its bytes; nil and empty are
    one."""

    def __init__(self, t):
        SRef.__init__(self, BYTES, z3.Const("some_bytes", ref_sort("GoBytes")))
        self.data = t


class NoBranches(SRef):
    """The (nil) map of a node just created."""

    def __init__(self, node):
        SRef.__init__(self, BRANCHES, NIL)
        self.of = node
