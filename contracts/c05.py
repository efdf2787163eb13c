"""C05: cluster options, on the server and in the client."""
import ast
import math

import z3

from pyvc.verify import *
from . import dbfuncs
from .sqlmodel import MISSING

SO = "dask_gateway_server.options"
CO = "dask_gateway.options"
BK = "dask_gateway_server.backends.base.Backend"
STR = z3.StringSort()
A = ["float arithmetic treated as real arithmetic (infinities and NaN as separate cases); True and False count as integers, as in Python"]


def json_value(v, n):
    """Any JSON value."""
    return v.dyn(n, [
        ("null", None), ("bool", v.bool(n + "_b")), ("int", v.int(n + "_i")), ("float", v.real(n + "_f")), ("nan", float("nan")), ("inf", float("inf")),
        ("-inf", float("-inf")), ("string", v.str(n + "_s")), ("list", VList([])), ("object", v.pydict({"k": v.opaque(n + "_o")})),
    ])


def num(x):
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, (int, float)):
        return z3.RealVal(str(x))
    if isinstance(x, SBool):
        return z3.If(x.t, z3.RealVal(1), z3.RealVal(0))
    return z3.ToReal(x.t) if isinstance(x, SInt) else x.t


def isnum(x):
    return isinstance(x, (int, float, SInt, SReal, SBool))


def in_bounds(x, lo, hi):
    """z3 condition; x, lo, hi resolved."""
    if isinstance(x, float) and x != x:
        return z3.BoolVal(lo is None and hi is None)
    if isinstance(x, float) and math.isinf(x):
        return z3.BoolVal((lo is None or x > 0) and (hi is None or x < 0))
    cs = []
    if lo is not None:
        cs.append(num(x) >= num(lo))
    if hi is not None:
        cs.append(num(x) <= num(hi))
    return z3.And(cs) if cs else z3.BoolVal(True)


class Kind:
    """What a declared field of each type accepts."""

    def __init__(self, v, name, mod=SO):
        self.v, self.name, self.mod = v, name, mod
        v_ = v
        self.field = v.str("field")
        self.lo = self.hi = None
        self.kw = {}
        if name == "Integer":
            self.lo = v_.dyn("min", [("none", None), ("int", v_.int("lo"))])
            self.hi = v_.dyn("max", [("none", None), ("int", v_.int("hi"))])
        if name == "Float":
            self.lo = v_.dyn("min", [("none", None), ("float", v_.real("flo")), ("int", v_.int("lo"))])
            self.hi = v_.dyn("max", [("none", None), ("float", v_.real("fhi")), ("int", v_.int("hi"))])
        if name in ("Integer", "Float"):
            self.kw = {"min": self.lo, "max": self.hi}
        if name == "Select":
            self.k1, self.k2 = v.str("key1"), v.str("key2")
            self.v2 = v.opaque("value2")
            self.choices = VList([self.k1, (self.k2, self.v2)] if mod == SO else [self.k1, self.k2])

    def build(self, default):
        """The real constructor."""
        v = self.v
        kw = dict(self.kw)
        if self.name == "Select":
            if self.mod == SO:
                return v.attempt(lambda: v.it.call(v.cls(f"{self.mod}.Select"), [self.field, self.choices], {"default": default}))
            return v.attempt(lambda: v.it.call(v.cls(f"{self.mod}.Select"), [self.field, default], {"options": self.choices}))
        return v.attempt(lambda: v.it.call(v.cls(f"{self.mod}.{self.name}"), [self.field], dict(kw, default=default)))

    def accepts(self, x):
        it = self.v.it
        x = it.resolve(x)
        n = self.name
        if n == "String":
            return z3.BoolVal(isinstance(x, (str, SStr)))
        if n == "Bool":
            return z3.BoolVal(isinstance(x, (bool, SBool)))
        if n == "Mapping":
            return z3.BoolVal(isinstance(x, VDict))
        if n == "Integer":
            if not isinstance(x, (int, SInt, SBool)):
                return z3.BoolVal(False)
            return in_bounds(x, it.resolve(self.lo), it.resolve(self.hi))
        if n == "Float":
            if not isnum(x):
                return z3.BoolVal(False)
            return in_bounds(x, it.resolve(self.lo), it.resolve(self.hi))
        if not isinstance(x, SStr):
            return z3.BoolVal(False)
        return z3.Or(x.t == self.k1.t, x.t == self.k2.t)

    def same(self, got, x):
        """The accepted value is x itself (normalised to float)."""
        v, it = self.v, self.v.it
        got, x = it.resolve(got), it.resolve(x)
        if self.name == "Mapping":
            return z3.BoolVal(got is x)
        if isinstance(x, float):
            return z3.BoolVal(isinstance(got, float) and (got == x or (got != got and x != x)))
        if self.name == "Float":
            return z3.BoolVal(False) if not isinstance(got, (float, SReal)) else num(got) == num(x)
        return v.eq(got, x)


KINDS = ["String", "Bool", "Integer", "Float", "Select", "Mapping"]


def message(exc):
    a = exc.attrs.get("args") if isinstance(exc, Obj) else None
    if isinstance(a, VList):
        a = a.items
    return a[0] if a else None


def verdict(v, k, out, x, what=""):
    ok = k.accepts(x)
    if out.ok:
        v.prove(what + "accepts-only-valid-values", ok)
    else:
        v.prove(what + "accepts-every-valid-value", z3.Not(ok))


def field_contracts(side, mod):
    for name in KINDS:
        def validate(v, name=name):
            it = v.it
            k = Kind(v, name, mod)
            x = json_value(v, "x")
            v.case(lambda ev: {"kind": "field", "type": name, "side": side})
            default = json_value(v, "d")
            o = k.build(default)
            it.resolve(default)
            if not o.ok:
                v.cover("bad-default")
                if name not in ("Integer", "Float"):
                    nodef = it.resolve(default) is None and side == "server" and name in ("Mapping", "Select")
                    v.prove("valid-declarations-accepted", z3.Not(k.accepts(default)) if not nodef else z3.BoolVal(False))
                else:
                    v.prove("valid-declarations-accepted", z3.Or(z3.Not(k.accepts(default)), bounds_clash(it, k)))
                return
            f = o.val
            d = it.resolve(default)
            if side == "server":
                got = it.resolve(it.call(it.getattr(f, "get_default"), []))
            else:
                got = it.resolve(it.call(it.getattr(f, "get"), []))
            if d is None and name == "Mapping" and side == "server":
                v.prove("default-is-valid", z3.BoolVal(isinstance(got, VDict) and not got.d and not got.parts))
            elif d is None and name == "Select" and side == "server":
                v.prove("default-is-valid", v.eq(got, k.k1))
            else:
                v.prove("default-is-valid", k.accepts(got))
                if name == "Mapping":
                    v.prove("default-as-declared", v.eq(got, d))
                elif name == "Float" and side == "server":
                    pass
                else:
                    v.prove("default-as-declared", k.same(got, d))
            if side == "server" and name == "Mapping":
                v.prove("default-cannot-be-modified", z3.BoolVal(got is not it.resolve(f.attrs["default"])))
            out = v.run(it.getattr(f, "validate"), x)
            verdict(v, k, out, x)
            if out.ok:
                v.cover("accepted")
                v.prove("value-as-sent", k.same(out.val, x))
            else:
                v.cover("rejected")
                m = message(out.val)
                v.prove("error-names-the-option", z3.BoolVal(False) if not isinstance(m, SStr) else z3.Contains(m.t, k.field.t))
            v.expect_covers("accepted", "rejected")

        contract("C05", f"{mod}.{name}.validate", f"{side}_{name}", assumes=A)(validate)


@contract("C05", f"{SO}.Mapping.get_default", "default_is_a_copy", assumes=["copy.deepcopy"])
def default_is_a_copy(v):
    """Whatever a handler does with a default it was given, nested or not, the
    declared default stays what it was."""
    it = v.it
    x = v.opaque("x")
    inner, lst = v.pydict({"y": x}), VList([x])
    deep = v.pydict({"z": lst})
    d = v.pydict({"a": inner, "b": deep, "c": x})
    f = v.run(it.get_class(f"{SO}.Mapping"), v.str("field"), default=d)
    if not v.ok_or(f, "declared"):
        return
    out = v.run(f"{SO}.Mapping.get_default", f.val)
    if not v.ok_or(out, "returns"):
        return
    got = it.resolve(out.val)
    at = lambda o, k: it.resolve(it.getitem(o, k))
    v.prove("default-as-declared", v.eq(got, d))
    v.prove("default-cannot-be-modified", z3.BoolVal(got is not d and at(got, "a") is not inner and at(got, "b") is not deep and at(at(got, "b"), "z") is not lst))


def bounds_clash(it, k):
    """A minimum above the maximum."""
    lo, hi = it.resolve(k.lo), it.resolve(k.hi)
    return num(lo) > num(hi) if lo is not None and hi is not None else z3.BoolVal(False)


field_contracts("server", SO)
field_contracts("client", CO)


# ------------------------------------------------------------ sets of options

FS = ref_sort("Field")
VS = ref_sort("Val")


class Declared:
    """Any list of declared fields with different names, any request."""

    def __init__(self, v):
        self.v, it, ctx = v, v.it, v.ctx
        F = Fake("Field")
        self.fcls = F
        self.isF = z3.Function("declared", FS, z3.BoolSort())
        self.fname = z3.Function("field_name", FS, STR)
        self.target = z3.Function("field_target", FS, STR)
        self.byname = z3.Function("field_named", STR, FS)
        self.default = z3.Function("field_default", FS, VS)
        self.valid = z3.Function("field_accepts", FS, VS, z3.BoolSort())
        self.norm = z3.Function("field_value", FS, VS, VS)
        self.trans = z3.Function("field_transformed", FS, VS, VS)
        self.sent = z3.Function("option_sent", STR, z3.BoolSort())
        self.value = z3.Function("option_value", STR, VS)
        ctx.forall(("Field",), lambda x: z3.Implies(self.isF(x), self.byname(self.fname(x)) == x), "names differ")
        ctx.state["inverse"] = {"field_name": self.byname}
        S = lambda t: SOpaque("value", t)
        h = it.attr_hooks
        h["Field.field"] = lambda it, o, n: SStr(self.fname(o.t))
        h["Field.target"] = lambda it, o, n: SStr(self.target(o.t))
        h["Field.label"] = lambda it, o, n: SStr(z3.Function("field_label", FS, STR)(o.t))
        h["Field.default"] = lambda it, o, n: S(self.default(o.t))
        h["Field.get_default"] = lambda it, o, n: Native("get_default", lambda it, a, k: S(self.default(o.t)))

        def validate(it, o, n):
            def f(it, a, k):
                t = it.resolve(a[0]).t
                if not ctx.branch(self.valid(o.t, t)):
                    it.raise_(ValueError, SStr(z3.Concat(self.fname(o.t), z3.StringVal(" is invalid"))))
                return S(self.norm(o.t, t))

            return Native("validate", f)

        h["Field.validate"] = validate
        h["Field.transform"] = lambda it, o, n: Native("transform", lambda it, a, k: S(self.trans(o.t, it.resolve(a[0]).t)))
        self.fields = VList([Part(("Field",), lambda x: self.isF(x), lambda x: SRef(F, x))])
        self.request = VDict()
        self.request.parts.append(Part(("Str",), lambda s: self.sent(s), lambda s: (SStr(s), S(self.value(s)))))
        self.o = v.obj(SO + ".Options", fields=self.fields, _handler=None)
        v.case(lambda ev: {"kind": "options"})

    def wanted(self, x):
        """The value the field is given: the one sent, or its default."""
        n = self.fname(x)
        return z3.If(self.sent(n), self.value(n), self.default(x))


def entry(v, d, key, clause):
    try:
        return v.it.resolve(v.it.getitem(d, SStr(key)))
    except PyRaise:
        v.unreachable(clause)
        raise Infeasible


@contract("C05", SO + ".Options.parse_options", assumes=["fields have different names; Field.validate meets its contract"])
def parse(v):
    it, ctx = v.it, v.ctx
    w = Declared(v)
    req = v.dyn("request", [("object", w.request), ("list", VList([])), ("null", None), ("string", "x")])
    it.resolve(req)
    out = v.run(SO + ".Options.parse_options", w.o, req)
    s = ctx.fresh("any_option", STR)
    ctx.know("Str", s)
    x = ctx.fresh("any_field", FS)
    ctx.know("Field", x)
    if it.resolve(req) is not w.request:
        v.prove("only-objects-accepted", z3.BoolVal(out.kind == "raise"))
        return
    ok = w.valid(x, w.wanted(x))
    if out.ok:
        v.cover("accepted")
        v.prove("unknown-options-rejected", z3.Implies(w.sent(s), z3.And(w.isF(w.byname(s)), w.fname(w.byname(s)) == s)))
        v.prove("invalid-values-rejected", z3.Implies(w.isF(x), ok))
        d = it.resolve(out.val)
        r = it.contains(d, SStr(w.fname(x)))
        v.assume(w.isF(x))
        v.prove("every-option-has-a-value", r)
        got = entry(v, d, w.fname(x), "every-option-has-a-value")
        v.prove("sent-or-default-value", got.t == w.norm(x, w.wanted(x)))
    else:
        v.cover("rejected")
        m = message(out.val)
        # some reason: an unknown option or an invalid value
        i = z3.Const("bad_field", FS)
        k = z3.Const("bad_option", STR)
        unknown = z3.Exists([k], z3.And(w.sent(k), z3.Not(z3.And(w.isF(w.byname(k)), w.fname(w.byname(k)) == k))))
        v.prove("valid-requests-accepted", z3.Or(unknown, z3.Exists([i], z3.And(w.isF(i), z3.Not(w.valid(i, w.wanted(i)))))))
    v.expect_covers("accepted", "rejected")


@contract("C05", SO + ".Options.transform_options", assumes=["targets differ"])
def transform(v):
    it, ctx = v.it, v.ctx
    w = Declared(v)
    inv = z3.Function("field_targeting", STR, FS)
    ctx.state["inverse"]["field_target"] = inv
    ctx.forall(("Field",), lambda x: z3.Implies(w.isF(x), inv(w.target(x)) == x), "targets differ")
    out = v.run(SO + ".Options.transform_options", w.o, w.request)
    if not v.ok_or(out, "no-exception"):
        return
    x = ctx.fresh("any_field", FS)
    ctx.know("Field", x)
    v.assume(w.isF(x))
    d = it.resolve(out.val)
    v.prove("every-target-set", it.contains(d, SStr(w.target(x))))
    got = entry(v, d, w.target(x), "every-target-set")
    v.prove("transformed-value", got.t == w.trans(x, w.wanted(x)))
    s = ctx.fresh("any_key", STR)
    ctx.know("Str", s)
    v.prove("nothing-else", z3.Implies(v.term(it.contains(d, SStr(s))), z3.And(w.isF(inv(s)), w.target(inv(s)) == s)))


@contract("C05", SO + ".Options.get_configuration", assumes=["inspect.signature reports the handler's parameters"])
def configuration(v):
    it, ctx = v.it, v.ctx
    w = Declared(v)
    inv = z3.Function("field_targeting", STR, FS)
    ctx.forall(("Field",), lambda x: z3.Implies(w.isF(x), inv(w.target(x)) == x), "targets differ")
    ctx.state["inverse"]["field_target"] = inv
    user = v.opaque("user")
    res = v.opaque("handler_result")
    seen = []
    shape = v.choose("no handler", "options", "options, user", "*args", "**kwargs")
    POS, VARP = "positional", "*"
    it.lib["inspect.Parameter.VAR_POSITIONAL"] = VARP
    P = lambda kind: v.fake("Parameter", kind=kind)
    sig = {"options": [POS], "options, user": [POS, POS], "*args": [VARP], "**kwargs": [POS, POS, "**"]}.get(shape)
    it.lib["inspect.signature"] = lambda it, a, k: v.fake("Signature", parameters=v.pydict({f"p{i}": P(x) for i, x in enumerate(sig)}))

    def handler(it, a, k):
        if shape == "options":
            if len(a) != 1 or k:
                it.raise_(TypeError, "takes 1 positional argument")
        elif len(a) != 2 or k:
            it.raise_(TypeError, "missing the user")
        seen.append(a)
        return res

    h = Native("handler", handler)
    o = it.call(v.cls(SO + ".Options"), [], {"handler": None if shape == "no handler" else h})
    o.attrs["fields"] = w.fields
    out = v.run(SO + ".Options.get_configuration", o, w.request, user)
    if not v.ok_or(out, "no-exception"):
        return
    x = ctx.fresh("any_field", FS)
    ctx.know("Field", x)
    v.assume(w.isF(x))
    want = w.trans(x, w.wanted(x))
    if shape == "no handler":
        d = it.resolve(out.val)
        v.prove("options-are-the-configuration", entry(v, d, w.target(x), "options-are-the-configuration").t == want)
        return
    v.prove("handler-decides-the-configuration", z3.BoolVal(it.resolve(out.val) is it.resolve(res) and len(seen) == 1))
    if len(seen) != 1:
        return
    if len(seen[0]) > 1:
        v.prove("handler-gets-the-user", z3.BoolVal(it.resolve(seen[0][1]) is it.resolve(user)))
    given = seen[0][0]
    key = SStr(w.target(x))
    by_item = v.attempt(lambda: it.getitem(given, key))
    v.prove("handler-gets-the-values", z3.BoolVal(False) if not by_item.ok else it.resolve(by_item.val).t == want)
    cont = v.attempt(lambda: it.call(it.getattr(given, "__getattr__"), [key]))
    v.prove("handler-gets-the-values-as-attributes", z3.BoolVal(False) if not cont.ok else it.resolve(cont.val).t == want)


@contract("C05", BK + ".process_cluster_options", assumes=["Options.parse_options/get_configuration meet their contracts", "cluster_config_class rejects or stores what it is given (limits: C04)"])
def process(v):
    it, ctx = v.it, v.ctx
    PE = it.get_class("dask_gateway_server.backends.base.PublicException")
    user, req, opts = v.opaque("user"), v.opaque("request"), v.opaque("parsed")
    seen = {"parse": [], "conf": [], "cfg": []}
    over = {"worker_cores": v.opaque("worker_cores"), "image": v.opaque("image")}
    cfg = v.opaque("config")

    def fail(what, val):
        r = v.choose("ok", "rejected", "cancelled") if what == "parse" else v.choose("ok", "rejected")
        if r == "rejected":
            seen["failed"] = what
            it.raise_(ValueError, SStr(z3.String("why_" + what)))
        if r == "cancelled":
            import asyncio

            seen["failed"] = "cancelled"
            it.raise_(asyncio.CancelledError)
        return val

    def parse(it, a, k):
        seen["parse"].append(it.resolve(a[0]))
        return fail("parse", opts)

    def conf(it, a, k):
        seen["conf"].append([it.resolve(x) for x in a])
        return fail("conf", v.pydict(over))

    def cfgclass(it, a, k):
        seen["cfg"].append((list(a), dict(k)))
        return fail("cfg", cfg)

    O = v.fake("Options", parse_options=v.native(parse), get_configuration=v.native(conf))
    how = v.choose("options", "function", "async function", "broken function")
    who = []

    def fn(it, a, k):
        who.append(it.resolve(a[0]))
        if how == "broken function":
            seen["failed"] = "fn"
            it.raise_(RuntimeError, "no options")
        return O

    co = O if how == "options" else v.afn(fn) if how == "async function" else Native("cluster_options", fn)
    b = v.obj("dask_gateway_server.backends.base.Backend", cluster_options=co, cluster_config_class=Native("cfgclass", cfgclass))
    v.case(lambda ev: {"kind": "options"})
    out = v.run(BK + ".process_cluster_options", b, user, req)
    if how != "options":
        v.prove("options-of-that-user", z3.BoolVal(who == [it.resolve(user)]))
    f = seen.get("failed")
    if f == "cancelled":
        v.prove("cancellation-passes", z3.BoolVal(out.kind == "raise" and out.exc_name != "PublicException"))
        return
    if f:
        v.cover("rejected")
        v.prove("invalid-requests-refused", z3.BoolVal(out.kind == "raise" and isinstance(out.val.cls, ClassInfo) and out.val.cls.issub(PE)))
        if out.kind == "raise" and f != "fn":
            m = message(out.val)
            v.prove("refusal-carries-the-reason", z3.BoolVal(False) if m is None else v.eq(m, SStr(z3.String("why_" + f))))
        return
    if not v.ok_or(out, "valid-requests-accepted"):
        return
    v.cover("accepted")
    r = it.resolve(out.val)
    r = r if isinstance(r, tuple) else tuple(r.items)
    v.prove("request-is-validated", z3.BoolVal(seen["parse"] == [it.resolve(req)]))
    v.prove("validated-values-configure", z3.BoolVal(seen["conf"] == [[it.resolve(opts), it.resolve(user)]]))
    ok = len(seen["cfg"]) == 1 and {k for k in seen["cfg"][0][1]} == {"parent", *over}
    v.prove("configuration-is-the-handlers", z3.BoolVal(ok and all(it.resolve(seen["cfg"][0][1][k]) is it.resolve(x) for k, x in over.items()) and seen["cfg"][0][1]["parent"] is b))
    v.prove("returns-validated-options-and-configuration", z3.BoolVal(it.resolve(r[0]) is it.resolve(opts) and it.resolve(r[1]) is it.resolve(cfg)))
    v.expect_covers("accepted", "rejected")


# ------------------------------------------------------------------ the client


def run_decorators(v, module):
    """Executes the class decorators of a module (they register field types)."""
    from pyvc.interp import Env

    m = v.it.repo.load(module)
    for n in m.tree.body:
        if isinstance(n, ast.ClassDef):
            for d in n.decorator_list:
                v.it.call(v.it.ev(d, Env(None, m)), [v.cls(f"{module}.{n.name}")])


def client_field(name):
    def f(v):
        """Server declaration -> JSON -> client field: same bounds; assignments
        that are not valid raise and change nothing."""
        it = v.it
        k = Kind(v, name)
        run_decorators(v, CO)
        it.lib["yaml.safe_dump"] = lambda it, a, k: v.str("yaml")
        v.case(lambda ev: {"kind": "field", "type": name, "side": "client"})
        d0 = {"String": v.str("d"), "Bool": v.bool("d"), "Integer": v.int("d"), "Float": v.real("d"), "Select": k.__dict__.get("k1"), "Mapping": v.pydict({})}[name]
        s = k.build(d0)
        if not s.ok:
            return
        spec = v.attempt(lambda: it.call(it.getattr(s.val, "json_spec"), []))
        if not v.ok_or(spec, "specification-exists"):
            return
        opts = v.attempt(lambda: it.call(it.getattr(v.cls(CO + ".Options"), "_from_spec"), [VList([spec.val])]))
        if not v.ok_or(opts, "client-understands-the-specification"):
            return
        o = opts.val
        before = v.attempt(lambda: it.getitem(o, k.field))
        if not v.ok_or(before, "declared-options-exist"):
            return
        v.prove("default-is-the-declared-one", k.same(before.val, d0) if name != "Mapping" else z3.BoolVal(isinstance(it.resolve(before.val), VDict) and not it.resolve(before.val).d))
        x = json_value(v, "x")
        key = v.dyn("key", [("declared", k.field), ("other", v.str("other"))])
        how = v.choose("item", "attribute")
        if how == "item":
            r = v.attempt(lambda: it.call(it.getattr(o, "__setitem__"), [key, x]))
        else:
            r = v.attempt(lambda: it.call(it.getattr(o, "__setattr__"), [key, x]))
        kk = it.resolve(key)
        if kk is not k.field:
            v.assume(kk.t != k.field.t)
            v.prove("undeclared-options-rejected", z3.BoolVal(r.kind == "raise"))
            return
        verdict(v, k, r, x, "client-")
        after = v.attempt(lambda: it.getitem(o, k.field))
        if not v.ok_or(after, "declared-options-exist"):
            return
        if r.ok:
            v.prove("value-as-set", k.same(after.val, x))
        else:
            v.prove("rejected-values-change-nothing", k.same(after.val, before.val) if name != "Mapping" else z3.BoolVal(it.resolve(after.val) is it.resolve(before.val)))

    contract("C05", f"{CO}.{name}", f"roundtrip_{name}", assumes=A + ["JSON preserves strings, booleans, numbers, lists and objects"])(f)


for _n in KINDS:
    client_field(_n)


dbfuncs.register("C05", ["start_cluster"])
