"""Composite interpreter values, codecs (field types), stores and heap."""
import z3

from .core import (
    Ctx,
    Dyn,
    SBool,
    SBytes,
    SEnum,
    SInt,
    SOpaque,
    SOpt,
    SReal,
    SRef,
    SStr,
    Sym,
    Unsupported,
    ref_sort,
    simp,
)


class V:
    """Base of composite, identity-carrying values."""

    level = 0
    tmp = False


class VList(V):
    def __init__(self, items=(), level=0):
        self.items = list(items)
        self.level = level

    def __repr__(self):
        return f"VList({self.items})"


class VSet(V):
    def __init__(self, items=(), level=0):
        self.items = list(items)
        self.level = level

    def __repr__(self):
        return f"VSet({self.items})"


class VDict(V):
    def __init__(self, level=0):
        self.d = {}  # hk -> (k, v)
        self.parts = []  # generic entries: Part with val -> (k, v)
        self.level = level
        self.default = None  # factory for defaultdict
        self.frozen = False

    def __repr__(self):
        return f"VDict({[(k, v) for k, v in self.d.values()]},{self.parts})"


class Part(V):
    """Generic elements: one value val(xs) for each tuple xs of the given
    sorts with guard(xs)."""

    def __init__(self, sorts, guard, val, origin=None):
        self.sorts = tuple(sorts)
        self.guard = guard
        self.val = val
        self.origin = origin

    def __repr__(self):
        return f"Part({self.sorts})"


class SSeq(Sym):
    """Sequence of symbolic length: n, at(i)."""

    origin = None

    def __init__(self, n, at, kind="list"):
        self.n = n
        self.at = at
        self.kind = kind


class SSet(Sym):
    """Symbolic set over values given by membership predicate on terms."""

    def __init__(self, name, mem, card=None, wrap=None, sort=None):
        self.name = name
        self.mem = mem  # value -> z3 Bool
        self.card = card
        self.wrap = wrap
        self.sort = sort


class Obj(V):
    def __init__(self, cls, attrs=None, level=0):
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.level = level

    def __repr__(self):
        return f"<{getattr(self.cls, 'name', self.cls)}>"


class EnumMember:
    def __init__(self, cls, name, value):
        self.cls = cls
        self.name = name
        self.value = value

    def __repr__(self):
        return f"{self.cls.name}.{self.name}"


class ClassInfo:
    def __init__(self, name, module, node):
        self.name = name
        self.module = module
        self.node = node
        self.bases = []  # ClassInfo | python type | ExtV
        self.attrs = {}
        self.enum = None  # name -> EnumMember
        self.qual = f"{module.name}.{name}"

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassInfo):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def pybases(self):
        out = []
        for c in self.mro():
            for b in c.bases:
                if isinstance(b, type):
                    out.append(b)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name], c
        return None, None

    def issub(self, other):
        if isinstance(other, ClassInfo):
            return other in self.mro()
        if isinstance(other, type):
            return any(issubclass(b, other) for b in self.pybases())
        return False

    def __repr__(self):
        return f"<class {self.qual}>"


class FuncV:
    def __init__(self, node, module, env, cls=None, name=None, is_async=False):
        self.node = node
        self.module = module
        self.env = env
        self.cls = cls
        self.name = name or getattr(node, "name", "<lambda>")
        self.is_async = is_async
        self.defaults = None
        self.kwdefaults = None
        self.kind = None  # staticmethod | classmethod | property

    @property
    def qual(self):
        c = f"{self.cls.name}." if self.cls is not None else ""
        return f"{self.module.name}.{c}{self.name}"

    def __repr__(self):
        return f"<func {self.qual}>"


class BoundV:
    def __init__(self, self_, func):
        self.self_ = self_
        self.func = func

    def __repr__(self):
        return f"<bound {self.func}>"


class PropV:
    def __init__(self, getter, setter=None):
        self.getter = getter
        self.setter = setter


class Native:
    """Model function implemented by the verifier: fn(it, args, kwargs)."""

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return f"<native {self.name}>"


class ExtV:
    """Name from a module outside the repository."""

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return f"<ext {self.path}>"


class ModuleV:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<module {self.name}>"


class Coro:
    def __init__(self, thunk, name=""):
        self.thunk = thunk
        self.name = name


class GenV:
    def __init__(self, thunk, is_async=False):
        self.thunk = thunk
        self.is_async = is_async


class SuperV:
    def __init__(self, cls, self_):
        self.cls = cls
        self.self_ = self_


class Partial:
    def __init__(self, fn, args, kwargs):
        self.fn = fn
        self.args = args
        self.kwargs = kwargs


POISON = object()


# ------------------------------------------------------------- field types


class Ty:
    """Codec between interpreter values and tuples of z3 terms."""

    def sorts(self):
        raise NotImplementedError

    def dec(self, comps):
        raise NotImplementedError

    def enc(self, v, ctx):
        raise NotImplementedError

    def domain(self, comps):
        return []


class TInt(Ty):
    def __init__(self, lo=None, hi=None):
        self.lo, self.hi = lo, hi

    def sorts(self):
        return [z3.IntSort()]

    def dec(self, c):
        return lift(SInt(c[0]))

    def enc(self, v, ctx):
        if isinstance(v, bool):
            return [z3.IntVal(int(v))]
        if isinstance(v, int):
            return [z3.IntVal(v)]
        if isinstance(v, SInt):
            return [v.t]
        if isinstance(v, SBool):
            return [z3.If(v.t, 1, 0)]
        raise Unsupported(f"TInt.enc {v!r}")

    def domain(self, c):
        out = []
        if self.lo is not None:
            out.append(c[0] >= self.lo)
        if self.hi is not None:
            out.append(c[0] <= self.hi)
        return out


class TReal(Ty):
    def sorts(self):
        return [z3.RealSort()]

    def dec(self, c):
        return SReal(c[0])

    def enc(self, v, ctx):
        if isinstance(v, (int, float)):
            return [z3.RealVal(v)]
        if isinstance(v, SReal):
            return [v.t]
        if isinstance(v, SInt):
            return [z3.ToReal(v.t)]
        raise Unsupported(f"TReal.enc {v!r}")


class TBool(Ty):
    def sorts(self):
        return [z3.BoolSort()]

    def dec(self, c):
        return lift(SBool(c[0]))

    def enc(self, v, ctx):
        if isinstance(v, bool):
            return [z3.BoolVal(v)]
        if isinstance(v, SBool):
            return [v.t]
        if isinstance(v, int):
            return [z3.BoolVal(bool(v))]
        raise Unsupported(f"TBool.enc {v!r}")


class TStr(Ty):
    def sorts(self):
        return [z3.StringSort()]

    def dec(self, c):
        return lift(SStr(c[0]))

    def enc(self, v, ctx):
        if isinstance(v, str):
            return [z3.StringVal(v)]
        if isinstance(v, SStr):
            return [v.t]
        raise Unsupported(f"TStr.enc {v!r}")


class TBytes(Ty):
    def sorts(self):
        return [z3.StringSort()]

    def dec(self, c):
        return SBytes(c[0])

    def enc(self, v, ctx):
        if isinstance(v, bytes):
            return [z3.StringVal(v.decode("latin1"))]
        if isinstance(v, SBytes):
            return [v.t]
        raise Unsupported(f"TBytes.enc {v!r}")


class TEnum(Ty):
    def __init__(self, cls):
        self.cls = cls

    def sorts(self):
        return [z3.IntSort()]

    def dec(self, c):
        t = simp(c[0])
        if z3.is_int_value(t):
            for m in self.cls.enum.values():
                if m.value == t.as_long():
                    return m
        return SEnum(self.cls, t)

    def enc(self, v, ctx):
        if isinstance(v, EnumMember):
            return [z3.IntVal(v.value)]
        if isinstance(v, SEnum):
            return [v.t]
        raise Unsupported(f"TEnum.enc {v!r}")

    def domain(self, c):
        vals = sorted(m.value for m in self.cls.enum.values())
        return [z3.Or([c[0] == v for v in vals])]


class TOpaque(Ty):
    def __init__(self, kind):
        self.kind = kind

    def sorts(self):
        return [ref_sort("Val")]

    def dec(self, c):
        return SOpaque(self.kind, c[0])

    def enc(self, v, ctx):
        if isinstance(v, SOpaque):
            return [v.t]
        return [ctx.intern(v)]


class TRef(Ty):
    def __init__(self, cls, sort):
        self.cls = cls
        self.sort = sort

    def sorts(self):
        return [ref_sort(self.sort)]

    def dec(self, c):
        return SRef(self.cls, c[0])

    def enc(self, v, ctx):
        if isinstance(v, SRef):
            return [v.t]
        raise Unsupported(f"TRef.enc {v!r}")


class TOpt(Ty):
    def __init__(self, inner):
        self.inner = inner

    def sorts(self):
        return [z3.BoolSort()] + self.inner.sorts()

    def dec(self, c):
        n = simp(c[0])
        if z3.is_true(n):
            return None
        v = self.inner.dec(c[1:])
        if z3.is_false(n):
            return v
        return SOpt(n, v)

    def enc(self, v, ctx):
        if v is None:
            return [z3.BoolVal(True)] + [default_of(s) for s in self.inner.sorts()]
        if isinstance(v, SOpt):
            return [v.none] + self.inner.enc(v.val, ctx)
        return [z3.BoolVal(False)] + self.inner.enc(v, ctx)

    def domain(self, c):
        return [z3.Implies(z3.Not(c[0]), z3.And(self.inner.domain(c[1:])))] if self.inner.domain(c[1:]) else []


def default_of(s):
    if s == z3.IntSort():
        return z3.IntVal(0)
    if s == z3.RealSort():
        return z3.RealVal(0)
    if s == z3.BoolSort():
        return z3.BoolVal(False)
    if s == z3.StringSort():
        return z3.StringVal("")
    return z3.Const(f"dflt_{s}", s)


def lift(v):
    """Turn literal terms back into Python constants."""
    if isinstance(v, SInt):
        t = simp(v.t)
        if z3.is_int_value(t):
            return t.as_long()
        return SInt(t)
    if isinstance(v, SBool):
        t = simp(v.t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return SBool(t)
    if isinstance(v, SStr):
        t = simp(v.t)
        if z3.is_string_value(t):
            return pystr(t)
        return SStr(t)
    return v


def pystr(t):
    s = t.as_string()
    # z3 escapes non-printables as \u{..}
    import re

    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)


# ------------------------------------------------------------------- stores


class Store:
    """Functional field: args -> tuple of terms. base UF(s) + update layers."""

    def __init__(self, ctx, name, arg_sorts, ty):
        self.ctx = ctx
        self.name = name
        self.arg_sorts = arg_sorts
        self.ty = ty
        self.layers = []
        self.base = self._mk(name)
        self.gen = 0

    def _mk(self, nm):
        return [
            z3.Function(f"{nm}.{i}", *self.arg_sorts, s)
            for i, s in enumerate(self.ty.sorts())
        ]

    def comps(self, *args):
        layers = self.layers
        start = 0
        for i in range(len(layers) - 1, -1, -1):
            if layers[i][0] == "base":
                start = i
                break
        if layers and layers[start][0] == "base":
            cur = [f(*args) for f in layers[start][1]]
            rest = layers[start + 1 :]
        else:
            cur = [f(*args) for f in self.base]
            rest = layers
        for L in rest:
            if L[0] == "point":
                _, refs, vals = L
                cond = z3.And([a == b for a, b in zip(args, refs)])
                cond = simp(cond)
                if z3.is_true(cond):
                    cur = list(vals)
                elif not z3.is_false(cond):
                    cur = [z3.If(cond, v, c) for v, c in zip(vals, cur)]
            elif L[0] == "bulk":
                _, pred, valf = L
                cond = simp(pred(*args))
                if z3.is_false(cond):
                    continue
                vals = valf(*args, cur) if callable(valf) else valf
                if z3.is_true(cond):
                    cur = list(vals)
                else:
                    cur = [z3.If(cond, v, c) for v, c in zip(vals, cur)]
        return [simp(c) for c in cur]

    def read(self, *args):
        return self.ty.dec(self.comps(*args))

    def write(self, args, v):
        self.ctx.mut_append(self.layers, ("point", tuple(args), self.ty.enc(v, self.ctx)))

    def write_comps(self, args, comps):
        self.ctx.mut_append(self.layers, ("point", tuple(args), comps))

    def bulk(self, pred, valf):
        self.ctx.mut_append(self.layers, ("bulk", pred, valf))

    def havoc(self):
        """Replace by an arbitrary function; returns old snapshot reader."""
        old = self.snapshot()
        k = self.ctx.names.get("gen:" + self.name, 0) + 1
        self.ctx.mut_dict(self.ctx.names, "gen:" + self.name, k)
        self.ctx.mut_append(self.layers, ("base", self._mk(f"{self.name}@{k}")))
        return old

    def snapshot(self):
        s = Store.__new__(Store)
        s.ctx = self.ctx
        s.name = self.name
        s.arg_sorts = self.arg_sorts
        s.ty = self.ty
        s.layers = list(self.layers)
        s.base = self.base
        return s


# --------------------------------------------------- substitution in values


def subst_val(v, pairs):
    """Value v with element constants substituted.  Containers come out as
    read-only copies (tmp)."""
    if not pairs:
        return v
    w = _subst_val(v, pairs)
    if w is not v and isinstance(w, (VList, VDict, VSet, Obj)):
        w.tmp = True
    return w


def freeze(v, level, memo=None):
    """Copy of the containers created inside a generic iteration, which is
    about to be undone."""
    memo = {} if memo is None else memo
    if isinstance(v, tuple):
        return tuple(freeze(x, level, memo) for x in v)
    if isinstance(v, SOpt):
        return SOpt(v.none, freeze(v.val, level, memo))
    if not isinstance(v, (VList, VDict, VSet, Obj)) or v.level < level or v.tmp:
        return v
    if id(v) in memo:
        return memo[id(v)][1]
    w = type(v).__new__(type(v))
    w.__dict__.update(v.__dict__)
    memo[id(v)] = (v, w)
    if isinstance(v, (VList, VSet)):
        w.items = [freeze(x, level, memo) for x in v.items]
    elif isinstance(v, VDict):
        w.d = {k: (freeze(a, level, memo), freeze(b, level, memo)) for k, (a, b) in v.d.items()}
        w.parts = list(v.parts)
    else:
        w.attrs = {k: freeze(x, level, memo) for k, x in v.attrs.items()}
    return w


def _subst_val(v, pairs):

    def st(t):
        return simp(z3.substitute(t, *pairs))

    if isinstance(v, SInt):
        return SInt(st(v.t))
    if isinstance(v, SReal):
        return SReal(st(v.t))
    if isinstance(v, SBool):
        return SBool(st(v.t))
    if isinstance(v, SStr):
        return SStr(st(v.t))
    if isinstance(v, SBytes):
        return SBytes(st(v.t))
    if isinstance(v, SEnum):
        return SEnum(v.cls, st(v.t))
    if isinstance(v, SOpaque):
        return SOpaque(v.kind, st(v.t))
    if isinstance(v, SRef):
        return SRef(v.cls, st(v.t))
    if isinstance(v, SOpt):
        return SOpt(st(v.none), subst_val(v.val, pairs))
    if isinstance(v, tuple):
        return tuple(subst_val(x, pairs) for x in v)
    if isinstance(v, VList):
        return VList([subst_val(x, pairs) for x in v.items])
    if isinstance(v, VSet):
        return VSet([subst_val(x, pairs) for x in v.items])
    if isinstance(v, Part):
        g, f = v.guard, v.val
        return Part(
            v.sorts,
            lambda *xs: st(g(*xs)),
            lambda *xs: subst_val(f(*xs), pairs),
            v.origin,
        )
    if isinstance(v, VDict):
        d = VDict()
        for k, val in v.d.values():
            k2, v2 = subst_val(k, pairs), subst_val(val, pairs)
            d.d[hk(k2)] = (k2, v2)
        d.parts = [subst_val(p, pairs) for p in v.parts]
        return d
    if isinstance(v, SSeq):
        at = v.at
        return SSeq(st(v.n), lambda i: subst_val(at(i), pairs), v.kind)
    if isinstance(v, SSet):
        m = v.mem
        return SSet(v.name, lambda x: st(m(x)), v.card, v.wrap, v.sort)
    if isinstance(v, Obj) and v.level > 0:
        return Obj(v.cls, {k: subst_val(x, pairs) for k, x in v.attrs.items()})
    if isinstance(v, Dyn):
        raise Unsupported("unresolved dynamic value escapes a generic iteration")
    if isinstance(v, (Coro, GenV)) or isinstance(v, FuncV) and v.env is not None and v.env.level > 0:
        raise Unsupported(f"{type(v).__name__} escapes a generic iteration")
    if isinstance(v, BoundV):
        return BoundV(subst_val(v.self_, pairs), v.func)
    return v


_hk_keep = {}


def hk(k):
    """Hash key for dict/set storage."""
    if isinstance(k, (SInt, SStr, SRef, SEnum, SOpaque, SBytes, SReal, SBool)):
        t = simp(k.t)
        _hk_keep[t.get_id()] = t  # ids stay unique while the term lives
        return ("s", type(k).__name__, t.get_id())
    if isinstance(k, tuple):
        return ("t",) + tuple(hk(x) for x in k)
    if isinstance(k, (str, bytes, int, float, bool, type(None))):
        return ("c", k)
    return ("o", id(k))


def key_concrete(k):
    if isinstance(k, Sym):
        return False
    if isinstance(k, tuple):
        return all(key_concrete(x) for x in k)
    return True


def _intern(self, v):
    """Opaque term standing for an arbitrary interpreter value (by identity or
    constant)."""
    tbl = self.state.setdefault("interned", {})
    if isinstance(v, V):
        key = ("id", id(v))
        tbl.setdefault("keep", []).append(v)
    else:
        key = hk(v)
    if key not in tbl:
        tbl[key] = z3.Const(f"val!{len(tbl)}", ref_sort("Val"))
    return tbl[key]


Ctx.intern = _intern
