"""Models of Python builtins and of the library calls the verified functions
make.  These are the assumed (trusted) contracts on dependencies."""
import ast
import json
import math

import z3

from .core import *
from .core import PyRaise
from .vals import *
from .interp import ClassEnv, Env, Interp, LazyAttr, LazyGen, Pow2Int

BUILTINS = {}


def builtin(name):
    def deco(f):
        BUILTINS[name] = f
        return f

    return deco


# ------------------------------------------------------------------ iteration


def iterate(it, v, node=None):
    v = it.resolve(v)
    if isinstance(v, LazyGen):
        if v.val is None:
            v.val = v.run()
        v = v.val
    if isinstance(v, GenV):
        v = v.thunk()
    if isinstance(v, (VList, VSet)):
        if isinstance(v, VList):
            it_read(it, v)
        return list(v.items)
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, VDict):
        return [k for k, _ in v.d.values()] + [
            Part(p.sorts, p.guard, lambda *xs, p=p: p.val(*xs)[0], p.origin) for p in v.parts
        ]
    if isinstance(v, str):
        return list(v)
    if isinstance(v, bytes):
        return list(v)
    if isinstance(v, range):
        return list(v)
    if isinstance(v, (SSeq, Part)):
        return [v]
    if isinstance(v, SSet):
        if v.sort is None:
            it.unsupported("iteration over symbolic set", node)
        return [Part((v.sort,), lambda x: v.mem(v.wrap(x)), lambda x: v.wrap(x))]
    if isinstance(v, ClassInfo) and v.enum is not None:
        return list(v.enum.values())
    if isinstance(v, Obj):
        if "__iter__" in v.attrs:
            return it.iterate(it.call(v.attrs["__iter__"], []), node)
        if isinstance(v.cls, ClassInfo):
            m, _ = v.cls.lookup("__iter__")
            if m is not None:
                return it.iterate(it.call(m, [v]), node)
    if isinstance(v, IterV):
        return v.drain(it)
    if isinstance(v, SRef):
        h = it.attr_hooks.get("iter:" + getattr(v.cls, "name", ""))
        if h:
            return it.iterate(h(it, v), node)
    if v is None or isinstance(v, (int, float, SInt, SReal, SBool)):
        it.raise_(TypeError, "object is not iterable")
    it.unsupported(f"iteration over {v!r}", node)


def it_read(it, lst):
    lg = it.ctx.state.get("efflog")
    if lg is not None and lst.level < it.ctx.sub:
        lg.append(("rlist", lst))


class IterV:
    """Iterator with a cursor over a concrete list of elements."""

    def __init__(self, items):
        self.items = list(items)
        self.pos = [0]

    def drain(self, it):
        out = self.items[self.pos[0] :]
        it.ctx.mut_list(self.pos, [len(self.items)])
        return out

    def next(self, it):
        if self.pos[0] >= len(self.items):
            it.raise_(StopIteration)
        x = self.items[self.pos[0]]
        if isinstance(x, (Part, SSeq)):
            if isinstance(x, SSeq):
                if it.ctx.branch(x.n > 0):
                    v = x.at(z3.IntVal(0))
                    rest = SSeq(simp(x.n - 1), lambda i, a=x.at: a(simp(i + 1)), x.kind)
                    it.ctx.mut_list(self.items, self.items[: self.pos[0]] + [rest] + self.items[self.pos[0] + 1 :])
                    return v
                it.ctx.mut_list(self.pos, [self.pos[0] + 1])
                return self.next(it)
            it.unsupported("next() on symbolic collection")
        it.ctx.mut_list(self.pos, [self.pos[0] + 1])
        return x


# -------------------------------------------------------------------- strings


def format_value(it, x, conv=-1, spec=""):
    x = it.resolve(x)
    if isinstance(x, (str, int, float, bool, bytes, type(None))) and isinstance(spec, str):
        try:
            if conv == 114:
                return format(repr(x), spec)
            if conv == 115:
                return format(str(x), spec)
            return format(x, spec)
        except Exception as e:
            it.raise_(type(e), str(e))
    if isinstance(x, SStr) and conv in (-1, 115) and spec == "":
        return x
    return to_str(it, x, conv, spec)


def to_str(it, x, conv=-1, spec=""):
    """str() of a value: exact for strings, otherwise an injective-for-ints
    uninterpreted rendering."""
    x = it.resolve(x)
    if isinstance(x, (str, SStr)):
        if conv == 114:
            return SStr(z3.Function("repr_str", z3.StringSort(), z3.StringSort())(it.sterm(x)))
        return x
    if isinstance(x, (int, float, bool, type(None), bytes)) and not is_sym(x):
        return str(x)
    if isinstance(x, SInt):
        if spec in ("", "d"):
            t = simp(z3.If(x.t >= 0, z3.IntToStr(x.t), z3.Concat(z3.StringVal("-"), z3.IntToStr(-x.t))))
            return SStr(t)
    nm = "strof_" + type(x).__name__
    if isinstance(x, (SReal, SInt, SBool, SBytes, SOpaque, SRef, SEnum)):
        f = z3.Function(nm + str(spec), x.t.sort(), z3.StringSort())
        return SStr(f(x.t))
    if isinstance(x, EnumMember):
        return f"{x.cls.name}.{x.name}"
    if isinstance(x, Obj) and isinstance(x.cls, ClassInfo):
        m, _ = x.cls.lookup("__str__")
        if m is not None:
            return it.call(m, [x])
    if isinstance(x, Obj) and "args" in x.attrs:
        a = x.attrs["args"]
        if len(a) == 1:
            return to_str(it, a[0])
        if len(a) == 0:
            return ""
    return SStr(it.ctx.fresh("str", z3.StringSort()))


def str_concat(it, parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            if p == "":
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    if not out:
        return ""
    if all(isinstance(p, str) for p in out):
        return "".join(out)
    ts = [it.sterm(p) for p in out]
    return SStr(ts[0] if len(ts) == 1 else z3.Concat(*ts))


def str_method(it, s, name):
    def fn(it_, args, kw):
        a = [it.resolve(x) for x in args]
        if isinstance(s, str) and all(isinstance(x, (str, int, float, type(None), tuple, bytes)) and not (isinstance(x, tuple) and any(is_sym(y) for y in x)) for x in a) and not kw and name not in ("join", "format", "encode"):
            try:
                r = getattr(s, name)(*a)
            except Exception as e:
                it.raise_(type(e), *e.args)
            return wrap_py(it, r)
        t = it.sterm(s)
        if name == "encode":
            if isinstance(s, str):
                try:
                    return s.encode(*a)
                except UnicodeError as e:
                    it.raise_(type(e), *e.args)
            return SBytes(s.t)
        if name == "join":
            items = it.iterate(a[0])
            if any(isinstance(x, (Part, SSeq)) for x in items):
                return SStr(it.ctx.fresh("join", z3.StringSort()))
            out = []
            for i, x in enumerate(items):
                if i:
                    out.append(s)
                x = it.resolve(x)
                if not isinstance(x, (str, SStr)):
                    it.raise_(TypeError, "sequence item: expected str instance")
                out.append(x)
            return str_concat(it, out)
        if name == "startswith":
            if isinstance(a[0], tuple):
                return lift(SBool(z3.Or([z3.PrefixOf(it.sterm(x), t) for x in a[0]])))
            return lift(SBool(z3.PrefixOf(it.sterm(a[0]), t)))
        if name == "endswith":
            return lift(SBool(z3.SuffixOf(it.sterm(a[0]), t)))
        if name in ("split", "rsplit") and len(a) == 2 and a[1] == 1 and isinstance(a[0], str):
            sep = z3.StringVal(a[0])
            if name == "split":
                if not it.ctx.branch(z3.Contains(t, sep)):
                    return VList([SStr(t)], it.level)
                k = known_prefix(it, t, sep)
                if k is not None:
                    return VList([SStr(k[0]), SStr(k[1])], it.level)
                i = z3.IndexOf(t, sep, 0)
                L = len(a[0])
                h = it.ctx.fresh("split_h", z3.StringSort())
                r = it.ctx.fresh("split_t", z3.StringSort())
                it.ctx.assume(t == z3.Concat(h, sep, r))
                it.ctx.assume(z3.Not(z3.Contains(h, sep)) if L == 1 else h == z3.SubString(t, 0, i))
                return VList([SStr(h), SStr(r)], it.level)
        if name == "split" and len(a) == 1 and isinstance(a[0], str):
            rest, pieces = t, []
            while len(a[0]) == 1:
                k = known_prefix(it, rest, z3.StringVal(a[0]))
                if k is None:
                    break
                pieces.append(SStr(k[0]))
                rest = k[1]
            if pieces and it.ctx.check(z3.Contains(rest, z3.StringVal(a[0]))) == z3.unsat:
                return VList([lift(x) for x in pieces + [SStr(rest)]], it.level)
            # the pieces as uninterpreted functions of the whole
            nm = "split[" + a[0] + "]"
            n = z3.Function(nm + "#", z3.StringSort(), z3.IntSort())(t)
            at = z3.Function(nm, z3.StringSort(), z3.IntSort(), z3.StringSort())
            it.ctx.assume(n >= 1)
            it.ctx.assume(z3.Implies(z3.Not(z3.Contains(t, z3.StringVal(a[0]))), z3.And(n == 1, at(t, z3.IntVal(0)) == t)))
            return VList([SSeq(n, lambda i: SStr(at(t, i)))], it.level)
        if name == "format":
            return fmt_method(it, s, a, kw)
        if name in ("strip", "lower", "upper", "lstrip", "rstrip", "replace", "title", "casefold"):
            f = z3.Function(f"str_{name}_{'_'.join(map(str, a)) if all(isinstance(x, str) for x in a) else 'x'}", z3.StringSort(), z3.StringSort())
            if not all(isinstance(x, str) for x in a):
                return SStr(it.ctx.fresh("str_" + name, z3.StringSort()))
            return SStr(f(t))
        if name == "isdigit":
            return SBool(z3.Function("str_isdigit", z3.StringSort(), z3.BoolSort())(t))
        if name == "find":
            return SInt(z3.IndexOf(t, it.sterm(a[0]), 0))
        it.unsupported(f"str.{name} on symbolic string")

    return Native("str." + name, fn)


def known_prefix(it, t, sep):
    """(a, b) if t is a + sep + b with a one-letter sep surely not in a."""
    args = t.children() if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT else []
    flat = []
    for x in args:
        flat.extend(x.children() if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_CONCAT else [x])
    if len(flat) < 2 or len(sep.as_string()) != 1:
        return None
    for i, x in enumerate(flat):
        if z3.is_string_value(x):
            s, q = x.as_string(), sep.as_string()
            if q in s:
                h = flat[:i] + [z3.StringVal(s.split(q, 1)[0])]
                r = [z3.StringVal(s.split(q, 1)[1])] + flat[i + 1 :]
                return tuple(z3.simplify(z3.Concat(*y)) if len(y) > 1 else y[0] for y in (h, r))
            continue
        if it.ctx.check(z3.Contains(x, sep)) != z3.unsat:
            return None
    return None


def fmt_method(it, s, a, kw):
    import string

    if not isinstance(s, str):
        it.unsupported("format on symbolic template")
    parts = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        parts.append(lit)
        if field is None:
            continue
        if field == "":
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field in kw:
            v = kw[field]
        else:
            base, *rest = field.replace("[", ".").replace("]", "").split(".")
            if base not in kw:
                it.raise_(KeyError, base)
            v = kw[base]
            for r in rest:
                v = it.getattr(v, r)
        parts.append(format_value(it, v, ord(conv) if conv else -1, spec or ""))
    return str_concat(it, parts)


def bytes_method(it, s, name):
    def fn(it_, args, kw):
        a = [it.resolve(x) for x in args]
        if isinstance(s, bytes) and all(isinstance(x, (str, int, bytes, type(None))) for x in a) and not kw:
            try:
                return wrap_py(it, getattr(s, name)(*a))
            except Exception as e:
                it.raise_(type(e), *e.args)
        if name == "decode":
            return SStr(it.bterm(s))
        if name == "join":
            items = it.to_pylist(a[0])
            ts = []
            for i, x in enumerate(items):
                if i:
                    ts.append(it.bterm(s))
                ts.append(it.bterm(it.resolve(x)))
            return SBytes(ts[0] if len(ts) == 1 else z3.Concat(*ts))
        if name == "strip":
            return SBytes(z3.Function("bytes_strip", z3.StringSort(), z3.StringSort())(it.bterm(s)))
        if name in ("split", "rsplit") and a and isinstance(a[0], bytes) and not kw:
            r = str_method(it, SStr(it.bterm(s)), name).fn(it, [a[0].decode("latin1")] + a[1:], {})

            def b(x):
                x = it.resolve(x)
                return x.encode("latin1") if isinstance(x, str) else SBytes(x.t)

            return VList([SSeq(x.n, lambda i, x=x: b(x.at(i))) if isinstance(x, SSeq) else b(x) for x in r.items], it.level)
        h = it.ctx.state.get("bytes_hook")
        if h is not None:
            r = h(it, s, name, a)
            if r is not POISON:
                return r
        it.unsupported(f"bytes.{name}")

    return Native("bytes." + name, fn)


def wrap_py(it, r):
    if isinstance(r, list):
        return VList([wrap_py(it, x) for x in r], it.level)
    if isinstance(r, dict):
        d = VDict(level=it.level)
        for k, v in r.items():
            d.d[hk(k)] = (k, wrap_py(it, v))
        return d
    if isinstance(r, tuple):
        return tuple(wrap_py(it, x) for x in r)
    if isinstance(r, (set, frozenset)):
        return VSet([wrap_py(it, x) for x in r], it.level)
    return r


def unwrap_py(it, v):
    """Fully concrete interpreter value -> Python value; raises Unsupported."""
    v = it.resolve(v)
    if isinstance(v, VList):
        return [unwrap_py(it, x) for x in v.items]
    if isinstance(v, VSet):
        return {unwrap_py(it, x) for x in v.items}
    if isinstance(v, VDict) and not v.parts:
        return {unwrap_py(it, k): unwrap_py(it, x) for k, x in v.d.values()}
    if isinstance(v, tuple):
        return tuple(unwrap_py(it, x) for x in v)
    if is_sym(v) or isinstance(v, (Part, Obj)):
        raise Unsupported(f"value is not concrete: {v!r}")
    return v


def binop_other(it, op, a, b, node):
    for x in (a, b):
        if isinstance(x, SOpaque) and "binop:" + x.kind in it.attr_hooks:
            return it.attr_hooks["binop:" + x.kind](it, op, a, b)
    if op == "+":
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return str_concat(it, [a, b])
        if isinstance(a, (bytes, SBytes)) and isinstance(b, (bytes, SBytes)):
            if isinstance(a, bytes) and isinstance(b, bytes):
                return a + b
            return SBytes(z3.Concat(it.bterm(a), it.bterm(b)))
        if isinstance(a, VList) and isinstance(b, VList):
            return VList(a.items + b.items, it.level)
        if isinstance(a, VList) and isinstance(b, SSeq):
            return VList(a.items + [b], it.level)
        if isinstance(a, SSeq) and isinstance(b, VList):
            return VList([a] + b.items, it.level)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
    if op == "%" and isinstance(a, (str, SStr)):
        args = b if isinstance(b, tuple) else (b,)
        if isinstance(a, str):
            if all(not is_sym(it.resolve(x)) and isinstance(it.resolve(x), (str, int, float, bytes, type(None))) for x in args):
                try:
                    return a % tuple(it.resolve(x) for x in args)
                except Exception as e:
                    it.raise_(type(e), str(e))
            return percent(it, a, args)
        return SStr(it.ctx.fresh("fmt", z3.StringSort()))
    if op == "*":
        if isinstance(a, VList) and isinstance(b, int):
            return VList(a.items * b, it.level)
        if isinstance(a, (str, bytes)) and isinstance(b, int):
            return a * b
    if isinstance(a, (VSet, SSet)) and isinstance(b, (VSet, SSet)):
        return set_op(it, {"-": "difference", "|": "union", "&": "intersection", "^": "symmetric_difference"}[op], a, [b])
    if op == "|" and isinstance(a, VDict) and isinstance(b, VDict):
        d = dict_copy(it, [a], {})
        dict_update(it, [d, b], {})
        return d
    if isinstance(a, Obj) and isinstance(a.cls, ClassInfo):
        nm = {"+": "__add__", "-": "__sub__", "|": "__or__", "/": "__truediv__"}.get(op)
        m, _ = a.cls.lookup(nm) if nm else (None, None)
        if m:
            return it.call(m, [a, b])
    ok = (type(None), bool, int, float, str, bytes, SInt, SReal, SStr, SBytes, SBool, VList, VDict, VSet, tuple)
    if isinstance(a, ok) and isinstance(b, ok):
        it.raise_(TypeError, f"unsupported operand type(s) for {op}")
    it.unsupported(f"{op} on {a!r}, {b!r}", node)


def percent(it, tmpl, args):
    import re

    parts = []
    i = 0
    pos = 0
    for m in re.finditer(r"%(\.\d+)?([sdrfi%])", tmpl):
        parts.append(tmpl[pos : m.start()])
        pos = m.end()
        if m.group(2) == "%":
            parts.append("%")
            continue
        if i >= len(args):
            it.raise_(TypeError, "not enough arguments for format string")
        x = it.resolve(args[i])
        i += 1
        if m.group(2) in "di" and not isinstance(x, (SInt, SReal, int, float, SBool, SEnum, EnumMember)):
            it.raise_(TypeError, "%d format: a real number is required")
        if m.group(1) is None and m.group(2) in "sdi":
            parts.append(to_str(it, x))
        else:
            parts.append(to_str(it, x, conv=114 if m.group(2) == "r" else -1, spec=m.group(0)))
    if i < len(args):
        it.raise_(TypeError, "not all arguments converted during string formatting")
    parts.append(tmpl[pos:])
    return str_concat(it, parts)


# ----------------------------------------------------------------- attributes


def getattr_(it, o, name, node=None, default=POISON):
    o = it.resolve(o) if isinstance(o, (Dyn, SOpt)) else o
    if isinstance(o, Obj):
        if name in o.attrs:
            v = o.attrs[name]
            if isinstance(v, LazyField):
                v = v.get(it)
                it.ctx.mut_dict(o.attrs, name, v)
            lg = it.ctx.state.get("efflog")
            if lg is not None and o.level < it.ctx.sub:
                lg.append(("rattr", o, name))
            return v
        if name in ("__traceback__", "__cause__", "__context__") and ((isinstance(o.cls, type) and issubclass(o.cls, BaseException)) or (isinstance(o.cls, ClassInfo) and any(issubclass(b, BaseException) for b in o.cls.pybases() or ()))):
            return SOpaque("traceback", z3.Const("traceback", ref_sort("Val")))
        if isinstance(o.cls, ClassInfo):
            h = it.attr_hooks.get("getattr:" + o.cls.name)
            if h:
                r = h(it, o, name)
                if r is not POISON:
                    return r
            return class_attr(it, o, o.cls, name, node, default)
        if name == "args":
            return ()
        if name == "__class__":
            return o.cls
        if name == "with_traceback":
            return Native("with_traceback", lambda it, a, k: o)
        if default is not POISON:
            return default
        if isinstance(o.cls, type) or o.attrs.get("__closed__"):
            it.raise_(AttributeError, name)
        it.unsupported(f"attribute {name} of {o!r}", node)
    if isinstance(o, SRef):
        if it.field(o.cls, name) is not None:
            return it.read_field(o, name)
        h = it.attr_hooks.get(f"{getattr(o.cls, 'name', o.cls)}.{name}") or it.attr_hooks.get(f"{getattr(o.cls, 'name', o.cls)}.*")
        if h is not None:
            r = h(it, o, name)
            if r is not POISON:
                return r
        if isinstance(o.cls, ClassInfo):
            return class_attr(it, o, o.cls, name, node, default)
        it.unsupported(f"attribute {name} of {o!r}", node)
    if isinstance(o, (int, SInt)) and it.attr_hooks.get("int." + name):
        return it.attr_hooks["int." + name](it, o, name)
    if isinstance(o, ModuleV):
        m = it.repo.load(o.name)
        v = it.global_lookup(m, name)
        if v is not POISON:
            return v
        sub = it.repo.load(o.name + "." + name)
        if sub is not None:
            return ModuleV(sub.name)
        it.raise_(AttributeError, name)
    if isinstance(o, ExtV):
        p = o.path + "." + name
        return it.ext_value(p)
    if isinstance(o, ClassInfo):
        if name == "__name__":
            return o.name
        if name == "__module__":
            return o.module.name
        v, owner = o.lookup(name)
        if v is None:
            if o.enum is not None and name == "__members__":
                return VDict()
            if name == "__init__":
                return Native("object.__init__", lambda it, a, k: None)
            if default is not POISON:
                return default
            it.raise_(AttributeError, name)
        if isinstance(v, LazyAttr):
            return v.get(it)
        if isinstance(v, FuncV) and v.kind == "classmethod":
            return BoundV(o, v)
        return v
    if isinstance(o, EnumMember) or isinstance(o, SEnum):
        if isinstance(o, EnumMember):
            if name == "name":
                return o.name
            if name == "value":
                return o.value
        else:
            if name == "value":
                return SInt(o.t)
            if name == "name":
                t = z3.StringVal("?")
                for m in o.cls.enum.values():
                    t = z3.If(o.t == m.value, z3.StringVal(m.name), t)
                return SStr(t)
        return class_attr(it, o, o.cls, name, node, default)
    if isinstance(o, SuperV):
        for c in super_mro(it, o):
            if isinstance(c, ClassInfo):
                if name in c.attrs:
                    v = c.attrs[name]
                    return bind_attr(it, o.self_, v, c)
            else:
                p = f"super:{getattr(c, 'path', getattr(c, '__name__', c))}.{name}"
                if p in it.overrides:
                    return BoundV(o.self_, Native(p, it.overrides[p]))
        if name == "__init__":
            return Native("object.__init__", lambda it, a, k: None)
        for c in super_mro(it, o):
            if not isinstance(c, ClassInfo):
                it.unsupported(f"super().{name} in external base {c!r}", node)
        it.raise_(AttributeError, name)
    if isinstance(o, (str, SStr)):
        if isinstance(o, str) and not hasattr(o, name):
            if default is not POISON:
                return default
            it.raise_(AttributeError, f"'str' object has no attribute {name!r}")
        return str_method(it, o, name)
    if isinstance(o, (bytes, SBytes)):
        if not hasattr(b"", name):
            if default is not POISON:
                return default
            it.raise_(AttributeError, name)
        return bytes_method(it, o, name)
    tname = {VList: "list", VSet: "set", VDict: "dict", SSet: "set", SSeq: "list"}.get(type(o))
    if tname:
        m = METHODS.get((tname, name))
        if m is not None:
            return BoundV(o, Native(f"{tname}.{name}", m))
        pyt = {"list": list, "set": set, "dict": dict}[tname]
        if not hasattr(pyt, name):
            if default is not POISON:
                return default
            it.raise_(AttributeError, f"{tname!r} object has no attribute {name!r}")
        it.unsupported(f"{tname}.{name}", node)
    if isinstance(o, BoundV):
        if name == "__self__":
            return o.self_
        if name == "__name__":
            return o.func.name
    if isinstance(o, FuncV):
        if name in ("__name__", "__qualname__"):
            return o.name
    if isinstance(o, Native) and o.name == "type" and name == "__name__":
        return "type"
    if isinstance(o, type):
        if name == "__name__":
            return o.__name__
        if name == "__module__":
            return o.__module__
        v = TYPE_ATTRS.get((o, name))
        if v is not None:
            return Native(f"{o.__name__}.{name}", v)
    if o is None or isinstance(o, (bool, int, float, SInt, SReal, SBool, tuple)):
        py = {SInt: int, SReal: float, SBool: bool}.get(type(o), type(o))
        if not hasattr(py, name):
            if default is not POISON:
                return default
            it.raise_(AttributeError, f"{py.__name__!r} object has no attribute {name!r}")
        if isinstance(o, tuple) and name in ("index", "count"):
            pass
        if name == "__class__":
            return py
        if isinstance(o, (float, SReal)) and name == "is_integer":
            if isinstance(o, float):
                return Native("is_integer", lambda it, a, k: o.is_integer())
            return Native("is_integer", lambda it, a, k: SBool(z3.ToReal(z3.ToInt(o.t)) == o.t))
    if isinstance(o, SOpaque):
        h = it.attr_hooks.get(f"{o.kind}.{name}") or it.attr_hooks.get(f"{o.kind}.*")
        if h is not None:
            r = h(it, o, name)
            if r is not POISON:
                return r
    it.unsupported(f"attribute {name} of {o!r}", node)


def super_mro(it, s):
    """Classes after s.cls in the MRO of the object."""
    o = s.self_
    cls = o.cls if isinstance(o, (Obj, SRef)) else (o if isinstance(o, ClassInfo) else s.cls)
    full = []

    def lin(c):
        if c in full:
            return
        full.append(c)
        if isinstance(c, ClassInfo):
            for b in c.bases:
                lin(b)

    lin(cls)
    if s.cls in full:
        return full[full.index(s.cls) + 1 :]
    return full[1:]


class LazyField:
    def __init__(self, fn):
        self.fn = fn

    def get(self, it):
        return self.fn(it)


def bind_attr(it, o, v, owner):
    if isinstance(v, LazyAttr):
        v = v.get(it)
        if isinstance(v, FuncV):
            return BoundV(o, v)
        return v
    if isinstance(v, PropV):
        return it.call(v.getter, [o])
    if isinstance(v, FuncV):
        if v.kind == "staticmethod":
            return v
        if v.kind == "classmethod":
            return BoundV(o.cls if not isinstance(o, ClassInfo) else o, v)
        return BoundV(o, v)
    return v


def class_attr(it, o, cls, name, node, default=POISON):
    v, owner = cls.lookup(name)
    if v is not None:
        if isinstance(v, LazyAttr):
            val = None
            vn = v.node
            if isinstance(vn, ast.Call):
                # traitlets-style descriptor?
                fn = it.ev(vn.func, ClassEnv(owner.module, owner))
                if is_trait_ctor(it, fn):
                    return trait_value(it, o, cls, owner, name, vn, node)
            val = v.get(it)
            if isinstance(val, FuncV) and isinstance(vn, ast.Lambda):
                return BoundV(o, val)
            return val
        return bind_attr(it, o, v, owner)
    if name == "__class__":
        return cls
    if name == "__dict__":
        it.unsupported("__dict__", node)
    ga, _ = cls.lookup("__getattr__")
    if ga is not None:
        return it.call(ga, [o, name])
    for c in cls.mro():
        for b in c.bases:
            p = f"super:{getattr(b, 'path', getattr(b, '__name__', b))}.{name}"
            if p in it.overrides:
                return BoundV(o, Native(p, it.overrides[p]))
    m = MAPPING_MIXIN.get(name)
    if m is not None and is_mapping_cls(cls):
        return BoundV(o, Native("Mapping." + name, m))
    if default is not POISON:
        return default
    exts = [b for c in cls.mro() for b in c.bases if not isinstance(b, (ClassInfo,)) and b is not object]
    if exts and not all(isinstance(b, type) for b in exts):
        if not (isinstance(o, Obj) and o.attrs.get("__closed__")):
            it.unsupported(f"attribute {name} of {cls!r} may come from an external base", node)
    if getattr(o, "partial", False) and any(assigns_attr(c, name) for c in cls.mro()):
        # an attribute of real objects, which the contract's pre-state lacks
        it.unsupported(f"attribute {name} of {cls.name} is not part of the contract", node)
    it.raise_(AttributeError, f"{cls.name!r} object has no attribute {name!r}")


def assigns_attr(c, name):
    names = c.__dict__.get("_assigned")
    if names is None:
        names = c._assigned = {n.attr for n in ast.walk(c.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self"} if c.node is not None else set()
    return name in names


def is_mapping_cls(cls):
    return any(isinstance(b, ExtV) and b.path.split(".")[-1] in ("Mapping", "MutableMapping") for c in cls.mro() for b in c.bases)


def _mm_get(it, args, kw):
    o, k = args[0], args[1]
    d = args[2] if len(args) > 2 else kw.get("default")
    try:
        return it.getitem(o, k)
    except PyRaise as e:
        if it.isinstance_(e.val, KeyError):
            return d
        raise


def _mm_iterkeys(it, args, kw):
    return VList(it.iterate(it.call(args[0].cls.lookup("__iter__")[0], [args[0]])), it.level)


def _mm_items(it, args, kw):
    o = args[0]
    ks = it.iterate(it.call(o.cls.lookup("__iter__")[0], [o]))
    if any(isinstance(k, (Part, SSeq)) for k in ks):
        it.unsupported("items of symbolic mapping object")
    return VList([(k, it.getitem(o, k)) for k in ks], it.level)


MAPPING_MIXIN = {
    "get": _mm_get,
    "keys": _mm_iterkeys,
    "items": _mm_items,
    "values": lambda it, a, k: VList([v for _, v in _mm_items(it, a, k).items], it.level),
}


def is_trait_ctor(it, fn):
    if isinstance(fn, ExtV) and fn.path.startswith("traitlets"):
        return True
    if isinstance(fn, ClassInfo) and any(isinstance(b, ExtV) and b.path.startswith("traitlets") for c in fn.mro() for b in c.bases):
        return True
    return False


def trait_value(it, o, cls, owner, name, vn, node):
    h = it.ctx.state.get("trait_hook")
    if h is not None:
        r = h(it, o, cls, owner, name, vn)
        if r is not POISON:
            return r
    it.unsupported(f"configuration trait {name} not in the contract's state", node)


def setattr_(it, o, name, v, node=None, raw=False):
    o = it.resolve(o) if isinstance(o, (Dyn, SOpt)) else o
    if isinstance(o, Obj):
        if not raw and isinstance(o.cls, ClassInfo):
            sa, _ = o.cls.lookup("__setattr__")
            if isinstance(sa, FuncV):
                return it.call(sa, [o, name, v])
        if isinstance(o.cls, ClassInfo) and name not in o.attrs:
            p, _ = o.cls.lookup(name)
            if isinstance(p, PropV):
                if p.setter is None:
                    it.raise_(AttributeError, name)
                return it.call(p.setter, [o, v])
        th = it.ctx.state.get("trait_set_hook")
        if th is not None and isinstance(o.cls, ClassInfo) and name not in o.attrs and th(it, o, name, v) is not POISON:
            return
        it.wcheck(o)
        if o.level < it.ctx.sub:
            it.log("wattr", o, name, o.attrs.get(name, POISON), v)
        hook = it.ctx.state.get("setattr_hook")
        if hook is not None:
            hook(it, o, name, v)
        it.ctx.mut_dict(o.attrs, name, v)
        return
    if isinstance(o, SRef):
        if it.field(o.cls, name) is not None:
            return it.write_field(o, name, v)
        h = it.attr_hooks.get(f"set:{getattr(o.cls, 'name', o.cls)}.{name}")
        if h is not None:
            return h(it, o, v)
        it.unsupported(f"write of unknown field {name} on {o!r}", node)
    if o is None or isinstance(o, (bool, int, float, str, bytes, tuple)):
        it.raise_(AttributeError, name)
    it.unsupported(f"setattr {name} on {o!r}", node)


# ---------------------------------------------------------------- subscription


def dict_find(it, d, k):
    """Key of d equal to k (forks for symbolic keys) or POISON."""
    k = it.resolve(k)
    if isinstance(k, (VList, VDict, VSet)):
        it.raise_(TypeError, "unhashable type")
    h = hk(k)
    lg = it.ctx.state.get("efflog")
    if lg is not None and d.level < it.ctx.sub:
        lg.append(("rdict", d, k))
    if h in d.d:
        return h
    conc = key_concrete(k)
    for h2, (k2, _) in list(d.d.items()):
        if conc and key_concrete(k2):
            # distinct constants / identities
            if isinstance(k2, tuple) or isinstance(k, tuple):
                e = it.eq(k2, k)
                if e is True:
                    return h2
            continue
        e = it.eq(k2, k)
        if e is False:
            continue
        if it.ctx.branch(e):
            return h2
    for p in d.parts:
        r = part_lookup(it, p, k)
        if r is not None:
            return ("part", p, r)
    return POISON


def direct_key(it, p, k):
    """The part's element with key k, when the key is the element itself."""
    if len(p.sorts) != 1:
        return None
    k = it.resolve(k)
    if isinstance(k, (SRef, SStr, SInt)):
        t = k.t
    elif isinstance(k, str):
        t = z3.StringVal(k)
    else:
        return None
    if t.sort() != sort_of_name(p.sorts[0]):
        return None
    probe = z3.Const("probe", t.sort())
    kk = p.val(probe)[0]
    return t if isinstance(kk, (SRef, SStr, SInt)) and kk.t.eq(probe) else None


def inverse_of(it, val, k, sort):
    """The element whose value is k, through a declared inverse function."""
    inv = it.ctx.state.get("inverse")
    if not inv:
        return None
    k = it.resolve(k)
    t = k.t if isinstance(k, (SRef, SStr, SInt)) else z3.StringVal(k) if isinstance(k, str) else None
    if t is None:
        return None
    probe = z3.Const("probe", sort_of_name(sort))
    y = val(probe)
    if not isinstance(y, (SRef, SStr, SInt)) or y.t.sort() != t.sort():
        return None
    x, chain = t, y.t
    while not chain.eq(probe):
        if not z3.is_app(chain) or chain.num_args() != 1:
            return None
        f = inv.get(chain.decl().name())
        if f is None:
            return None
        x, chain = f(x), chain.arg(0)
    if x is t:
        return None
    return x, z3.substitute(y.t, (probe, x)) == t


def part_lookup(it, p, k):
    inv = inverse_of(it, lambda x: p.val(x)[0], k, p.sorts[0]) if len(p.sorts) == 1 else None
    if inv is not None:
        x, same = inv
        it.ctx.know(p.sorts[0], x)
        if it.ctx.branch(z3.And(p.guard(x), same)):
            return [x]
        return None
    t = direct_key(it, p, k)
    if t is not None:
        if it.ctx.branch(p.guard(t)):
            it.ctx.know(p.sorts[0], t)
            return [t]
        return None
    """Is there an element of p with key k? forks; returns witness or None."""
    probes = [z3.Const("probe%d" % i, sort_of_name(s)) for i, s in enumerate(p.sorts)]
    if it.eq(p.val(*probes)[0], k) is False:
        return None
    c = it.ctx.fresh("haskey", z3.BoolSort())
    if it.ctx.branch(c):
        xs = it.fresh_elem(p, "kx")
        kk = p.val(*xs)[0]
        e = it.eq(kk, k)
        it.ctx.assume(e if not isinstance(e, bool) else z3.BoolVal(e))
        return xs

    e = it.eq(p.val(*probes)[0], k)
    e = z3.BoolVal(e) if isinstance(e, bool) else e
    f = z3.Implies(p.guard(*probes), z3.Not(e))  # as of now
    it.ctx.forall(p.sorts, lambda *xs: z3.substitute(f, *zip(probes, xs)), "nokey")
    return None


def dict_get_h(it, d, h):
    if isinstance(h, tuple) and h and h[0] == "part":
        return h[1].val(*h[2])[1]
    return d.d[h][1]


def getitem(it, o, k, node=None):
    o = it.resolve(o)
    if isinstance(o, VDict):
        h = dict_find(it, o, k)
        if h is POISON:
            if o.default is not None:
                v = it.call(o.default, [])
                setitem(it, o, k, v, node)
                return v
            raise PyRaise(it.make_exc(KeyError, k))
        return dict_get_h(it, o, h)
    if isinstance(o, VList) and any(isinstance(x, (Part, SSeq)) for x in o.items):
        return list_index(it, o, k, node)
    if isinstance(o, (VList, tuple, str, bytes)):
        seq = o.items if isinstance(o, VList) else o
        if isinstance(o, VList):
            it_read(it, o)
        if isinstance(k, slice):
            parts = [it.resolve(x) for x in (k.start, k.stop, k.step)]
            if any(is_sym(x) for x in parts):
                return sym_slice(it, o, seq, parts, node)
            r = seq[slice(*parts)]
            return VList(r, it.level) if isinstance(o, VList) else r
        k = it.resolve(k)
        if isinstance(k, (int, bool)):
            try:
                return seq[k]
            except IndexError as e:
                it.raise_(IndexError, *e.args)
        if isinstance(k, SInt):
            for i in range(len(seq)):
                if it.ctx.branch(z3.Or(k.t == i, k.t == i - len(seq))):
                    return seq[i]
            it.raise_(IndexError, "index out of range")
        it.raise_(TypeError, "indices must be integers")
    if isinstance(o, SSeq):
        return list_index(it, VList([o]), k, node)
    if isinstance(o, Obj):
        if "__getitem__" in o.attrs:
            return it.call(o.attrs["__getitem__"], [k])
        if isinstance(o.cls, ClassInfo):
            m, _ = o.cls.lookup("__getitem__")
            if m is not None:
                return it.call(m, [o, k])
    if isinstance(o, ClassInfo) and o.enum is not None:
        if isinstance(k, str):
            if k in o.enum:
                return o.enum[k]
            raise PyRaise(it.make_exc(KeyError, k))
        if isinstance(k, SStr):
            for nm, m in o.enum.items():
                if it.ctx.branch(k.t == z3.StringVal(nm)):
                    return m
            raise PyRaise(it.make_exc(KeyError, k))
    if isinstance(o, (SRef, SOpaque)):
        nm = getattr(o.cls, "name", "") if isinstance(o, SRef) else o.kind
        h = it.attr_hooks.get("getitem:" + nm)
        if h:
            return h(it, o, k)
    if isinstance(o, ExtV):
        return o
    if isinstance(o, SStr):
        return str_index(it, o, k, node)
    if o is None or isinstance(o, (bool, int, float, SInt, SReal, SBool)):
        it.raise_(TypeError, "object is not subscriptable")
    it.unsupported(f"subscript of {o!r}", node)


def str_index(it, o, k, node):
    t = o.t
    n = z3.Length(t)
    if isinstance(k, slice):
        if k.step is not None:
            it.unsupported("string slice step", node)

        def norm(x, dflt):
            x = it.resolve(x)
            if x is None:
                return dflt
            x = it._nt(it.num_or_none(x), False)
            return z3.If(x < 0, z3.If(n + x < 0, z3.IntVal(0), n + x), z3.If(x > n, n, x))

        a, b = norm(k.start, z3.IntVal(0)), norm(k.stop, n)
        return SStr(simp(z3.If(b > a, z3.SubString(t, a, b - a), z3.StringVal(""))))
    k = it.resolve(k)
    i = it._nt(it.num_or_none(k), False)
    if it.ctx.branch(z3.Or(i >= n, i < -n)):
        it.raise_(IndexError, "string index out of range")
    return SStr(simp(z3.SubString(t, z3.If(i < 0, n + i, i), 1)))


def seq_len_term(it, lst):
    tot = z3.IntVal(0)
    for x in lst.items:
        if isinstance(x, SSeq):
            tot = tot + x.n
        elif isinstance(x, Part):
            tot = tot + it_count(it, x)
        else:
            tot = tot + 1
    return simp(tot)


def list_index(it, o, k, node):
    if isinstance(k, slice):
        return sym_slice(it, o, o.items, [it.resolve(x) for x in (k.start, k.stop, k.step)], node)
    if any(isinstance(x, Part) for x in o.items):
        it.unsupported("index into symbolic collection", node)
    k = it.resolve(k)
    i = it._nt(it.num_or_none(k), False)
    n = seq_len_term(it, o)
    if it.ctx.branch(z3.Or(i >= n, i < -n)):
        it.raise_(IndexError, "list index out of range")
    i = simp(z3.If(i < 0, n + i, i))
    off = z3.IntVal(0)
    for j, x in enumerate(o.items):
        L = x.n if isinstance(x, SSeq) else z3.IntVal(1)
        last = j == len(o.items) - 1
        if last or it.ctx.branch(i < off + L):
            return x.at(simp(i - off)) if isinstance(x, SSeq) else x
        off = off + L
    it.unsupported("list index", node)


def sym_slice(it, o, seq, parts, node):
    start, stop, step = parts
    if step is not None:
        it.unsupported("slice with step", node)
    items = list(seq)
    if any(isinstance(x, Part) for x in items):
        return prefix_slice(it, o, items, start, stop, node)
    lst = VList(items)
    n = seq_len_term(it, lst)

    def norm(x, dflt):
        if x is None:
            return dflt
        x = it._nt(it.num_or_none(x), False)
        return simp(z3.If(x < 0, z3.If(n + x < 0, z3.IntVal(0), n + x), z3.If(x > n, n, x)))

    a, b = norm(start, z3.IntVal(0)), norm(stop, n)
    if len(items) == 1 and isinstance(items[0], SSeq):
        s = items[0]
        ln = simp(z3.If(b > a, b - a, 0))
        return VList([SSeq(ln, lambda i: s.at(simp(i + a)), s.kind)], it.level)

    def at(i):
        return list_at(it, items, simp(i + a))

    ln = simp(z3.If(b > a, b - a, 0))
    return VList([SSeq(ln, at)], it.level)


def list_at(it, items, i):
    """items[i] with i known in range, as an ite over the segments."""
    segs = []
    off = z3.IntVal(0)
    for x in items:
        L = x.n if isinstance(x, SSeq) else z3.IntVal(1)
        segs.append((off, L, x))
        off = simp(off + L)
    res = None
    for off, L, x in reversed(segs):
        v = x.at(simp(i - off)) if isinstance(x, SSeq) else x
        if res is None:
            res = v
        else:
            res = ite_val(it, i < off + L, v, res)
    return res


def ite_val(it, c, a, b):
    c = simp(c)
    if is_true(c):
        return a
    if is_false(c):
        return b
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        tb = lambda x: z3.BoolVal(x) if isinstance(x, bool) else x.t
        return it.mkbool(z3.If(c, tb(a), tb(b)))
    if isinstance(a, (int, bool)) and isinstance(b, (int, SInt)) or isinstance(a, SInt) and isinstance(b, (int, SInt)):
        return SInt(z3.If(c, it._nt(it.num_or_none(a), False), it._nt(it.num_or_none(b), False)))
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        return SStr(z3.If(c, it.sterm(a), it.sterm(b)))
    if isinstance(a, SOpaque) and isinstance(b, SOpaque):
        return SOpaque(a.kind, z3.If(c, a.t, b.t))
    if isinstance(a, SOpaque) or isinstance(b, SOpaque):
        k = a.kind if isinstance(a, SOpaque) else b.kind
        ta = a.t if isinstance(a, SOpaque) else it.ctx.intern(a)
        tb = b.t if isinstance(b, SOpaque) else it.ctx.intern(b)
        return SOpaque(k, z3.If(c, ta, tb))
    if isinstance(a, SRef) and isinstance(b, SRef):
        return SRef(a.cls, z3.If(c, a.t, b.t))
    if a is b:
        return a
    it.unsupported("conditional over mixed values")


def prefix_slice(it, o, items, start, stop, node):
    """list(symbolic collection)[:k] / islice: an arbitrary sub-collection of
    the right size respecting segment order."""
    if start is not None:
        it.unsupported("slice start over symbolic collection", node)
    tot = seq_len_term(it, VList(items))
    if stop is None:
        return VList(items, it.level)
    k = it._nt(it.num_or_none(stop), False)
    k = simp(z3.If(k < 0, z3.If(tot + k < 0, z3.IntVal(0), tot + k), z3.If(k > tot, tot, k)))
    return take_prefix(it, items, k)


def take_prefix(it, items, k):
    from .generic import take

    return take(it, items, k)


def unpart(it, o, k):
    """Generic entries of o no longer hold key k, which is none of the others."""
    if o.level < it.ctx.sub:
        return False
    ts = [direct_key(it, p, k) for p in o.parts]
    if any(t is None for t in ts):
        return False
    it.ctx.mut_list(o.parts, [Part(p.sorts, lambda x, p=p, t=t: z3.And(p.guard(x), x != t), p.val, None) for p, t in zip(o.parts, ts)])
    return True


def mask_key(it, o, k):
    """Generic entries of o no longer hold key k (it gets its own entry).
    Only when every known key is a constant different from k and the generic
    keys are the elements themselves."""
    if isinstance(k, (VList, VDict, VSet)) or not key_concrete(k) or not all(key_concrete(k2) and not isinstance(k2, tuple) for k2, _ in o.d.values()):
        return False
    ts = [direct_key(it, p, k) for p in o.parts]
    if any(t is None for t in ts):
        return False
    new = [Part(p.sorts, lambda x, p=p, t=t: z3.And(p.guard(x), x != t), p.val, None) for p, t in zip(o.parts, ts)]
    it.ctx.mut_list(o.parts, new)
    return True


def update_generic(it, d, src):
    """d.update(src) with generic entries in src and constant keys in d."""
    items = list(d.d.values())
    if not all(key_concrete(k) and not isinstance(k, tuple) for k, _ in items):
        it.unsupported("update with generic entries")
    for p in src.parts:
        if any(direct_key(it, p, k) is None for k, _ in items) or any(len(q.sorts) != 1 or q.sorts != p.sorts for q in d.parts):
            it.unsupported("update with generic entries")
    for p in src.parts:
        for q in d.parts:
            probe = z3.Const("probe", sort_of_name(p.sorts[0]))
            if not all(isinstance(x.val(probe)[0], (SRef, SStr, SInt)) and x.val(probe)[0].t.eq(probe) for x in (p, q)):
                it.unsupported("update with generic entries")
    for p in src.parts:
        for h, (k, v) in list(d.d.items()):
            if src.d.get(h) is not None:
                continue
            t = direct_key(it, p, k)
            g = p.guard(t)
            new = p.val(t)[1]
            try:
                nv = ite_val(it, g, new, v)
            except Unsupported:
                nv = new if it.ctx.branch(g) else v
            it.ctx.mut_dict(d.d, h, (k, nv))
        keep = [Part(q.sorts, lambda x, q=q, p=p: z3.And(q.guard(x), z3.Not(p.guard(x))), q.val, None) for q in d.parts]
        ks = [direct_key(it, p, k) for k, _ in d.d.values()]
        pn = Part(p.sorts, lambda x, p=p, ks=tuple(ks): z3.And([p.guard(x)] + [x != t for t in ks]), p.val, None)
        it.ctx.mut_list(d.parts, keep + [pn])


def setitem(it, o, k, v, node=None):
    o = it.resolve(o)
    if isinstance(o, VDict):
        if o.frozen:
            it.raise_(TypeError, "does not support item assignment")
        k = it.resolve(k)
        it.wcheck(o)
        if o.level < it.ctx.sub:
            it.log("dset", o, k, v)
        if o.parts and it.ctx.sub <= o.level and hk(k) not in o.d and mask_key(it, o, k):
            it.ctx.mut_dict(o.d, hk(k), (k, v))
            return
        h = dict_find(it, o, k) if (o.d or o.parts) else POISON
        if isinstance(h, tuple) and h and h[0] == "part":
            if not unpart(it, o, k):
                it.unsupported("overwrite of generic dict entry", node)
            h = POISON
        if isinstance(k, (VList, VDict, VSet)):
            it.raise_(TypeError, "unhashable type")
        if h is POISON:
            h = hk(k)
            it.ctx.mut_dict(o.d, h, (k, v))
        else:
            it.ctx.mut_dict(o.d, h, (o.d[h][0], v))
        return
    if isinstance(o, VList):
        k = it.resolve(k)
        if isinstance(k, int) and not any(isinstance(x, (Part, SSeq)) for x in o.items):
            try:
                new = list(o.items)
                new[k] = v
            except IndexError as e:
                it.raise_(IndexError, *e.args)
            it.wcheck(o)
            if o.level < it.ctx.sub:
                it.log("listmut", o)
            it.ctx.mut_list(o.items, new)
            return
    if isinstance(o, Obj):
        if "__setitem__" in o.attrs:
            return it.call(o.attrs["__setitem__"], [k, v])
        if isinstance(o.cls, ClassInfo):
            m, _ = o.cls.lookup("__setitem__")
            if m is not None:
                return it.call(m, [o, k, v])
    if isinstance(o, SRef):
        h = it.attr_hooks.get("setitem:" + getattr(o.cls, "name", ""))
        if h:
            return h(it, o, k, v)
    it.unsupported(f"item assignment on {o!r}", node)


def delitem(it, o, k, node=None):
    o = it.resolve(o)
    if isinstance(o, VDict):
        h = dict_find(it, o, k)
        if h is POISON:
            raise PyRaise(it.make_exc(KeyError, k))
        if isinstance(h, tuple) and h[0] == "part":
            if not unpart(it, o, k):
                it.unsupported("delete of generic dict entry", node)
            it.wcheck(o)
            return
        it.wcheck(o)
        if o.level < it.ctx.sub:
            it.log("ddel", o, k)
        it.ctx.mut_del(o.d, h)
        return
    if isinstance(o, Obj) and "__delitem__" in o.attrs:
        return it.call(o.attrs["__delitem__"], [k])
    if isinstance(o, VList) and isinstance(k, int):
        new = list(o.items)
        try:
            del new[k]
        except IndexError as e:
            it.raise_(IndexError, *e.args)
        it.ctx.mut_list(o.items, new)
        return
    it.unsupported(f"del item on {o!r}", node)


def contains(it, coll, x, n=None):
    coll = it.resolve(coll)
    if isinstance(coll, LazyGen):
        coll = VList(it.iterate(coll))
    if isinstance(coll, SSet):
        return simp(coll.mem(it.resolve(x)))
    if isinstance(coll, (str, SStr)):
        x = it.resolve(x)
        if isinstance(coll, str) and isinstance(x, str):
            return x in coll
        if not isinstance(x, (str, SStr)):
            it.raise_(TypeError, "'in <string>' requires string as left operand")
        return simp(z3.Contains(it.sterm(coll), it.sterm(x)))
    if isinstance(coll, VDict):
        return dict_contains(it, coll, x)
    if isinstance(coll, (VList, VSet, tuple)):
        items = coll.items if not isinstance(coll, tuple) else coll
        lg = it.ctx.state.get("efflog")
        if lg is not None and not isinstance(coll, tuple) and coll.level < it.ctx.sub:
            lg.append(("rlist", coll))
        terms = []
        if isinstance(coll, VSet) and isinstance(it.resolve(x), (VList, VDict, VSet)):
            it.raise_(TypeError, "unhashable type")
        for y in items:
            if isinstance(y, Part):
                terms.append(part_member(it, y, x))
            elif isinstance(y, SSeq):
                terms.append(part_member(it, seq_part(y), x))
            else:
                e = it.eq(y, x)
                if e is True:
                    return True
                if e is False:
                    continue
                terms.append(e)
        if not terms:
            return False
        return simp(z3.Or(terms))
    if isinstance(coll, bytes) and isinstance(x, bytes):
        return x in coll
    if isinstance(coll, Obj):
        if "__contains__" in coll.attrs:
            return it.truth_term(it.call(coll.attrs["__contains__"], [x]))
        if isinstance(coll.cls, ClassInfo):
            m, _ = coll.cls.lookup("__contains__")
            if m is not None:
                return it.truth_term(it.call(m, [coll, x]))
            if is_mapping_cls(coll.cls):
                try:
                    it.getitem(coll, x)
                    return True
                except PyRaise as e:
                    if it.isinstance_(e.val, KeyError):
                        return False
                    raise
    if isinstance(coll, SRef):
        h = it.attr_hooks.get("contains:" + getattr(coll.cls, "name", ""))
        if h:
            return h(it, coll, x)
    if coll is None or isinstance(coll, (int, float, SInt, SReal, SBool)):
        it.raise_(TypeError, "argument is not iterable")
    it.unsupported(f"membership in {coll!r}", n)


def dict_contains(it, d, x):
    x = it.resolve(x)
    if isinstance(x, (VList, VDict, VSet)):
        it.raise_(TypeError, "unhashable type")
    h = hk(x)
    if h in d.d:
        return True
    conc = key_concrete(x)
    terms = []
    for k2, _ in d.d.values():
        if conc and key_concrete(k2) and not isinstance(x, tuple):
            continue
        e = it.eq(k2, x)
        if e is True:
            return True
        if e is not False:
            terms.append(e)
    for p in d.parts:
        kp = Part(p.sorts, p.guard, lambda *xs, p=p: p.val(*xs)[0])
        terms.append(part_member(it, kp, x))
    if not terms:
        return False
    return simp(z3.Or(terms))


def seq_part(s):
    return Part(("Int",), lambda i: z3.And(i >= 0, i < s.n), lambda i: s.at(i), s)


def sort_of_name(s):
    return z3.IntSort() if s == "Int" else (z3.StringSort() if s == "Str" else ref_sort(s))


def part_member(it, p, x):
    """Term: exists xs. guard(xs) and val(xs)==x.  When val is the identity on
    refs this is exact; otherwise a defined predicate with witness."""
    x = it.resolve(x)
    if len(p.sorts) == 1 and isinstance(x, SRef) and x.t.sort().name() == p.sorts[0]:
        probe = z3.Const("probe", x.t.sort())
        v = p.val(probe)
        if isinstance(v, SRef) and v.t.eq(probe):
            return simp(p.guard(x.t))
    if len(p.sorts) == 1 and isinstance(x, (SStr, SInt, str)) and not isinstance(x, bool):
        xt = it.sterm(x)
        if xt.sort() == sort_of_name(p.sorts[0]):
            probe = z3.Const("probe", xt.sort())
            v = p.val(probe)
            if isinstance(v, (SStr, SInt)) and v.t.eq(probe):
                return simp(p.guard(xt))
    if len(p.sorts) == 1:
        inv = inverse_of(it, p.val, x, p.sorts[0])
        if inv is not None:
            it.ctx.know(p.sorts[0], inv[0])
            return simp(z3.And(p.guard(inv[0]), inv[1]))
    b = it.ctx.fresh("mem", z3.BoolSort())
    # b -> witness ; not b -> forall not
    wit = []
    for s in p.sorts:
        srt = z3.IntSort() if s == "Int" else (z3.StringSort() if s == "Str" else ref_sort(s))
        wit.append(it.ctx.fresh(f"mw_{s}", srt))

    def eqt(*xs):
        e = it.eq(p.val(*xs), x)
        return z3.BoolVal(e) if isinstance(e, bool) else e

    it.ctx.assume(z3.Implies(b, z3.And(p.guard(*wit), eqt(*wit))))
    for s, w in zip(p.sorts, wit):
        it.ctx.know(s, w)
    it.ctx.forall_t(p.sorts, lambda *xs: z3.Implies(z3.Not(b), z3.Implies(p.guard(*xs), z3.Not(eqt(*xs)))), "mem")
    return b


# ------------------------------------------------------------ type predicates


PYNUM = (int, float)


def isinstance_(it, v, c):
    c = it.resolve(c)
    if isinstance(c, tuple):
        return any(isinstance_(it, v, x) for x in c)
    v = it.resolve(v)
    if isinstance(v, Obj) and "__pytype__" in v.attrs:
        return isinstance(c, type) and issubclass(v.attrs["__pytype__"], c)
    if isinstance(v, (Obj, SRef)):
        cls = v.cls
        if isinstance(cls, ClassInfo):
            if isinstance(c, (ClassInfo, type)):
                if c is object:
                    return True
                return cls.issub(c)
            if isinstance(c, ExtV):
                return ext_sub(cls, c)
        if isinstance(cls, type):
            return isinstance(c, type) and issubclass(cls, c)
        if isinstance(cls, ExtV):
            if isinstance(c, ExtV):
                return cls.path == c.path or (cls.path, c.path) in EXT_SUBCLASS or cls.path.startswith(c.path + ":")
            if c is Exception or c is BaseException:
                return cls.path not in ("asyncio.CancelledError",) or c is BaseException
            return False
        if isinstance(cls, str):
            if isinstance(c, ClassInfo):
                return c.name == cls
            return cls == getattr(c, "__name__", getattr(c, "path", "").split(".")[-1])
    if isinstance(c, ClassInfo):
        if isinstance(v, (EnumMember, SEnum)):
            return v.cls.issub(c)
        return False
    if isinstance(c, ExtV):
        nm = c.path.split(".")[-1]
        if nm in ("Sequence",):
            return isinstance(v, (VList, tuple, str, bytes, SSeq, SStr))
        if nm in ("Mapping", "MutableMapping"):
            return isinstance(v, VDict)
        return False
    py = pytype(it, v)
    if py is None:
        if isinstance(c, type) and isinstance(v, SOpaque):
            h = it.attr_hooks.get("isinstance:" + v.kind)
            if h:
                return h(it, v, c)
        if c is object:
            return True
        if isinstance(v, (FuncV, ClassInfo, BoundV, Native, ModuleV, Coro, GenV)):
            return c is type and isinstance(v, ClassInfo)
        it.unsupported(f"isinstance of {v!r}")
    if isinstance(c, type):
        return issubclass(py, c)
    it.unsupported(f"isinstance against {c!r}")


EXT_SUBCLASS = set()


def ext_sub(cls, c):
    return any(isinstance(b, ExtV) and (b.path == c.path) for k in cls.mro() for b in k.bases)


def pytype(it, v):
    if isinstance(v, SInt):
        return int
    if isinstance(v, SReal):
        return float
    if isinstance(v, SBool):
        return bool
    if isinstance(v, SStr):
        return str
    if isinstance(v, SBytes):
        return bytes
    if isinstance(v, (VList, SSeq)):
        return list
    if isinstance(v, VDict):
        return dict
    if isinstance(v, (VSet, SSet)):
        return set
    if isinstance(v, (EnumMember, SEnum)):
        return int if it.is_int_enum(v) else object
    if isinstance(v, (V, Sym)):
        return None
    if isinstance(v, (FuncV, ClassInfo, BoundV, Native, ModuleV, ExtV, Coro, GenV)):
        return None
    return type(v)


# -------------------------------------------------------------------- builtins


@builtin("isinstance")
def _isinstance(it, a, k):
    return isinstance_(it, a[0], a[1])


@builtin("issubclass")
def _issubclass(it, a, k):
    x, c = a
    if isinstance(x, ClassInfo):
        return x.issub(c)
    if isinstance(x, type) and isinstance(c, type):
        return issubclass(x, c)
    return False


@builtin("len")
def _len(it, a, k):
    v = it.resolve(a[0])
    return length(it, v)


def length(it, v):
    if isinstance(v, (str, bytes, tuple)):
        return len(v)
    if isinstance(v, SStr):
        return lift(SInt(z3.Length(v.t)))
    if isinstance(v, SBytes):
        return lift(SInt(z3.Length(v.t)))
    if isinstance(v, SSeq):
        return lift(SInt(v.n))
    if isinstance(v, VDict):
        if not v.parts:
            return len(v.d)
        return lift(SInt(seq_len_term(it, VList(list(v.d.values()) + v.parts))))
    if isinstance(v, VList):
        it_read(it, v)
        if not any(isinstance(x, (Part, SSeq)) for x in v.items):
            return len(v.items)
        return lift(SInt(seq_len_term(it, v)))
    if isinstance(v, VSet):
        if not any(isinstance(x, (Part, SSeq)) for x in v.items):
            return len(v.items)
        return lift(SInt(seq_len_term(it, v)))
    if isinstance(v, SSet):
        if v.card is not None:
            return lift(SInt(v.card))
        it.unsupported("len of symbolic set")
    if isinstance(v, Obj):
        if "__len__" in v.attrs:
            return it.call(v.attrs["__len__"], [])
        if isinstance(v.cls, ClassInfo):
            m, _ = v.cls.lookup("__len__")
            if m:
                return it.call(m, [v])
    if isinstance(v, ClassInfo) and v.enum:
        return len(v.enum)
    if isinstance(v, SRef):
        h = it.attr_hooks.get("len:" + getattr(v.cls, "name", ""))
        if h:
            return h(it, v)
    if v is None or isinstance(v, (int, float, SInt, SReal, SBool)):
        it.raise_(TypeError, "object has no len()")
    it.unsupported(f"len of {v!r}")


def it_count(it, p):
    from .generic import count_part

    return count_part(it, p)


def _minmax(op):
    def fn(it, a, k):
        key = k.get("key")
        if len(a) == 1:
            items = it.iterate(a[0])
            if any(isinstance(x, (Part, SSeq)) for x in items):
                from .generic import extremum

                return extremum(it, items, op, key, k)
            if not items:
                if "default" in k:
                    return k["default"]
                it.raise_(ValueError, "arg is an empty sequence")
        else:
            items = list(a)
        best = it.resolve(items[0])
        encls = {x.cls for x in map(it.resolve, items) if isinstance(x, (SEnum, EnumMember))}
        enum = encls.pop() if len(encls) == 1 and all(isinstance(it.resolve(x), (SEnum, EnumMember)) for x in items) else None
        kb = it.call(key, [best]) if key is not None else best
        for x in items[1:]:
            x = it.resolve(x)
            kx = it.call(key, [x]) if key is not None else x
            nb, nx = it.num_or_none(kb), it.num_or_none(kx)
            t = it.compare("<" if op == "min" else ">", kx, kb)
            if key is None and not isinstance(t, bool) and nb and nx and type_num(best) == type_num(x):
                real = nb[0] == "r" or nx[0] == "r" or isinstance(best, float)
                bt, xt = it._nt(nb, real), it._nt(nx, real)
                best = (SReal if real else SInt)(simp(z3.If(t, xt, bt))) if enum is None else SEnum(enum, simp(z3.If(t, xt, bt)))
                kb = best
            elif it.ctx.branch(t):
                best, kb = x, kx
        return best

    return fn


def type_num(v):
    if isinstance(v, bool) or isinstance(v, SBool):
        return "b"
    if isinstance(v, (int, SInt)):
        return "i"
    if isinstance(v, float):
        return "f" if math.isfinite(v) else "inf"
    if isinstance(v, SReal):
        return "f"
    return None


BUILTINS["min"] = _minmax("min")
BUILTINS["max"] = _minmax("max")


@builtin("abs")
def _abs(it, a, k):
    v = it.resolve(a[0])
    if isinstance(v, (int, float)):
        return abs(v)
    return type(v)(z3.If(v.t < 0, -v.t, v.t))


@builtin("sum")
def _sum(it, a, k):
    tot = a[1] if len(a) > 1 else 0
    for x in it.iterate(a[0]):
        if isinstance(x, Part):
            # sum of a 0/1 constant counts elements
            v = x.val(*[z3.Const(f"probe{i}", z3.IntSort() if s == "Int" else (z3.StringSort() if s == "Str" else ref_sort(s))) for i, s in enumerate(x.sorts)])
            if isinstance(v, int) and not isinstance(v, bool):
                tot = it.binop("+", tot, lift(SInt(it_count(it, x) * v)))
                continue
            if isinstance(v, (SBool, bool)):
                def g(*xs, x=x):
                    b = x.val(*xs)
                    return z3.And(x.guard(*xs), b.t if isinstance(b, SBool) else z3.BoolVal(b))

                tot = it.binop("+", tot, lift(SInt(it_count(it, Part(x.sorts, g, x.val)))))
                continue
            it.unsupported("sum over symbolic collection")
        if isinstance(x, SSeq):
            it.unsupported("sum over symbolic sequence")
        tot = it.binop("+", tot, x)
    return tot


def _anyall(is_any):
    def fn(it, a, k):
        v = a[0]
        if isinstance(v, LazyGen) and v.val is None:
            pass
        items = it.iterate(v)
        for x in items:
            if isinstance(x, SSeq):
                x = seq_part(x)
            if isinstance(x, Part):
                def pred(*xs, x=x):
                    t = it.truth_term(x.val(*xs))
                    return z3.BoolVal(t) if isinstance(t, bool) else t

                # fork: exists a decisive element or none
                c = it.ctx.fresh("anyall", z3.BoolSort())
                if it.ctx.branch(c):
                    xs = it.fresh_elem(x)
                    t = pred(*xs)
                    it.ctx.assume(t if is_any else z3.Not(t))
                    return is_any
                it.ctx.forall(
                    x.sorts,
                    lambda *xs, x=x, pred=pred: z3.Implies(x.guard(*xs), z3.Not(pred(*xs)) if is_any else pred(*xs)),
                    "anyall",
                )
                continue
            b = it.truth(x)
            if b == is_any:
                return is_any
        return not is_any

    return fn


BUILTINS["any"] = _anyall(True)
BUILTINS["all"] = _anyall(False)


@builtin("sorted")
def _sorted(it, a, k):
    items = it.iterate(a[0])
    if any(isinstance(x, (Part, SSeq)) for x in items):
        if len(items) == 1 and isinstance(items[0], Part):
            return VList(items, it.level)
        return VList(items, it.level)
    if all(isinstance(x, (str, int, float)) for x in items) and not k:
        try:
            return VList(sorted(items), it.level)
        except TypeError as e:
            it.raise_(TypeError, *e.args)
    if len(items) <= 1:
        return VList(items, it.level)
    if any(isinstance(x, (SStr,)) for x in items):
        # order is irrelevant to every contract here: keep multiset
        return VList(items, it.level)
    key = k.get("key")
    if key is not None:
        ks = [it.call(key, [x]) for x in items]
        if all(isinstance(x, (str, int, float)) for x in ks):
            order = sorted(range(len(items)), key=lambda i: ks[i], reverse=bool(k.get("reverse", False)))
            return VList([items[i] for i in order], it.level)
    it.unsupported("sorted of symbolic values")


@builtin("zip")
def _zip(it, a, k):
    cols = [it.iterate(x) for x in a]
    if all(not any(isinstance(y, (Part, SSeq)) for y in c) for c in cols):
        return VList([tuple(t) for t in zip(*cols)], it.level)
    if all(len(c) == len(cols[0]) for c in cols):
        out = []
        for seg in zip(*cols):
            if all(isinstance(s, Part) for s in seg):
                o0 = seg[0].origin or seg[0]
                if all((s.origin or s) is o0 for s in seg):
                    out.append(Part(seg[0].sorts, seg[0].guard, lambda *xs, seg=seg: tuple(s.val(*xs) for s in seg), o0))
                    continue
                it.unsupported("zip of unrelated collections")
            if all(isinstance(s, SSeq) for s in seg):
                n = seg[0].n
                for s in seg[1:]:
                    n = simp(z3.If(s.n < n, s.n, n))
                out.append(SSeq(n, lambda i, seg=seg: tuple(s.at(i) for s in seg)))
                if len(cols[0]) > 1:
                    it.unsupported("zip of mixed sequences")
                continue
            it.unsupported("zip of mixed sequences")
        return VList(out, it.level)
    it.unsupported("zip of collections of different shape")


@builtin("enumerate")
def _enumerate(it, a, k):
    st = a[1] if len(a) > 1 else k.get("start", 0)
    items = it.iterate(a[0])
    if any(isinstance(x, Part) for x in items):
        it.unsupported("enumerate over symbolic collection")
    if len(items) == 1 and isinstance(items[0], SSeq):
        s = items[0]
        return VList([SSeq(s.n, lambda i: (it.binop("+", SInt(i), st), s.at(i)))], it.level)
    return VList([(it.binop("+", st, i), x) for i, x in enumerate(items)], it.level)


@builtin("range")
def _range(it, a, k):
    a = [it.resolve(x) for x in a]
    if all(isinstance(x, int) for x in a):
        return range(*a)
    if len(a) == 1:
        lo, hi = z3.IntVal(0), it._nt(it.num_or_none(a[0]), False)
    elif len(a) == 2:
        lo, hi = (it._nt(it.num_or_none(x), False) for x in a)
    else:
        it.unsupported("symbolic range step")
    n = simp(z3.If(hi > lo, hi - lo, 0))
    return VList([SSeq(n, lambda i: lift(SInt(simp(lo + i))), "range")], it.level)


@builtin("iter")
def _iter(it, a, k):
    return IterV(it.iterate(a[0]))


@builtin("next")
def _next(it, a, k):
    v = it.resolve(a[0])
    try:
        if isinstance(v, LazyGen):
            v = IterV(it.iterate(v))
        if isinstance(v, IterV):
            return v.next(it)
        if isinstance(v, GenV):
            return IterV(it.iterate(v)).next(it)
    except PyRaise as e:
        if len(a) > 1 and it.isinstance_(e.val, StopIteration):
            return a[1]
        raise
    it.unsupported("next")


@builtin("reversed")
def _reversed(it, a, k):
    items = it.iterate(a[0])
    return VList([x if not isinstance(x, SSeq) else SSeq(x.n, lambda i, x=x: x.at(simp(x.n - 1 - i))) for x in reversed(items)], it.level)


@builtin("map")
def _map(it, a, k):
    out = VList(level=it.level)
    if len(a) == 2:
        env = Env(None, Dummy())
        env.level = it.level
        t = ast.Name("x", ast.Store())
        it.loop(it.iterate(a[1]), t, lambda e: it.list_append(out, it.call(a[0], [e.vars["x"]])), env, None)
        return out
    cols = [it.to_pylist(x) for x in a[1:]]
    for tup in zip(*cols):
        out.items.append(it.call(a[0], list(tup)))
    return out


class Dummy:
    name = "<model>"


@builtin("filter")
def _filter(it, a, k):
    out = VList(level=it.level)
    env = Env(None, Dummy())
    env.level = it.level
    t = ast.Name("x", ast.Store())

    def body(e):
        x = e.vars["x"]
        if it.truth(x if a[0] is None else it.call(a[0], [x])):
            it.list_append(out, x)

    it.loop(it.iterate(a[1]), t, body, env, None)
    return out


@builtin("callable")
def _callable(it, a, k):
    v = it.resolve(a[0])
    if isinstance(v, Obj):
        return "__call__" in v.attrs or (isinstance(v.cls, ClassInfo) and v.cls.lookup("__call__")[0] is not None)
    if isinstance(v, SOpaque):
        h = it.attr_hooks.get("callable:" + v.kind)
        if h:
            return h(it, v)
    return isinstance(v, (FuncV, BoundV, Native, ClassInfo, type, Partial))


@builtin("getattr")
def _getattr(it, a, k):
    nm = it.resolve(a[1])
    if not isinstance(nm, str):
        it.unsupported("getattr with symbolic name")
    if len(a) > 2:
        try:
            return getattr_(it, a[0], nm, None, a[2])
        except PyRaise as e:
            if it.isinstance_(e.val, AttributeError):
                return a[2]
            raise
    return it.getattr(a[0], nm)


@builtin("setattr")
def _setattr(it, a, k):
    nm = it.resolve(a[1])
    if not isinstance(nm, str):
        h = it.ctx.state.get("setattr_sym")
        if h:
            return h(it, a[0], nm, a[2])
        it.unsupported("setattr with symbolic name")
    return it.setattr(a[0], nm, a[2])


@builtin("hasattr")
def _hasattr(it, a, k):
    o, nm = it.resolve(a[0]), a[1]
    if isinstance(o, Obj):
        if nm in o.attrs:
            return True
        if "__hasattr__" in o.attrs:
            return it.call(o.attrs["__hasattr__"], [nm])
        if isinstance(o.cls, ClassInfo):
            return o.cls.lookup(nm)[0] is not None
    try:
        it.getattr(o, nm)
        return True
    except PyRaise as e:
        if it.isinstance_(e.val, AttributeError):
            return False
        raise


@builtin("repr")
def _repr(it, a, k):
    v = it.resolve(a[0])
    if isinstance(v, (str, int, float, bool, bytes, type(None))):
        return repr(v)
    return to_str(it, v, conv=114)


@builtin("id")
def _id(it, a, k):
    return id(a[0])


@builtin("print")
def _print(it, a, k):
    return None


@builtin("round")
def _round(it, a, k):
    v = it.resolve(a[0])
    if isinstance(v, (int, float)):
        return round(v, *a[1:])
    if isinstance(v, SInt):
        return v
    r = it.ctx.fresh("round", z3.IntSort())
    it.ctx.assume(z3.And(z3.ToReal(r) <= v.t + z3.Q(1, 2), z3.ToReal(r) >= v.t - z3.Q(1, 2)))
    return SInt(r)


@builtin("divmod")
def _divmod(it, a, k):
    return (it.binop("//", a[0], a[1]), it.binop("%", a[0], a[1]))


@builtin("open")
def _open(it, a, k):
    return call_ext(it, ExtV("builtins.open"), a, k)


@builtin("vars")
def _vars(it, a, k):
    it.unsupported("vars")


# ---------------------------------------------------------------- type calls


def call_type(it, t, a, k):
    a = [it.resolve(x) for x in a]
    if issubclass(t, BaseException):
        from . import web

        if issubclass(t, web.HTTPException):
            return web.exc_call(it, t, a, k)
        return it.make_exc(t, *a)
    if t is bool:
        return it.mkbool(it.truth_term(a[0])) if a else False
    if t is int:
        return to_int(it, a, k)
    if t is float:
        return to_float(it, a)
    if t is str:
        if not a:
            return ""
        if isinstance(a[0], (bytes, SBytes)) and len(a) > 1:
            return bytes_method(it, a[0], "decode").fn(it, a[1:], {})
        return to_str(it, a[0])
    if t is list:
        return VList(it.iterate(a[0]) if a else [], it.level)
    if t is tuple:
        items = it.iterate(a[0]) if a else []
        if any(isinstance(x, (Part, SSeq)) for x in items):
            return VList(items, it.level)
        return tuple(items)
    if t in (set, frozenset):
        return make_set(it, a[0] if a else ())
    if t is dict:
        src = it.resolve(a[0]) if a else None
        if isinstance(src, Obj) and src.attrs.get("__pytype__") is dict and not k:
            return it.call(src.attrs["copy"], [])
        d = VDict(level=it.level)
        if a:
            dict_update(it, [d, a[0]], {})
        for kk, v in k.items():
            setitem(it, d, kk, v)
        return d
    if t is type:
        v = a[0]
        if isinstance(v, (Obj, SRef)):
            return v.cls
        if isinstance(v, (EnumMember, SEnum)):
            return v.cls
        py = pytype(it, v)
        if py is None:
            it.unsupported("type() of opaque value")
        return py
    if t is object:
        return Obj(object, level=it.level)
    if t is bytes:
        if not a:
            return b""
        if isinstance(a[0], (bytes, SBytes)):
            return a[0]
        if isinstance(a[0], (str, SStr)):
            return str_method(it, a[0], "encode").fn(it, a[1:], {})
    it.unsupported(f"call of {t}")


def make_set(it, src):
    src = it.resolve(src)
    s = VSet(level=it.level)
    if isinstance(src, SSet):
        return src
    if isinstance(src, VSet):
        s.items = list(src.items)
        return s
    h = it.ctx.state.get("set_hook")
    if h is not None:
        r = h(it, src)
        if r is not None:
            return r
    if isinstance(src, (SSeq,)) or (isinstance(src, VList) and len(src.items) == 1 and isinstance(src.items[0], SSeq)):
        q = src if isinstance(src, SSeq) else src.items[0]
        if isinstance(q.at(z3.IntVal(0)), (SStr, str)):
            return seq_to_set(it, q)
    for x in it.iterate(src):
        if isinstance(x, SSeq):
            x = seq_part(x)
        if isinstance(x, Part):
            s.items.append(x)
        else:
            set_add(it, [s, x], {})
    return s


def seq_to_set(it, q):
    """set(sequence of strings): membership predicate, bounded cardinality."""
    name = f"set{it.ctx.names.get('setn', 0)}"
    it.ctx.mut_dict(it.ctx.names, "setn", it.ctx.names.get("setn", 0) + 1)
    mem = it.ctx.fresh_fn("inset", z3.StringSort(), z3.BoolSort())
    idx = it.ctx.fresh_fn("idxof", z3.StringSort(), z3.IntSort())
    card = it.ctx.fresh("card", z3.IntSort())
    it.ctx.assume(z3.And(card >= 0, card <= q.n, z3.Implies(q.n >= 1, card >= 1)))
    it.ctx.forall(("Int",), lambda i: z3.Implies(z3.And(i >= 0, i < q.n), mem(it.sterm(q.at(i)))), "seq2set")

    def m(v):
        t = it.sterm(v)
        it.ctx.assume(z3.Implies(mem(t), z3.And(idx(t) >= 0, idx(t) < q.n, it.sterm(q.at(idx(t))) == t, card >= 1)), "hyp")
        return mem(t)

    return SSet(name, m, card, lambda t: SStr(t), "Str")


def to_int(it, a, k):
    if not a:
        return 0
    v = a[0]
    if isinstance(v, (int, float, str, bytes)):
        try:
            return int(v, *a[1:]) if isinstance(v, (str, bytes)) else int(v)
        except Exception as e:
            it.raise_(type(e), *e.args)
    if isinstance(v, SInt):
        return v
    if isinstance(v, SBool):
        return SInt(z3.If(v.t, 1, 0))
    if isinstance(v, SReal):
        return lift(SInt(simp(z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t)))))
    if isinstance(v, (SEnum,)):
        return SInt(v.t)
    if isinstance(v, EnumMember):
        return v.value
    if isinstance(v, SStr):
        ok = z3.Function("int_parses", z3.StringSort(), z3.BoolSort())(v.t)
        if it.ctx.branch(ok):
            t = z3.Function("int_parse", z3.StringSort(), z3.IntSort())(v.t)
            return SInt(t)
        it.raise_(ValueError, "invalid literal for int()")
    if v is None or isinstance(v, (VList, VDict, VSet, tuple)):
        it.raise_(TypeError, "int() argument must be a string or a number")
    it.unsupported(f"int() of {v!r}")


def to_float(it, a):
    if not a:
        return 0.0
    v = a[0]
    if isinstance(v, (int, float, str)):
        try:
            return float(v)
        except Exception as e:
            it.raise_(type(e), *e.args)
    if isinstance(v, Pow2Int):
        if it.ctx.branch(v.pow2 >= 1024):
            it.raise_(OverflowError, "int too large to convert to float")
        return SReal(z3.ToReal(v.t))
    if isinstance(v, SInt):
        return SReal(z3.ToReal(v.t))
    if isinstance(v, SBool):
        return SReal(z3.If(v.t, z3.RealVal(1), z3.RealVal(0)))
    if isinstance(v, SReal):
        return v
    if isinstance(v, SStr):
        ok = z3.Function("float_parses", z3.StringSort(), z3.BoolSort())(v.t)
        if it.ctx.branch(ok):
            return SReal(z3.Function("float_parse", z3.StringSort(), z3.RealSort())(v.t))
        it.raise_(ValueError, "could not convert string to float")
    if v is None or isinstance(v, (VList, VDict, VSet, tuple)):
        it.raise_(TypeError, "float() argument must be a string or a number")
    it.unsupported(f"float() of {v!r}")


def object_new(it, a, k):
    ci = it.resolve(a[0])
    if not isinstance(ci, ClassInfo) or ci.enum is not None or ci.pybases() or len(a) > 1 or k:
        it.unsupported("object.__new__")
    return Obj(ci, level=it.level)


TYPE_ATTRS = {
    (object, "__new__"): object_new,
    (object, "__setattr__"): lambda it, a, k: setattr_(it, a[0], a[1], a[2], raw=True) if isinstance(a[1], str) else it.unsupported("setattr of a symbolic name"),
    (dict, "fromkeys"): lambda it, a, k: _fromkeys(it, a),
}


def _fromkeys(it, a):
    d = VDict(level=it.level)
    for x in it.to_pylist(a[0]):
        setitem(it, d, x, a[1] if len(a) > 1 else None)
    return d


# -------------------------------------------------------- container methods

METHODS = {}


def method(t, name):
    def deco(f):
        METHODS[(t, name)] = f
        return f

    return deco


@method("list", "append")
def _l_append(it, a, k):
    if isinstance(a[0], SSeq):
        it.unsupported("append to immutable symbolic sequence")
    it.list_append(a[0], a[1])


@method("list", "extend")
def list_extend(it, a, k):
    lst = a[0]
    for x in it.iterate(a[1]):
        it.list_append(lst, x)


@method("list", "pop")
def _l_pop(it, a, k):
    lst = a[0]
    it.wcheck(lst)
    if lst.level < it.ctx.sub:
        it.log("listmut", lst)
    i = it.resolve(a[1]) if len(a) > 1 else -1
    if not lst.items:
        it.raise_(IndexError, "pop from empty list")
    if i == -1 and not isinstance(lst.items[-1], (Part, SSeq)) or i == 0 and not isinstance(lst.items[0], (Part, SSeq)) or not any(isinstance(x, (Part, SSeq)) for x in lst.items):
        new = list(lst.items)
        try:
            v = new.pop(i)
        except IndexError as e:
            it.raise_(IndexError, *e.args)
        it.ctx.mut_list(lst.items, new)
        return v
    x = lst.items[0 if i == 0 else -1]
    if isinstance(x, SSeq) and len(lst.items) == 1 and i in (0, -1):
        if not it.ctx.branch(x.n > 0):
            it.raise_(IndexError, "pop from empty list")
        if i == 0:
            it.ctx.mut_list(lst.items, [SSeq(simp(x.n - 1), lambda j: x.at(simp(j + 1)), x.kind)])
            return x.at(z3.IntVal(0))
        it.ctx.mut_list(lst.items, [SSeq(simp(x.n - 1), x.at, x.kind)])
        return x.at(simp(x.n - 1))
    it.unsupported("pop from symbolic list")


METHODS[("list", "popleft")] = lambda it, a, k: _l_pop(it, [a[0], 0], {})


@method("list", "appendleft")
def _l_appendleft(it, a, k):
    it.ctx.mut_list(a[0].items, [a[1]] + a[0].items)


@method("list", "insert")
def _l_insert(it, a, k):
    new = list(a[0].items)
    if any(isinstance(x, (Part, SSeq)) for x in new) and a[1] != 0:
        it.unsupported("insert into symbolic list")
    new.insert(it.resolve(a[1]), a[2])
    it.wcheck(a[0])
    if a[0].level < it.ctx.sub:
        it.log("listmut", a[0])
    it.ctx.mut_list(a[0].items, new)


@method("list", "remove")
def _l_remove(it, a, k):
    lst, x = a
    if any(isinstance(y, (Part, SSeq)) for y in lst.items):
        it.unsupported("remove from symbolic list")
    for i, y in enumerate(lst.items):
        if it.ctx.branch(it.eq(y, x)):
            it.ctx.mut_list(lst.items, lst.items[:i] + lst.items[i + 1 :])
            return
    it.raise_(ValueError, "list.remove(x): x not in list")


@method("list", "copy")
def _l_copy(it, a, k):
    return VList(a[0].items if isinstance(a[0], VList) else [a[0]], it.level)


@method("list", "clear")
def _l_clear(it, a, k):
    it.wcheck(a[0])
    if a[0].level < it.ctx.sub:
        it.log("listmut", a[0])
    it.ctx.mut_list(a[0].items, [])


@method("list", "sort")
def _l_sort(it, a, k):
    r = _sorted(it, [a[0]], k)
    it.ctx.mut_list(a[0].items, r.items)


@method("list", "index")
def _l_index(it, a, k):
    for i, y in enumerate(it.to_pylist(a[0])):
        if it.ctx.branch(it.eq(y, a[1])):
            return i
    it.raise_(ValueError, "not in list")


@method("list", "count")
def _l_count(it, a, k):
    n = 0
    for y in it.to_pylist(a[0]):
        if it.ctx.branch(it.eq(y, a[1])):
            n += 1
    return n


@method("list", "reverse")
def _l_reverse(it, a, k):
    it.ctx.mut_list(a[0].items, _reversed(it, [a[0]], {}).items)


# sets


@method("set", "add")
def set_add(it, a, k):
    s, x = a
    x = it.resolve(x)
    if isinstance(s, SSet):
        it.unsupported("add to symbolic set")
    if isinstance(x, (VList, VDict, VSet)):
        it.raise_(TypeError, "unhashable type")
    it.wcheck(s)
    if s.level < it.ctx.sub:
        it.log("sadd", s, x)
        it.ctx.mut_append(s.items, x)
        return
    for y in s.items:
        if isinstance(y, Part):
            if it.ctx.branch(part_member(it, y, x)):
                return
        elif it.ctx.branch(it.eq(y, x)):
            return
    it.ctx.mut_append(s.items, x)


@method("set", "discard")
def set_discard(it, a, k):
    s, x = a
    it.wcheck(s)
    if s.level < it.ctx.sub:
        it.log("sdel", s, x)
    new = []
    for y in s.items:
        if isinstance(y, Part):
            def g(*xs, y=y):
                e = it.eq(y.val(*xs), x)
                e = z3.BoolVal(e) if isinstance(e, bool) else e
                return z3.And(y.guard(*xs), z3.Not(e))

            new.append(Part(y.sorts, g, y.val, y.origin))
            continue
        if it.ctx.branch(it.eq(y, x)):
            continue
        new.append(y)
    it.ctx.mut_list(s.items, new)


@method("set", "remove")
def set_remove(it, a, k):
    t = contains(it, a[0], a[1])
    if not it.ctx.branch(t):
        raise PyRaise(it.make_exc(KeyError, a[1]))
    set_discard(it, a, k)


@method("set", "update")
def set_update(it, a, k):
    for src in a[1:]:
        for x in it.iterate(src):
            if isinstance(x, SSeq):
                x = seq_part(x)
            if isinstance(x, Part):
                it.wcheck(a[0])
                if a[0].level < it.ctx.sub:
                    it.unsupported("set.update in generic iteration")
                it.ctx.mut_append(a[0].items, x)
            else:
                set_add(it, [a[0], x], {})


@method("set", "clear")
def _s_clear(it, a, k):
    it.ctx.mut_list(a[0].items, [])


@method("set", "copy")
def _s_copy(it, a, k):
    return a[0] if isinstance(a[0], SSet) else VSet(a[0].items, it.level)


@method("set", "pop")
def _s_pop(it, a, k):
    s = a[0]
    if isinstance(s, SSet) or any(isinstance(x, (Part, SSeq)) for x in s.items):
        it.unsupported("pop from symbolic set")
    if not s.items:
        raise PyRaise(it.make_exc(KeyError, "pop from an empty set"))
    v = s.items[0]
    it.ctx.mut_list(s.items, s.items[1:])
    return v


def set_op(it, op, a, rest):
    r = a
    for b in rest:
        r = _set_op2(it, op, r, b)
    return r


def _set_op2(it, op, a, b):
    a, b = it.resolve(a), it.resolve(b)
    if not isinstance(b, (VSet, SSet, VDict)):
        b = make_set(it, b)
    if isinstance(b, VDict):
        b = VSet(it.iterate(b))
    if isinstance(a, SSet) or isinstance(b, SSet):
        def mem(v):
            ta, tb = contains(it, a, v), contains(it, b, v)
            ta = z3.BoolVal(ta) if isinstance(ta, bool) else ta
            tb = z3.BoolVal(tb) if isinstance(tb, bool) else tb
            return {"union": z3.Or(ta, tb), "intersection": z3.And(ta, tb), "difference": z3.And(ta, z3.Not(tb)), "symmetric_difference": z3.Xor(ta, tb)}[op]

        base = a if isinstance(a, SSet) else b
        if op in ("intersection", "difference") and isinstance(a, VSet) and not any(isinstance(x, Part) for x in a.items):
            out = VSet(level=it.level)
            for x in a.items:
                t = contains(it, b, x)
                if it.ctx.branch(t) == (op == "intersection"):
                    out.items.append(x)
            return out
        return SSet(f"{op}", mem, None, base.wrap, base.sort)
    out = VSet(level=it.level)
    if op == "union":
        out.items = list(a.items)
        for x in b.items:
            if isinstance(x, Part) and a.items:
                # every element once: those not in a already

                def fresh(*xs, x=x, base=VSet(list(a.items))):
                    t = contains(it, base, x.val(*xs))
                    t = z3.BoolVal(t) if isinstance(t, bool) else (t.t if isinstance(t, SBool) else t)
                    return z3.And(x.guard(*xs), z3.Not(t))

                out.items.append(Part(x.sorts, fresh, x.val, None))
            elif isinstance(x, Part):
                out.items.append(x)
            else:
                set_add(it, [out, x], {})
        return out
    if op in ("difference", "intersection"):
        keep = op == "intersection"
        for x in a.items:
            if isinstance(x, Part):
                def g(*xs, x=x):
                    t = contains(it, b, x.val(*xs))
                    t = z3.BoolVal(t) if isinstance(t, bool) else t
                    return z3.And(x.guard(*xs), t if keep else z3.Not(t))

                out.items.append(Part(x.sorts, g, x.val, None))
            elif it.ctx.branch(contains(it, b, x)) == keep:
                out.items.append(x)
        return out
    it.unsupported(f"set {op}")


for _op in ("union", "intersection", "difference", "symmetric_difference"):
    METHODS[("set", _op)] = lambda it, a, k, _op=_op: set_op(it, _op, a[0], a[1:])


def _issubset(it, a, k):
    x, y = it.resolve(a[0]), it.resolve(a[1])
    return _anyall(False)(it, [VList([it.mkbool(contains(it, y, e)) if not isinstance(e, Part) else Part(e.sorts, e.guard, lambda *xs, e=e: it.mkbool(contains(it, y, e.val(*xs)))) for e in it.iterate(x)])], {})


METHODS[("set", "issubset")] = _issubset
METHODS[("set", "isdisjoint")] = lambda it, a, k: not it.truth(set_op(it, "intersection", a[0], [a[1]]))


def _diff_update(it, a, k):
    r = set_op(it, "difference", a[0], a[1:])
    if isinstance(r, SSet):
        it.unsupported("difference_update")
    it.ctx.mut_list(a[0].items, r.items)


METHODS[("set", "difference_update")] = _diff_update


# dicts


@method("dict", "get")
def _d_get(it, a, k):
    d = a[0]
    dflt = a[2] if len(a) > 2 else k.get("default")
    h = dict_find(it, d, a[1])
    return dflt if h is POISON else dict_get_h(it, d, h)


@method("dict", "keys")
def _d_keys(it, a, k):
    return VList(it.iterate(a[0]), it.level)


@method("dict", "values")
def _d_values(it, a, k):
    d = a[0]
    return VList([v for _, v in d.d.values()] + [Part(p.sorts, p.guard, lambda *xs, p=p: p.val(*xs)[1], p.origin or p) for p in d.parts], it.level)


@method("dict", "items")
def _d_items(it, a, k):
    d = a[0]
    return VList([(kk, v) for kk, v in d.d.values()] + [Part(p.sorts, p.guard, p.val, p.origin or p) for p in d.parts], it.level)


@method("dict", "pop")
def _d_pop(it, a, k):
    d = a[0]
    h = dict_find(it, d, a[1])
    if h is POISON:
        if len(a) > 2:
            return a[2]
        raise PyRaise(it.make_exc(KeyError, a[1]))
    v = dict_get_h(it, d, h)
    if isinstance(h, tuple) and h[0] == "part":
        if not unpart(it, d, a[1]):
            it.unsupported("pop of generic dict entry")
        it.wcheck(d)
        return v
    it.wcheck(d)
    if d.level < it.ctx.sub:
        it.log("ddel", d, a[1])
    it.ctx.mut_del(d.d, h)
    return v


@method("dict", "popitem")
def _d_popitem(it, a, k):
    d = a[0]
    last = it.resolve(a[1]) if len(a) > 1 else k.get("last", True)
    if d.parts:
        it.unsupported("popitem on symbolic dict")
    if not d.d:
        raise PyRaise(it.make_exc(KeyError, "dictionary is empty"))
    h = list(d.d)[-1 if last else 0]
    v = d.d[h]
    it.ctx.mut_del(d.d, h)
    return v


@method("dict", "move_to_end")
def _d_move(it, a, k):
    d = a[0]
    h = dict_find(it, d, a[1])
    if h is POISON:
        raise PyRaise(it.make_exc(KeyError, a[1]))
    v = d.d[h]
    it.ctx.mut_del(d.d, h)
    it.ctx.mut_dict(d.d, h, v)


@method("dict", "setdefault")
def _d_setdefault(it, a, k):
    d = a[0]
    h = dict_find(it, d, a[1])
    if h is not POISON:
        return dict_get_h(it, d, h)
    v = a[2] if len(a) > 2 else None
    setitem(it, d, a[1], v)
    return v


@method("dict", "update")
def dict_update(it, a, k):
    d = a[0]
    for src in a[1:]:
        src = it.resolve(src)
        if isinstance(src, Obj) and isinstance(src.cls, ClassInfo) and is_mapping_cls(src.cls):
            src = _mm_items(it, [src], {})
        if isinstance(src, Obj) and "items" in src.attrs:
            src = it.call(src.attrs["items"], [])
        if isinstance(src, VDict):
            if src.parts and (d.d or d.parts):
                it.wcheck(d)
                if d.level < it.ctx.sub:
                    it.unsupported("dict.update in generic iteration")
                update_generic(it, d, src)
            elif src.parts:
                it.ctx.mut_list(d.parts, list(src.parts))
            for kk, v in list(src.d.values()):
                setitem(it, d, kk, v)
        else:
            for x in it.iterate(src):
                if isinstance(x, SSeq):
                    x = seq_part(x)
                if isinstance(x, Part):
                    it.wcheck(d)
                    if d.level < it.ctx.sub:
                        it.unsupported("dict.update in generic iteration")
                    it.ctx.mut_append(d.parts, x)
                    continue
                kv = it.to_pylist(x)
                setitem(it, d, kv[0], kv[1])
    for kk, v in k.items():
        setitem(it, d, kk, v)


@method("dict", "copy")
def dict_copy(it, a, k):
    d = VDict(level=it.level)
    d.d = dict(a[0].d)
    d.parts = list(a[0].parts)
    d.default = a[0].default
    return d


@method("dict", "clear")
def _d_clear(it, a, k):
    d = a[0]
    for h in list(d.d):
        it.ctx.mut_del(d.d, h)
    it.ctx.mut_list(d.parts, [])


# ------------------------------------------------------------- external calls


def ext_constant(path):
    if path.startswith("aiohttp.web.HTTP"):
        from . import web

        c = web.WEBEXC.get(path.split(".")[-1])
        if c is not None:
            return c
    return {
        "math.inf": float("inf"),
        "math.nan": float("nan"),
        "math.pi": math.pi,
        "sys.version_info": (3, 12, 3),
        "sys.maxsize": 2**63 - 1,
        "stat.S_IRWXU": 0o700,
        "stat.S_IRUSR": 0o400,
        "stat.S_IWUSR": 0o200,
        "stat.S_IXUSR": 0o100,
        "os.sep": "/",
        "os.O_WRONLY": 1,
        "os.O_CREAT": 64,
        "os.O_TRUNC": 512,
        "os.O_EXCL": 128,
        "collections.OrderedDict": dict,
        "asyncio.CancelledError": ASYNC_CANCELLED,
        "asyncio.TimeoutError": TimeoutError,
        "asyncio.exceptions.CancelledError": ASYNC_CANCELLED,
        "concurrent.futures.CancelledError": ASYNC_CANCELLED,
        "json.JSONDecodeError": json.JSONDecodeError,
        "signal.SIGTERM": 15,
        "signal.SIGKILL": 9,
        "subprocess.PIPE": -1,
        "subprocess.DEVNULL": -3,
        "subprocess.STDOUT": -2,
        "asyncio.subprocess.PIPE": -1,
        "asyncio.subprocess.DEVNULL": -3,
        "asyncio.subprocess.STDOUT": -2,
    }.get(path, POISON)


import asyncio as _aio  # noqa: E402

ASYNC_CANCELLED = _aio.CancelledError

PURE = {}


def pure(path):
    def deco(f):
        PURE[path] = f
        return f

    return deco


def _real(path):
    import importlib

    mod, name = path.rsplit(".", 1)
    return getattr(importlib.import_module(mod), name)


for _p in (
    "math.ceil math.floor math.isnan math.isinf math.isfinite math.sqrt os.path.join os.path.basename os.path.dirname "
    "os.path.abspath base64.b64encode base64.b64decode base64.urlsafe_b64encode base64.urlsafe_b64decode json.dumps json.loads "
    "textwrap.dedent keyword.iskeyword urllib.parse.urlparse shlex.quote"
).split():
    PURE[_p] = None


def call_ext(it, f, a, k):
    p = f.path
    if p in it.lib:
        return it.lib[p](it, a, k)
    fn = EXT.get(p)
    if fn is not None:
        return fn(it, a, k)
    if p in PURE:
        try:
            args = [unwrap_py(it, x) for x in a]
            kw = {kk: unwrap_py(it, v) for kk, v in k.items()}
        except Unsupported:
            g = SYM_PURE.get(p)
            if g is not None:
                return g(it, [it.resolve(x) for x in a], k)
            raise
        try:
            return wrap_py(it, _real(p)(*args, **kw))
        except Exception as e:
            it.raise_(type(e), *e.args)
    h = it.ctx.state.get("ext_hook")
    if h is not None:
        r = h(it, p, a, k)
        if r is not POISON:
            return r
    raise Unsupported(f"call of external {p}")


def _ceil(it, a, k):
    v = a[0]
    if isinstance(v, SInt):
        return v
    return SInt(simp(-z3.ToInt(-v.t)))


def _floor(it, a, k):
    v = a[0]
    return v if isinstance(v, SInt) else SInt(simp(z3.ToInt(v.t)))


def _pjoin(it, a, k):
    out = a[0]
    for x in a[1:]:
        x = it.resolve(x)
        xt, ot = it.sterm(x), it.sterm(out)
        if isinstance(x, str) and x.startswith("/"):
            out = x
            continue
        absx = z3.PrefixOf(z3.StringVal("/"), xt)
        if not isinstance(x, str) and it.ctx.branch(absx):
            out = x
            continue
        if isinstance(out, str):
            out = str_concat(it, [out if out == "" or out.endswith("/") else out + "/", x])
        else:
            e = z3.Or(ot == z3.StringVal(""), z3.SuffixOf(z3.StringVal("/"), ot))
            if it.ctx.branch(e):
                out = str_concat(it, [out, x])
            else:
                out = str_concat(it, [out, "/", x])
    return out


SYM_PURE = {
    "math.ceil": _ceil,
    "math.floor": _floor,
    "math.isnan": lambda it, a, k: False,
    "math.isinf": lambda it, a, k: False,
    "math.isfinite": lambda it, a, k: True,
    "os.path.join": _pjoin,
    "shlex.quote": lambda it, a, k: SStr(z3.Function("shquote", z3.StringSort(), z3.StringSort())(a[0].t)),
}

EXT = {}


def ext(path):
    def deco(f):
        EXT[path] = f
        return f

    return deco


@ext("copy.deepcopy")
def _deepcopy(it, a, k):
    def cp(v):
        v = it.resolve(v)
        if isinstance(v, VList):
            return VList([cp(x) for x in v.items], it.level)
        if isinstance(v, VDict):
            d = VDict(level=it.level)
            d.d = {h: (kk, cp(x)) for h, (kk, x) in v.d.items()}
            d.parts = list(v.parts)
            return d
        if isinstance(v, VSet):
            return VSet(v.items, it.level)
        if isinstance(v, tuple):
            return tuple(cp(x) for x in v)
        if isinstance(v, Obj):
            return Obj(v.cls, {n: cp(x) for n, x in v.attrs.items()}, it.level)
        return v

    return cp(a[0])


EXT["copy.copy"] = lambda it, a, k: (
    dict_copy(it, a, k) if isinstance(a[0], VDict) else VList(a[0].items, it.level) if isinstance(a[0], VList) else VSet(a[0].items, it.level) if isinstance(a[0], VSet) else a[0]
)


@ext("functools.partial")
def _partial(it, a, k):
    return Partial(a[0], a[1:], k)


EXT["functools.lru_cache"] = lambda it, a, k: a[0] if a and isinstance(a[0], (FuncV, Native, BoundV)) else Native("lru_cache", lambda it2, a2, k2: a2[0])
EXT["functools.wraps"] = lambda it, a, k: Native("wraps", lambda it2, a2, k2: a2[0])


@ext("collections.defaultdict")
def _defaultdict(it, a, k):
    d = VDict(level=it.level)
    d.default = a[0] if a else None
    if len(a) > 1:
        dict_update(it, [d, a[1]], {})
    return d


EXT["collections.deque"] = lambda it, a, k: VList(it.iterate(a[0]) if a else [], it.level)


@ext("itertools.chain")
def _chain(it, a, k):
    out = []
    for x in a:
        out.extend(it.iterate(x))
    return VList(out, it.level)


@ext("itertools.chain.from_iterable")
def _chainf(it, a, k):
    return _chain(it, it.to_pylist(a[0]), {})


@ext("itertools.islice")
def _islice(it, a, k):
    a = [it.resolve(x) if not isinstance(x, (LazyGen, GenV)) else x for x in a]
    items = it.iterate(a[0])
    if len(a) == 2:
        start, stop = None, a[1]
    else:
        start, stop = a[1], a[2]
    if is_sym(stop):
        if it.ctx.branch(stop.t < 0):
            it.raise_(ValueError, "Stop argument for islice() must be None or >= 0")
    elif isinstance(stop, int) and stop < 0:
        it.raise_(ValueError, "Stop argument for islice() must be None or >= 0")
    return it.getitem(VList(items, it.level), slice(start, stop, None))


@ext("uuid.uuid4")
def _uuid(it, a, k):
    t = it.ctx.fresh("uuid", z3.StringSort())
    for u in it.ctx.state.setdefault("uuids", []):
        it.ctx.assume(t != u)
    it.ctx.assume(z3.Length(t) == 32)
    it.ctx.mut_append(it.ctx.state["uuids"], t)
    h = it.ctx.state.get("uuid_hook")
    if h:
        h(it, t)
    return Obj("UUID", {"hex": SStr(t), "__closed__": True}, it.level)


def instantiate_ext(it, ci, a, k):
    p = "init:" + ci.qual
    if p in it.overrides:
        return it.overrides[p](it, a, k)
    it.unsupported(f"constructor of {ci.qual} in external base")
