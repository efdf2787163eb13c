"""Symbolic interpreter for Python ASTs."""
import ast
import builtins
import math
import os

import z3

from .core import *
from .core import PyRaise
from .vals import *

_BINOPS = {
    ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//",
    ast.Mod: "%", ast.Pow: "**", ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^",
    ast.LShift: "<<", ast.RShift: ">>",
}
_CMP = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}


class Env:
    __slots__ = ("vars", "parent", "module", "cls", "self_", "level", "yields", "globals_", "nonlocals", "func")

    def __init__(self, parent, module, level=0):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.cls = parent.cls if parent else None
        self.self_ = parent.self_ if parent else None
        self.level = level
        self.yields = None
        self.nonlocals = set()
        self.globals_ = set()
        self.func = None


class Module:
    def __init__(self, name, path, src):
        self.name = name
        self.path = path
        self.src = src
        self.tree = ast.parse(src, path)
        self.is_pkg = path.endswith("__init__.py")
        self.defs = {}
        self.values = {}
        self._index(self.tree.body)

    def _index(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                self.defs[n.name] = n
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    for nm in ast.walk(t):
                        if isinstance(nm, ast.Name) and isinstance(nm.ctx, ast.Store):
                            self.defs[nm.id] = n
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value:
                self.defs[n.target.id] = n
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.defs[(a.asname or a.name).split(".")[0]] = n
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    self.defs[a.asname or a.name] = n
            elif isinstance(n, ast.If):
                if isinstance(n.test, ast.Compare) and "version_info" in ast.dump(n.test):
                    import sys

                    ok = eval(compile(ast.Expression(n.test), "x", "eval"), {"sys": sys})
                    self._index(n.body if ok else n.orelse)
                else:
                    self._index(n.body)
            elif isinstance(n, ast.Try):
                self._index(n.body)


class Repo:
    """Loads repository modules from source on demand."""

    ROOTS = {
        "dask_gateway_server": "dask-gateway-server/dask_gateway_server",
        "dask_gateway": "dask-gateway/dask_gateway",
    }

    def __init__(self, base="/repo"):
        self.base = base
        self.mods = {}

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        parts = name.split(".")
        if name.startswith("go_"):
            from contracts import golang

            src = golang.source(self.base, name)
            m = self.mods[name] = None if src is None else Module(name, name + ".go.py", src)
            return m
        if parts[0] not in self.ROOTS:
            return None
        p = os.path.join(self.base, self.ROOTS[parts[0]], *parts[1:])
        path = None
        if os.path.isfile(p + ".py"):
            path = p + ".py"
        elif os.path.isfile(os.path.join(p, "__init__.py")):
            path = os.path.join(p, "__init__.py")
        if path is None:
            self.mods[name] = None
            return None
        with open(path) as f:
            src = f.read()
        m = Module(name, path, src)
        self.mods[name] = m
        return m


def _collect_nonlocal(body):
    nl, gl = set(), set()
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Nonlocal):
            nl.update(n.names)
        elif isinstance(n, ast.Global):
            gl.update(n.names)
        elif not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(n))
    return nl, gl


_gen_cache = {}


def _has_yield(node):
    r = _gen_cache.get(id(node))
    if r is not None:
        return r[1]
    res = False
    stack = list(node.body) if isinstance(node.body, list) else [node.body]
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            res = True
            break
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    _gen_cache[id(node)] = (node, res)
    return res


_CMPX = {
    ast.Eq: ("==", "=="), ast.NotEq: ("!=", "!="), ast.Lt: ("<", ">"), ast.LtE: ("<=", ">="), ast.Gt: (">", "<"), ast.GtE: (">=", "<="),
}


class Interp:
    MAXDEPTH = 60

    def __init__(self, ctx, repo, overrides=None, lib=None):
        self.ctx = ctx
        self.repo = repo
        self.overrides = overrides or {}
        self.lib = lib if lib is not None else {}
        self.classes = {}
        self.depth = 0
        self.attr_hooks = {}  # SRef class name -> fn(it, ref, name) or fields
        self.fields = {}  # (clsname, field) -> (Store, arg builder)
        self.exc_stack = []
        self.called = set()
        self.inlined = set()
        self.max_unroll = 64
        self.steps = 0

    # ------------------------------------------------------------ utilities
    @property
    def level(self):
        return self.ctx.sub

    def unsupported(self, msg, node=None):
        loc = f" (line {node.lineno})" if node is not None and hasattr(node, "lineno") else ""
        raise Unsupported(msg + loc)

    def raise_(self, pycls, *args):
        raise PyRaise(self.make_exc(pycls, *args))

    def make_exc(self, cls, *args, **attrs):
        o = Obj(cls, {"args": tuple(args)}, level=self.level)
        o.attrs.update(attrs)
        return o

    def wcheck(self, o):
        if o.tmp:
            raise Unsupported("mutation of an object derived from a generic element")

    def log(self, *e):
        lg = self.ctx.state.get("efflog")
        if lg is not None:
            self.ctx.mut_append(lg, e)

    # --------------------------------------------------------- name lookup
    def global_lookup(self, module, name):
        if name in module.values:
            return module.values[name]
        key = f"{module.name}.{name}"
        if key in self.overrides:
            v = self.overrides[key]
            v = v if not callable(v) or isinstance(v, (Native, FuncV, ClassInfo)) else Native(key, v)
            return v
        node = module.defs.get(name)
        if node is None:
            return POISON
        v = self._eval_global(module, name, node)
        module_cache = self.ctx.state.setdefault("globals", {})
        module_cache[(module.name, name)] = v
        return v

    def _eval_global(self, module, name, node):
        cache = self.ctx.state.setdefault("globals", {})
        if (module.name, name) in cache:
            return cache[(module.name, name)]
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            env = Env(None, module)
            v = f = self.make_func(node, env, None)
            for d in reversed(node.decorator_list):
                if any(isinstance(x, ast.Name) and x.id == "click" for x in ast.walk(d)):
                    continue
                v = self.call(self.ev(d, env), [v])
            return v
        if isinstance(node, ast.ClassDef):
            return self.make_class(node, module)
        if isinstance(node, ast.ImportFrom):
            return self._import_from(module, name, node)
        if isinstance(node, ast.Import):
            for a in node.names:
                top = (a.asname or a.name).split(".")[0]
                if top == name:
                    tgt = a.name if a.asname else a.name.split(".")[0]
                    return self.ext_or_repo(tgt)
        if isinstance(node, (ast.Assign, ast.AnnAssign)):
            env = Env(None, module)
            saved = self.ctx.state.get("efflog")
            v = self.ev(node.value, env)
            targets = node.targets if isinstance(node, ast.Assign) else [node.target]
            for t in targets:
                if isinstance(t, ast.Name) and t.id == name:
                    return v
                if isinstance(t, ast.Tuple):
                    vals = self.to_pylist(v)
                    for tt, vv in zip(t.elts, vals):
                        if isinstance(tt, ast.Name) and tt.id == name:
                            return vv
        self.unsupported(f"global {name}")

    def ext_or_repo(self, path):
        m = self.repo.load(path)
        if m is not None:
            return ModuleV(path)
        return ExtV(path)

    def _import_from(self, module, name, node):
        base = node.module or ""
        if node.level:
            parts = module.name.split(".")
            if not module.is_pkg:
                parts = parts[:-1]
            parts = parts[: len(parts) - (node.level - 1)]
            base = ".".join(parts + ([base] if base else []))
        for a in node.names:
            if (a.asname or a.name) == name:
                m = self.repo.load(base)
                if m is not None:
                    v = self.global_lookup(m, a.name)
                    if v is not POISON:
                        return v
                    sub = self.repo.load(base + "." + a.name)
                    if sub is not None:
                        return ModuleV(base + "." + a.name)
                    self.unsupported(f"import {a.name} from {base}")
                sub = self.repo.load(base + "." + a.name)
                if sub is not None:
                    return ModuleV(base + "." + a.name)
                return self.ext_value(base + "." + a.name)
        self.unsupported(f"import {name}")

    def ext_value(self, path):
        """Value of an external dotted name."""
        if path in self.overrides:
            v = self.overrides[path]
            return Native(path, v) if callable(v) and not isinstance(v, (Native, ClassInfo, type)) else v
        if path in self.lib:
            v = self.lib[path]
            return Native(path, v) if callable(v) and not isinstance(v, (Native, type)) else v
        from . import models

        v = models.ext_constant(path)
        if v is not POISON:
            return v
        return ExtV(path)

    def lookup(self, name, env):
        e = env
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                if v is POISON:
                    self.unsupported(f"variable {name} has no single value here")
                self.log_read_var(e, name)
                return v
            e = e.parent
        v = self.global_lookup(env.module, name)
        if v is not POISON:
            return v
        return self.builtin(name)

    def log_read_var(self, e, name):
        lg = self.ctx.state.get("efflog")
        if lg is not None and e.level < self.ctx.sub:
            lg.append(("rvar", e, name, e.vars[name]))

    def builtin(self, name):
        from . import models

        if name in models.BUILTINS:
            return Native(name, models.BUILTINS[name])
        if hasattr(builtins, name):
            v = getattr(builtins, name)
            if isinstance(v, type) and issubclass(v, BaseException):
                return v
            if name in ("int", "str", "float", "bool", "list", "dict", "set", "tuple", "bytes", "object", "type", "frozenset"):
                return v
            if name in ("True", "False", "None", "NotImplemented", "Ellipsis"):
                return v
        if name == "__name__":
            return "module"
        if name == "__file__":
            return "/repo/file.py"
        self.raise_(NameError, f"name {name!r} is not defined")

    # -------------------------------------------------------------- classes
    def get_class(self, qual):
        mod, name = qual.rsplit(".", 1)
        m = self.repo.load(mod)
        if m is None:
            raise Unsupported(f"module {mod} not found")
        v = self.global_lookup(m, name)
        if not isinstance(v, ClassInfo):
            raise Unsupported(f"{qual} is not a class")
        return v

    def get_func(self, qual):
        """module.func or module.Class.method"""
        parts = qual.split(".")
        for k in range(len(parts) - 1, 0, -1):
            m = self.repo.load(".".join(parts[:k]))
            if m is not None:
                rest = parts[k:]
                v = self.global_lookup(m, rest[0])
                if v is POISON:
                    raise Unsupported(f"{qual}: not found")
                for r in rest[1:]:
                    if not isinstance(v, ClassInfo):
                        raise Unsupported(f"{qual}: not a class")
                    v, _ = v.lookup(r)
                    if v is None:
                        raise Unsupported(f"{qual}: not found")
                return v
        raise Unsupported(f"{qual}: not found")

    def make_class(self, node, module):
        key = (module.name, node.name)
        tbl = self.classes
        if key in tbl:
            return tbl[key]
        ci = ClassInfo(node.name, module, node)
        tbl[key] = ci
        env = Env(None, module)
        for b in node.bases:
            try:
                bv = self.ev(b, env)
            except PyRaise:
                bv = ExtV(ast.unparse(b))
            ci.bases.append(bv)
        is_enum = False
        for c in ci.mro():
            for b in c.bases:
                if isinstance(b, ExtV) and b.path.split(".")[-1] in ("IntEnum", "Enum"):
                    is_enum = True
        cenv = Env(None, module)
        cenv.cls = ci
        if is_enum:
            ci.enum = {}
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                qual = f"{ci.qual}.{st.name}"
                f = self.make_func(st, cenv, ci)
                prev = ci.attrs.get(st.name)
                v = self._method_decorators(f, st, prev, cenv)
                ci.attrs[st.name] = v
                cenv.vars[st.name] = v
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        if is_enum:
                            val = ast.literal_eval(st.value)
                            m = EnumMember(ci, t.id, val)
                            ci.enum[t.id] = m
                            ci.attrs[t.id] = m
                        else:
                            ci.attrs[t.id] = LazyAttr(st.value, cenv)
                            cenv.vars.pop(t.id, None)
            elif isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name):
                ci.attrs[st.target.id] = LazyAttr(st.value, cenv)
        cenv.vars.clear()
        return ci

    def _method_decorators(self, f, st, prev, env):
        v = f
        for d in reversed(st.decorator_list):
            if isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod"):
                f.kind = d.id
            elif isinstance(d, ast.Name) and d.id == "property":
                v = PropV(f)
            elif isinstance(d, ast.Attribute) and d.attr == "setter":
                v = PropV(prev.getter if isinstance(prev, PropV) else None, f)
            else:
                # traitlets decorators (@default, @validate, @observe) and
                # others: the plain function stays reachable
                f.deco = getattr(f, "deco", []) + [ast.unparse(d)]
        return v

    def make_func(self, node, env, cls):
        is_async = isinstance(node, ast.AsyncFunctionDef)
        f = FuncV(node, env.module, env, cls, is_async=is_async)
        a = node.args
        f.defaults = [LazyAttr(d, env) for d in a.defaults]
        f.kwdefaults = [LazyAttr(d, env) if d is not None else None for d in a.kw_defaults]
        return f

    def force(self, v):
        while isinstance(v, LazyAttr):
            v = v.get(self)
        return v

    # ---------------------------------------------------------------- calls
    def call(self, f, args=(), kwargs=None, node=None):
        kwargs = kwargs or {}
        from . import models

        if isinstance(f, Dyn):
            f = self.resolve(f)
        if isinstance(f, BoundV):
            return self.call(f.func, [f.self_] + list(args), kwargs, node)
        if isinstance(f, Native):
            return f.fn(self, list(args), dict(kwargs))
        if isinstance(f, FuncV):
            return self.call_func(f, list(args), dict(kwargs), node)
        if isinstance(f, Partial):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.fn, list(f.args) + list(args), kw, node)
        if isinstance(f, ClassInfo):
            return self.instantiate(f, list(args), dict(kwargs), node)
        if isinstance(f, type):
            return models.call_type(self, f, list(args), dict(kwargs))
        if isinstance(f, ExtV):
            if f.path in self.overrides:
                return self.overrides[f.path](self, list(args), dict(kwargs))
            return models.call_ext(self, f, list(args), dict(kwargs))
        if isinstance(f, Obj):
            m, _ = f.cls.lookup("__call__") if isinstance(f.cls, ClassInfo) else (None, None)
            if m is not None:
                return self.call_func(m, [f] + list(args), dict(kwargs), node)
            if "__call__" in f.attrs:
                return self.call(f.attrs["__call__"], args, kwargs, node)
        if isinstance(f, SRef) or isinstance(f, SOpaque):
            h = self.attr_hooks.get("call:" + str(getattr(f, "kind", getattr(f.cls if isinstance(f, SRef) else None, "name", ""))))
            if h:
                return h(self, f, list(args), dict(kwargs))
        if f is None:
            self.raise_(TypeError, "'NoneType' object is not callable")
        self.unsupported(f"call of {f!r}", node)

    def instantiate(self, ci, args, kwargs, node=None):
        if ci.qual in self.overrides:
            return self.overrides[ci.qual](self, args, kwargs)
        if ci.enum is not None:
            v = args[0]
            if isinstance(v, (SEnum,)):
                return v
            if isinstance(v, EnumMember):
                return v
            if isinstance(v, SInt):
                for m in ci.enum.values():
                    if self.ctx.branch(v.t == m.value):
                        return m
                self.raise_(ValueError, "not a valid enum value")
            for m in ci.enum.values():
                if m.value == v:
                    return m
            self.raise_(ValueError, f"{v!r} is not a valid {ci.name}")
        o = Obj(ci, level=self.level)
        if ci.pybases() and any(issubclass(b, BaseException) for b in ci.pybases()):
            o.attrs["args"] = tuple(args)
        init, owner = ci.lookup("__init__")
        if init is not None:
            self.call(init, [o] + args, kwargs, node)
        elif args and "args" not in o.attrs:
            from . import models

            return models.instantiate_ext(self, ci, args, kwargs)
        return o

    def bind(self, f, args, kwargs):
        node = f.node
        a = node.args
        env = Env(f.env, f.module, self.level)
        env.cls = f.cls or f.env.cls
        env.func = f
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        if len(args) > len(names):
            if a.vararg:
                vals[a.vararg.arg] = tuple(args[len(names):])
                args = args[: len(names)]
            else:
                self.raise_(TypeError, f"{f.name}() takes {len(names)} positional arguments")
        elif a.vararg:
            vals[a.vararg.arg] = ()
        for n, v in zip(names, args):
            vals[n] = v
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = VDict(level=self.level)
        for k, v in kwargs.items():
            if k in names or k in kwonly:
                if k in vals:
                    self.raise_(TypeError, f"{f.name}() got multiple values for argument {k!r}")
                vals[k] = v
            elif a.kwarg:
                extra.d[hk(k)] = (k, v)
            else:
                self.raise_(TypeError, f"{f.name}() got an unexpected keyword argument {k!r}")
        if a.kwarg:
            vals[a.kwarg.arg] = extra
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in vals:
                j = i - (len(names) - nd)
                if j >= 0:
                    vals[n] = self.force(f.defaults[j])
                else:
                    self.raise_(TypeError, f"{f.name}() missing argument {n!r}")
        for n, d in zip(kwonly, f.kwdefaults):
            if n not in vals:
                if d is None:
                    self.raise_(TypeError, f"{f.name}() missing keyword argument {n!r}")
                vals[n] = self.force(d)
        env.vars = vals
        if names and f.cls is not None and f.kind is None:
            env.self_ = vals.get(names[0])
        return env

    def call_func(self, f, args, kwargs, node=None, force_inline=False):
        qual = f.qual
        ov = None if force_inline else self.overrides.get(qual)
        if ov is not None:
            self.called.add(qual)
            if isinstance(ov, (FuncV, Native)):
                return self.call(ov, args, kwargs)
            r = ov(self, args, kwargs)
            if f.is_async and not _has_yield(f.node):
                return Coro(lambda: r() if callable(r) and getattr(r, "_coro", False) else r, qual)
            return r
        if isinstance(f.node, ast.Lambda):
            env = self.bind(f, args, kwargs)
            self.enter(f)
            try:
                return self.ev(f.node.body, env)
            finally:
                self.depth -= 1
        if any(isinstance(d, (ast.Name, ast.Call, ast.Attribute)) for d in f.node.decorator_list) and f.cls is None:
            for d in f.node.decorator_list:
                t = ast.unparse(d)
                if t.split("(")[0] not in ("wraps", "functools.wraps", "field_doc", "staticmethod") and not t.startswith(("default_routes", "api_handler")):
                    if t.split("(")[0].split(".")[-1] in ("contextmanager", "lru_cache", "cache"):
                        self.unsupported(f"decorator {t}", node)
        if _has_yield(f.node):
            env = self.bind(f, args, kwargs)
            return GenV(lambda: self.run_gen(f, env), f.is_async)
        if f.is_async:
            env = self.bind(f, args, kwargs)
            return Coro(lambda: self.run_body(f, env), qual)
        env = self.bind(f, args, kwargs)
        return self.run_body(f, env)

    def enter(self, f):
        self.depth += 1
        self.inlined.add(f.qual)
        if self.depth > self.MAXDEPTH:
            self.unsupported(f"recursion too deep at {f.qual}")

    def run_body(self, f, env):
        self.enter(f)
        nl, gl = _collect_nonlocal(f.node.body)
        env.nonlocals, env.globals_ = nl, gl
        try:
            self.ex_block(f.node.body, env)
        except ReturnEx as r:
            return r.val
        finally:
            self.depth -= 1
        return None

    def run_gen(self, f, env):
        """Eager evaluation of a generator: list of yielded values."""
        env.yields = VList(level=self.level)
        self.enter(f)
        env.nonlocals, env.globals_ = _collect_nonlocal(f.node.body)
        try:
            self.ex_block(f.node.body, env)
        except ReturnEx:
            pass
        finally:
            self.depth -= 1
        return env.yields

    def await_(self, v, node=None):
        if isinstance(v, Dyn):
            v = self.resolve(v)
        if isinstance(v, Coro):
            r = v.thunk()
            return r
        if isinstance(v, Obj):
            if "__await__" in v.attrs:
                return self.call(v.attrs["__await__"], [])
            if isinstance(v.cls, ClassInfo):
                m, _ = v.cls.lookup("__await__")
                if m is not None:
                    return self.call(m, [v])
        if isinstance(v, SRef):
            h = self.attr_hooks.get("await:" + getattr(v.cls, "name", str(v.cls)))
            if h:
                return h(self, v)
        if v is None:
            return None
        self.unsupported(f"await of {v!r}", node)

    # ------------------------------------------------------------ dyn/opt
    def resolve(self, v):
        """Fork a lazily typed value into one of its alternatives."""
        if isinstance(v, Dyn):
            if v.chosen is None:
                i = self.ctx.choose([a[1] for a in v.alts])
                lab, _, thunk = v.alts[i]
                val = thunk()
                self.ctx.mut_attr(v, "chosen", (lab, val))
                self.ctx.mut_dict(self.ctx.cex_vals, "dyn:" + v.name, lab)
            return self.resolve(v.chosen[1])
        if isinstance(v, SOpt):
            if self.ctx.branch(v.none):
                return None
            return v.val
        return v

    def truth(self, v):
        """Python bool of truthiness (forks)."""
        t = self.truth_term(v)
        return self.ctx.branch(t)

    def truth_term(self, v):
        v = self.resolve(v)
        if v is None or isinstance(v, (bool, int, float, str, bytes, tuple)):
            return bool(v)
        if isinstance(v, SBool):
            return v.t
        if isinstance(v, SInt):
            return v.t != 0
        if isinstance(v, SReal):
            return v.t != 0
        if isinstance(v, (SStr, SBytes)):
            return v.t != z3.StringVal("")
        if isinstance(v, (VList, VSet, VDict)):
            return self.nonempty(v)
        if isinstance(v, SSeq):
            return v.n > 0
        if isinstance(v, SSet):
            if v.card is not None:
                return v.card > 0
            self.unsupported("truth of symbolic set")
        if isinstance(v, EnumMember):
            return bool(v.value) if isinstance(v.value, int) else True
        if isinstance(v, SEnum):
            return v.t != 0
        if isinstance(v, Obj):
            if isinstance(v.cls, ClassInfo):
                m, _ = v.cls.lookup("__bool__")
                if m:
                    return self.truth_term(self.call(m, [v]))
                m, _ = v.cls.lookup("__len__")
                if m:
                    return self.truth_term(self.call(m, [v]))
            if "__bool__" in v.attrs:
                return self.truth_term(self.call(v.attrs["__bool__"], []))
            if "__len__" in v.attrs:
                return self.truth_term(self.call(v.attrs["__len__"], []))
            return True
        if isinstance(v, (SRef, FuncV, BoundV, ClassInfo, Native, ExtV, ModuleV, Partial, Coro, GenV)):
            h = self.attr_hooks.get("truth:" + getattr(getattr(v, "cls", None), "name", "")) if isinstance(v, SRef) else None
            if h:
                return h(self, v)
            return True
        if isinstance(v, type):
            return True
        if isinstance(v, SOpaque):
            h = self.attr_hooks.get("truth:" + v.kind)
            if h:
                return h(self, v)
        self.unsupported(f"truth of {v!r}")

    def nonempty(self, v):
        items = v.d if isinstance(v, VDict) else v.items
        parts = v.parts if isinstance(v, VDict) else [x for x in v.items if isinstance(x, (Part, SSeq))]
        if isinstance(v, VDict):
            if v.d:
                return True
        elif any(not isinstance(x, (Part, SSeq)) for x in items):
            return True
        if not parts:
            return False
        return self.nonempty_parts(parts)

    def nonempty_parts(self, parts):
        """Forks: each part empty (universal) or has a witness."""
        for p in parts:
            if isinstance(p, SSeq):
                if self.ctx.branch(p.n > 0):
                    return True
                continue
            c = self.ctx.fresh("ne", z3.BoolSort())
            if self.ctx.branch(c):
                xs = self.fresh_elem(p)
                return True
            else:
                self.ctx.forall_t(p.sorts, lambda *xs, p=p: z3.Not(p.guard(*xs)), "empty")
        return False

    def fresh_elem(self, p, base="x"):
        xs = []
        for s in p.sorts:
            srt = z3.IntSort() if s == "Int" else (z3.StringSort() if s == "Str" else ref_sort(s))
            x = self.ctx.fresh(f"{base}_{s}", srt)
            xs.append(x)
        self.ctx.assume(p.guard(*xs))
        for s, x in zip(p.sorts, xs):
            self.ctx.know(s, x)
        return tuple(xs)

    # ------------------------------------------------------------ equality
    def eq(self, a, b):
        """Python bool or z3 Bool."""
        if a is b:
            if isinstance(a, float) and a != a:
                return False
            return True
        a, b = self.resolve(a), self.resolve(b)
        if a is b:
            return not (isinstance(a, float) and a != a)
        if isinstance(a, EnumMember) or isinstance(b, EnumMember) or isinstance(a, SEnum) or isinstance(b, SEnum):
            ta, tb = self.num_or_none(a), self.num_or_none(b)
            if isinstance(a, (EnumMember, SEnum)) and isinstance(b, (EnumMember, SEnum)) and not self.is_int_enum(a) and a.cls is not b.cls:
                return False
            if ta is None or tb is None:
                return False
            return self._numcmp("==", ta, tb)
        conc = (type(None), bool, int, float, str, bytes)
        if isinstance(a, conc) and isinstance(b, conc):
            return a == b
        na, nb = self.num_or_none(a), self.num_or_none(b)
        if na is not None and nb is not None:
            return self._numcmp("==", na, nb)
        if na is not None or nb is not None:
            return False
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return simp(self.sterm(a) == self.sterm(b))
        if isinstance(a, (bytes, SBytes)) and isinstance(b, (bytes, SBytes)):
            return simp(self.bterm(a) == self.bterm(b))
        if isinstance(a, SOpaque) and isinstance(b, SOpaque):
            return simp(a.t == b.t)
        if isinstance(a, SOpaque) or isinstance(b, SOpaque):
            o, c = (a, b) if isinstance(a, SOpaque) else (b, a)
            h = self.attr_hooks.get("eq:" + o.kind)
            if h:
                return h(self, o, c)
            if c is None:
                return False
            return simp(o.t == self.ctx.intern(c))
        if isinstance(a, SRef) and isinstance(b, SRef):
            if a.t.sort() == b.t.sort():
                return simp(a.t == b.t)
            return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return self.and_terms([self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, VList) and isinstance(b, VList) and not any(isinstance(x, (Part, SSeq)) for x in a.items + b.items):
            if len(a.items) != len(b.items):
                return False
            return self.and_terms([self.eq(x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, VDict) and isinstance(b, VDict) and not a.parts and not b.parts:
            if all(key_concrete(k) for k, _ in list(a.d.values()) + list(b.d.values())):
                if set(a.d) != set(b.d):
                    return False
                return self.and_terms([self.eq(a.d[k][1], b.d[k][1]) for k in a.d])
        if isinstance(a, VSet) and isinstance(b, VSet) and all(key_concrete(x) for x in a.items + b.items):
            return set(map(hk, a.items)) == set(map(hk, b.items))
        if isinstance(a, Obj) and isinstance(a.cls, ClassInfo):
            m, _ = a.cls.lookup("__eq__")
            if m:
                return self.truth_term(self.call(m, [a, b]))
        for o, c in ((a, b), (b, a)):
            h = self.attr_hooks.get("eq:" + getattr(o.cls, "name", "")) if isinstance(o, SRef) else None
            if h is not None:
                return h(self, o, c)
        if isinstance(a, (Obj, SRef)) or isinstance(b, (Obj, SRef)):
            return False
        if type(a) is not type(b) and not (isinstance(a, V) and isinstance(b, V) and type(a) is type(b)):
            return False
        if isinstance(a, (ClassInfo, FuncV, Native, ExtV, ModuleV, type)):
            return a is b or (isinstance(a, ExtV) and isinstance(b, ExtV) and a.path == b.path)
        self.unsupported(f"equality of {a!r} and {b!r}")

    def and_terms(self, ts):
        out = []
        for t in ts:
            if t is False:
                return False
            if t is True:
                continue
            if is_false(t):
                return False
            if is_true(t):
                continue
            out.append(t)
        if not out:
            return True
        return z3.And(out)

    def is_int_enum(self, a):
        for c in a.cls.mro():
            for b in c.bases:
                if isinstance(b, ExtV) and b.path.split(".")[-1] == "IntEnum":
                    return True
        return False

    def sterm(self, v):
        return z3.StringVal(v) if isinstance(v, str) else v.t

    def bterm(self, v):
        return z3.StringVal(v.decode("latin1")) if isinstance(v, bytes) else v.t

    def num_or_none(self, v):
        """('c', python number) | ('i', term) | ('r', term)"""
        if isinstance(v, bool):
            return ("c", int(v))
        if isinstance(v, (int, float)):
            return ("c", v)
        if isinstance(v, SInt):
            return ("i", v.t)
        if isinstance(v, SReal):
            return ("r", v.t)
        if isinstance(v, SBool):
            return ("i", z3.If(v.t, 1, 0))
        if isinstance(v, EnumMember) and isinstance(v.value, int) and self.is_int_enum(v):
            return ("c", v.value)
        if isinstance(v, EnumMember) and isinstance(v.value, int):
            return ("c", v.value)
        if isinstance(v, SEnum):
            return ("i", v.t)
        return None

    def _nt(self, n, real):
        k, v = n
        if k == "c":
            if isinstance(v, float) and not math.isfinite(v):
                return None
            return z3.RealVal(repr(v) if isinstance(v, float) else v) if real or isinstance(v, float) else z3.IntVal(v)
        if real and k == "i":
            return z3.ToReal(v)
        return v

    def _numcmp(self, op, a, b):
        if a[0] == "c" and b[0] == "c":
            x, y = a[1], b[1]
            return {"==": x == y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
        # non-finite constants
        for p, q, flip in ((a, b, False), (b, a, True)):
            if p[0] == "c" and isinstance(p[1], float) and not math.isfinite(p[1]):
                x, y = p[1], 0.0
                if flip:
                    x, y = y, x
                return {"==": x == y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
        real = a[0] == "r" or b[0] == "r" or any(p[0] == "c" and isinstance(p[1], float) for p in (a, b))
        x, y = self._nt(a, real), self._nt(b, real)
        return simp({"==": lambda: x == y, "<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y}[op]())

    def compare(self, op, a, b, node=None):
        a, b = self.resolve(a), self.resolve(b)
        na, nb = self.num_or_none(a), self.num_or_none(b)
        if na is not None and nb is not None:
            return self._numcmp(op, na, nb)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return self._tuple_lt(op, a, b)
        if isinstance(a, str) and isinstance(b, str) or isinstance(a, bytes) and isinstance(b, bytes):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            x, y = self.sterm(a), self.sterm(b)
            return {"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: y < x, ">=": lambda: y <= x}[op]()
        if isinstance(a, (VSet, SSet)) and isinstance(b, (VSet, SSet)):
            self.unsupported("set comparison", node)
        if isinstance(a, Obj) and isinstance(a.cls, ClassInfo) or isinstance(b, Obj) and isinstance(b.cls, ClassInfo):
            nm = {"<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}[op]
            if isinstance(a, Obj) and a.cls.lookup(nm)[0]:
                return self.truth_term(self.call(a.cls.lookup(nm)[0], [a, b]))
        self.raise_(TypeError, f"'{op}' not supported between these types")

    def _tuple_lt(self, op, a, b):
        # lexicographic
        if op in (">", ">="):
            return self._tuple_lt({">": "<", ">=": "<="}[op], b, a)
        n = min(len(a), len(b))
        res = (len(a) < len(b)) if op == "<" else (len(a) <= len(b))
        res = z3.BoolVal(res)
        for i in reversed(range(n)):
            e = self.eq(a[i], b[i])
            l = self.compare("<", a[i], b[i])
            e = z3.BoolVal(e) if isinstance(e, bool) else e
            l = z3.BoolVal(l) if isinstance(l, bool) else l
            res = z3.Or(l, z3.And(e, res))
        return simp(res)

    def mkbool(self, t):
        if isinstance(t, bool):
            return t
        return lift(SBool(t))

    # ----------------------------------------------------------- arithmetic
    def binop(self, op, a, b, node=None):
        from . import models

        a, b = self.resolve(a), self.resolve(b)
        conc = (bool, int, float)
        if isinstance(a, conc) and isinstance(b, conc):
            try:
                return {
                    "+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b,
                    "/": lambda: a / b, "//": lambda: a // b, "%": lambda: a % b,
                    "**": lambda: a**b, "|": lambda: a | b, "&": lambda: a & b, "^": lambda: a ^ b,
                    "<<": lambda: a << b, ">>": lambda: a >> b,
                }[op]()
            except (ZeroDivisionError, OverflowError, TypeError, ValueError) as e:
                self.raise_(type(e), str(e))
        na, nb = self.num_or_none(a), self.num_or_none(b)
        if na is not None and nb is not None:
            return self.arith(op, na, nb, a, b, node)
        return models.binop_other(self, op, a, b, node)

    def arith(self, op, na, nb, a, b, node):
        def nonfinite(n):
            return n[0] == "c" and isinstance(n[1], float) and not math.isfinite(n[1])

        if nonfinite(na) or nonfinite(nb):
            for n, other, first in ((na, nb, True), (nb, na, False)):
                if nonfinite(n):
                    if n[1] != n[1]:
                        return float("nan")
                    if op in ("+",):
                        return n[1]
                    if op == "-":
                        return n[1] if first else -n[1]
                    self.unsupported("arithmetic with infinity", node)
        if op == "**":
            return self.power(na, nb, a, b, node)
        p2 = getattr(a, "pow2", None) or getattr(b, "pow2", None)
        if p2 is not None and op == "*":
            # int 2**k multiplied with a float: int -> float conversion
            other = nb if getattr(a, "pow2", None) is not None else na
            if other[0] == "r" or (other[0] == "c" and isinstance(other[1], float)):
                if self.ctx.branch(p2 >= 1024):
                    self.raise_(OverflowError, "int too large to convert to float")
        real = na[0] == "r" or nb[0] == "r" or any(n[0] == "c" and isinstance(n[1], float) for n in (na, nb)) or op == "/"
        x, y = self._nt(na, real), self._nt(nb, real)
        mk = SReal if real else SInt
        if op == "+":
            return lift(mk(simp(x + y)))
        if op == "-":
            return lift(mk(simp(x - y)))
        if op == "*":
            return lift(mk(simp(x * y)))
        if op in ("/", "//", "%"):
            if self.ctx.branch(y == 0):
                self.raise_(ZeroDivisionError, "division by zero")
            if op == "/":
                return mk(simp(x / y))
            if real:
                q = z3.ToReal(z3.ToInt(x / y))
                return SReal(simp(q)) if op == "//" else SReal(simp(x - y * q))
            fl = z3.If(y > 0, x / y, z3.If(x % (-y) == 0, -(x / (-y)), -(x / (-y)) - 1))
            if z3.is_int_value(simp(y)) and simp(y).as_long() > 0:
                fl = x / y
            return lift(SInt(simp(fl))) if op == "//" else lift(SInt(simp(x - y * fl)))
        self.unsupported(f"symbolic {op}", node)

    def power(self, na, nb, a, b, node):
        if na == ("c", 2) and nb[0] == "i":
            k = nb[1]
            f = z3.Function("pow2", z3.IntSort(), z3.IntSort())
            if self.ctx.branch(k < 0):
                r = z3.Function("pow2r", z3.IntSort(), z3.RealSort())
                t = r(k)
                self.ctx.assume(z3.And(t > 0, t <= z3.Q(1, 2)))
                return SReal(t)
            t = f(k)
            self.ctx.assume(t >= 1)
            for k2 in list(self.ctx.state.setdefault("pow2s", [])):
                self.ctx.assume(z3.And(z3.Implies(k <= k2, f(k) <= f(k2)), z3.Implies(k2 <= k, f(k2) <= f(k)), z3.Implies(k2 == k + 1, f(k2) == 2 * f(k)), z3.Implies(k == k2 + 1, f(k) == 2 * f(k2))))
            self.ctx.mut_append(self.ctx.state["pow2s"], k)
            self.ctx.assume(z3.Implies(k == 0, f(k) == 1))
            for i in range(0, 70):
                pass
            s = Pow2Int(t, k)
            return s
        self.unsupported("symbolic power", node)

    # ------------------------------------------------------------ statements
    def ex_block(self, body, env):
        for st in body:
            self.ex(st, env)

    def ex(self, n, env):
        self.steps += 1
        m = getattr(self, "ex_" + type(n).__name__, None)
        if m is None:
            self.unsupported(f"statement {type(n).__name__}", n)
        return m(n, env)

    def ex_Expr(self, n, env):
        self.ev(n.value, env)

    def ex_Pass(self, n, env):
        pass

    def ex_Global(self, n, env):
        pass

    ex_Nonlocal = ex_Global

    def ex_Import(self, n, env):
        for a in n.names:
            if a.asname:
                self.set_var(env, a.asname, self.ext_or_repo(a.name))
            else:
                self.set_var(env, a.name.split(".")[0], self.ext_or_repo(a.name.split(".")[0]))

    def ex_ImportFrom(self, n, env):
        for a in n.names:
            nm = a.asname or a.name
            self.set_var(env, nm, self._import_from(env.module, nm, n))

    def ex_FunctionDef(self, n, env):
        f = self.make_func(n, env, None)
        f.cls = None
        v = f
        for d in reversed(n.decorator_list):
            t = ast.unparse(d)
            if t.split("(")[0].split(".")[-1] == "wraps":
                continue
            v = self.call(self.ev(d, env), [v])
        self.set_var(env, n.name, v)

    ex_AsyncFunctionDef = ex_FunctionDef

    def ex_ClassDef(self, n, env):
        self.unsupported("local class", n)

    def ex_Return(self, n, env):
        raise ReturnEx(self.ev(n.value, env) if n.value is not None else None)

    def ex_Break(self, n, env):
        raise BreakEx()

    def ex_Continue(self, n, env):
        raise ContinueEx()

    def ex_Assert(self, n, env):
        if not self.truth(self.ev(n.test, env)):
            self.raise_(AssertionError)

    def ex_Delete(self, n, env):
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                k = self.ev_index(t.slice, env)
                self.delitem(o, k, n)
            elif isinstance(t, ast.Name):
                self.ctx.mut_del(env.vars, t.id)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                if isinstance(o, Obj) and t.attr in o.attrs:
                    self.ctx.mut_del(o.attrs, t.attr)
                else:
                    self.unsupported("del attribute", n)
            else:
                self.unsupported("del target", n)

    def ex_Assign(self, n, env):
        v = self.ev(n.value, env)
        for t in n.targets:
            self.assign(t, v, env)

    def ex_AnnAssign(self, n, env):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, env), env)

    def ex_AugAssign(self, n, env):
        op = _BINOPS[type(n.op)]
        if isinstance(n.target, ast.Name):
            cur = self.lookup(n.target.id, env)
            v = self.iop(op, cur, self.ev(n.value, env), n)
            self.assign(n.target, v, env)
        elif isinstance(n.target, ast.Attribute):
            o = self.ev(n.target.value, env)
            cur = self.getattr(o, n.target.attr, n)
            v = self.iop(op, cur, self.ev(n.value, env), n)
            self.setattr(o, n.target.attr, v, n)
        elif isinstance(n.target, ast.Subscript):
            o = self.ev(n.target.value, env)
            k = self.ev_index(n.target.slice, env)
            cur = self.getitem(o, k, n)
            v = self.iop(op, cur, self.ev(n.value, env), n)
            self.setitem(o, k, v, n)
        else:
            self.unsupported("augmented target", n)

    def iop(self, op, cur, v, n):
        if op == "+" and isinstance(cur, VList):
            from . import models

            models.list_extend(self, [cur, v], {})
            return cur
        if op == "|" and isinstance(cur, (VSet, VDict)):
            from . import models

            if isinstance(cur, VSet):
                models.set_update(self, [cur, v], {})
            else:
                models.dict_update(self, [cur, v], {})
            return cur
        return self.binop(op, cur, v, n)

    def set_var(self, env, name, v):
        e = env
        if name in env.globals_:
            self.unsupported(f"assignment to global {name}")
        if name in env.nonlocals:
            e = env.parent
            while e is not None and name not in e.vars:
                e = e.parent
            if e is None:
                self.unsupported("nonlocal")
        if e.level < self.ctx.sub:
            self.log("wvar", e, name, e.vars.get(name, POISON), v)
        self.ctx.mut_dict(e.vars, name, v)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.set_var(env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.resolve(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            vals = self.to_pylist(v, t)
            if star:
                i = star[0]
                rest = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    self.raise_(ValueError, "not enough values to unpack")
                for e, x in zip(t.elts[:i], vals[:i]):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value, VList(vals[i : len(vals) - rest], self.level), env)
                for e, x in zip(t.elts[i + 1 :], vals[len(vals) - rest :]):
                    self.assign(e, x, env)
            else:
                if len(vals) != len(t.elts):
                    self.raise_(ValueError, "wrong number of values to unpack")
                for e, x in zip(t.elts, vals):
                    self.assign(e, x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            self.setitem(o, self.ev_index(t.slice, env), v, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            self.unsupported("assign target", t)

    def ex_If(self, n, env):
        if self.truth(self.ev(n.test, env)):
            self.ex_block(n.body, env)
        else:
            self.ex_block(n.orelse, env)

    def ex_Raise(self, n, env):
        if n.exc is None:
            if not self.exc_stack:
                self.unsupported("bare raise", n)
            raise PyRaise(self.exc_stack[-1])
        v = self.ev(n.exc, env)
        if isinstance(v, (ClassInfo, type, ExtV)):
            v = self.call(v, [])
        if n.cause is not None:
            self.ev(n.cause, env)
        raise PyRaise(v)

    def exc_matches(self, exc, spec):
        spec = self.resolve(spec)
        if isinstance(spec, tuple):
            return any(self.exc_matches(exc, s) for s in spec)
        return self.isinstance_(exc, spec)

    def ex_Try(self, n, env):
        def main():
            try:
                self.ex_block(n.body, env)
            except PyRaise as e:
                for h in n.handlers:
                    if h.type is None or self.exc_matches(e.val, self.ev(h.type, env)):
                        if h.name:
                            self.set_var(env, h.name, e.val)
                        self.exc_stack.append(e.val)
                        try:
                            self.ex_block(h.body, env)
                        finally:
                            self.exc_stack.pop()
                        return
                raise
            else:
                self.ex_block(n.orelse, env)

        if not n.finalbody:
            return main()
        try:
            main()
        except (PyRaise, ReturnEx, BreakEx, ContinueEx):
            self.ex_block(n.finalbody, env)
            raise
        self.ex_block(n.finalbody, env)

    def ex_With(self, n, env, is_async=False):
        self._with(n, list(n.items), env, is_async)

    def ex_AsyncWith(self, n, env):
        self._with(n, list(n.items), env, True)

    def _with(self, n, items, env, is_async):
        if not items:
            return self.ex_block(n.body, env)
        it = items[0]
        cm = self.resolve(self.ev(it.context_expr, env))
        pre = "__a" if is_async else "__"
        ent = self.getattr(cm, pre + "enter__", n)
        exi = self.getattr(cm, pre + "exit__", n)
        v = self.call(ent, [])
        if is_async and isinstance(v, Coro):
            v = self.await_(v)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env)

        def leave(*a):
            r = self.call(exi, list(a))
            if is_async and isinstance(r, Coro):
                r = self.await_(r)
            return r

        try:
            self._with(n, items[1:], env, is_async)
        except PyRaise as e:
            cls = e.val.cls if isinstance(e.val, Obj) else None
            r = leave(cls, e.val, None)
            if r is not None and self.truth(r):
                return
            raise
        except (ReturnEx, BreakEx, ContinueEx):
            leave(None, None, None)
            raise
        leave(None, None, None)

    # ---------------------------------------------------------------- loops
    def ex_While(self, n, env):
        h = self.ctx.state.get("while_hook")
        if h is not None and h(self, n, env):
            return
        count = 0
        while True:
            if not self.truth(self.ev(n.test, env)):
                self.ex_block(n.orelse, env)
                return
            count += 1
            if count > self.max_unroll:
                self.unsupported("while loop without invariant", n)
            try:
                self.ex_block(n.body, env)
            except BreakEx:
                return
            except ContinueEx:
                pass

    def ex_For(self, n, env, is_async=False):
        h = self.ctx.state.get("for_hook")
        if h is not None and h(self, n, env, is_async):
            return
        it = self.resolve(self.ev(n.iter, env))
        if isinstance(it, Obj) and "__aloop__" in it.attrs:
            return self.call(it.attrs["__aloop__"], [n, env])
        items = self.iterate(it, n)
        self.loop(items, n.target, lambda e: self.ex_block(n.body, e), env, n, lambda: self.ex_block(n.orelse, env))

    def ex_AsyncFor(self, n, env):
        self.ex_For(n, env, True)

    def loop(self, items, target, body, env, node, orelse=None):
        from .generic import generic_loop

        for x in items:
            if isinstance(x, (Part, SSeq)):
                if generic_loop(self, x, target, body, env, node):
                    return  # broke out
                continue
            try:
                self.assign(target, x, env)
                body(env)
            except BreakEx:
                return
            except ContinueEx:
                continue
        if orelse is not None:
            orelse()

    def iterate(self, v, node=None):
        """List of elements; elements may be Part/SSeq (symbolic segments)."""
        from . import models

        return models.iterate(self, v, node)

    def to_pylist(self, v, node=None):
        items = self.iterate(v, node)
        out = []
        for x in items:
            if isinstance(x, SSeq):
                n = simp(x.n)
                if z3.is_int_value(n):
                    out.extend(x.at(z3.IntVal(i)) for i in range(n.as_long()))
                    continue
            if isinstance(x, (Part, SSeq)):
                self.unsupported("symbolic-length sequence where a concrete one is needed", node)
            out.append(x)
        return out

    # ----------------------------------------------------------- expressions
    def ev(self, n, env):
        m = getattr(self, "ev_" + type(n).__name__, None)
        if m is None:
            self.unsupported(f"expression {type(n).__name__}", n)
        return m(n, env)

    def ev_Constant(self, n, env):
        return n.value

    def ev_Name(self, n, env):
        return self.lookup(n.id, env)

    def ev_Attribute(self, n, env):
        return self.getattr(self.ev(n.value, env), n.attr, n)

    def ev_Tuple(self, n, env):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                out.extend(self.to_pylist(self.ev(e.value, env), e))
            else:
                out.append(self.ev(e, env))
        return tuple(out)

    def ev_List(self, n, env):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                out.extend(self.iterate(self.ev(e.value, env), e))
            else:
                out.append(self.ev(e, env))
        return VList(out, self.level)

    def ev_Set(self, n, env):
        s = VSet(level=self.level)
        from . import models

        for e in n.elts:
            models.set_add(self, [s, self.ev(e, env)], {})
        return s

    def ev_Dict(self, n, env):
        from . import models

        d = VDict(level=self.level)
        for k, v in zip(n.keys, n.values):
            if k is None:
                models.dict_update(self, [d, self.ev(v, env)], {})
            else:
                self.setitem(d, self.ev(k, env), self.ev(v, env), n)
        return d

    def ev_BinOp(self, n, env):
        a = self.ev(n.left, env)
        b = self.ev(n.right, env)
        return self.binop(_BINOPS[type(n.op)], a, b, n)

    def ev_UnaryOp(self, n, env):
        if isinstance(n.op, ast.Not):
            t = self.truth_term(self.ev(n.operand, env))
            return (not t) if isinstance(t, bool) else self.mkbool(z3.Not(t))
        v = self.resolve(self.ev(n.operand, env))
        if isinstance(n.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            return self.binop("-", 0, v, n)
        if isinstance(n.op, ast.UAdd):
            return v
        self.unsupported("unary op", n)

    def ev_BoolOp(self, n, env):
        is_and = isinstance(n.op, ast.And)
        last = None
        for i, e in enumerate(n.values):
            last = self.ev(e, env)
            if i == len(n.values) - 1:
                return last
            t = self.truth_term(last)
            b = self.ctx.branch(t)
            if is_and and not b:
                return self._short(last, False)
            if not is_and and b:
                return self._short(last, True)
        return last

    def _short(self, v, b):
        if isinstance(v, SBool):
            return b
        return self.resolve(v)

    def ev_Compare(self, n, env):
        left = self.ev(n.left, env)
        res = True
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, env)
            if len(n.ops) == 1 and type(op) in _CMPX:
                for x, y, sym in ((left, right, _CMPX[type(op)][0]), (right, left, _CMPX[type(op)][1])):
                    if isinstance(x, Obj) and "__cmp__" in x.attrs:
                        return self.call(x.attrs["__cmp__"], [sym, y])
            t = self.cmp(op, left, right, n)
            if len(n.ops) == 1:
                return self.mkbool(t)
            if not self.ctx.branch(t):
                return False
            left = right
        return res

    def cmp(self, op, a, b, n):
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            t = self.eq(a, b)
            return (not t) if isinstance(t, bool) else z3.Not(t)
        if isinstance(op, (ast.Is, ast.IsNot)):
            t = self.is_(a, b)
            if isinstance(op, ast.IsNot):
                t = (not t) if isinstance(t, bool) else z3.Not(t)
            return t
        if isinstance(op, (ast.In, ast.NotIn)):
            t = self.contains(b, a, n)
            if isinstance(op, ast.NotIn):
                t = (not t) if isinstance(t, bool) else z3.Not(t)
            return t
        return self.compare(_CMP[type(op)], a, b, n)

    def is_(self, a, b):
        if b is None or a is None:
            x = a if b is None else b
            if x is None:
                return True
            if isinstance(x, SOpt):
                return x.none
            if isinstance(x, Dyn):
                x = self.resolve(x)
                return x is None
            return False
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, type) or isinstance(b, type):
            return a is b
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return self.eq(a, b)
        if isinstance(a, (EnumMember, SEnum)) and isinstance(b, (EnumMember, SEnum)):
            return self.eq(a, b)
        if isinstance(a, SRef) and isinstance(b, SRef):
            return self.eq(a, b)
        if isinstance(a, (ExtV,)) and isinstance(b, ExtV):
            return a.path == b.path
        if isinstance(a, (V, ClassInfo, FuncV)) or isinstance(b, (V, ClassInfo, FuncV)):
            return a is b
        if type(a) is not type(b):
            return False
        return self.eq(a, b)

    def contains(self, coll, x, n=None):
        from . import models

        return models.contains(self, coll, x, n)

    def ev_IfExp(self, n, env):
        if self.truth(self.ev(n.test, env)):
            return self.ev(n.body, env)
        return self.ev(n.orelse, env)

    def ev_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        self.assign(n.target, v, env)
        return v

    def ev_Lambda(self, n, env):
        return self.make_func(n, env, None)

    def ev_Await(self, n, env):
        return self.await_(self.ev(n.value, env), n)

    def ev_Yield(self, n, env):
        v = self.ev(n.value, env) if n.value is not None else None
        e = env
        while e is not None and e.yields is None:
            e = e.parent
        if e is None:
            self.unsupported("yield", n)
        h = self.ctx.state.get("yield_hook")
        if h is not None:
            h(self, v, n)
        self.list_append(e.yields, v)
        return None

    def ev_YieldFrom(self, n, env):
        v = self.ev(n.value, env)
        e = env
        while e is not None and e.yields is None:
            e = e.parent
        for x in self.iterate(v, n):
            self.list_append(e.yields, x)

    def list_append(self, lst, v):
        self.wcheck(lst)
        if lst.level < self.ctx.sub:
            self.log("append", lst, v)
        self.ctx.mut_append(lst.items, v)

    def ev_JoinedStr(self, n, env):
        from . import models

        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, env)
                if v.format_spec is not None:
                    spec = self.ev(v.format_spec, env)
                else:
                    spec = ""
                parts.append(models.format_value(self, x, v.conversion, spec))
        return models.str_concat(self, parts)

    def ev_Starred(self, n, env):
        self.unsupported("starred", n)

    def ev_index(self, s, env):
        if isinstance(s, ast.Slice):
            return slice(
                self.ev(s.lower, env) if s.lower is not None else None,
                self.ev(s.upper, env) if s.upper is not None else None,
                self.ev(s.step, env) if s.step is not None else None,
            )
        return self.ev(s, env)

    def ev_Subscript(self, n, env):
        o = self.ev(n.value, env)
        return self.getitem(o, self.ev_index(n.slice, env), n)

    def ev_Call(self, n, env):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            return SuperV(env.cls if env.func is None or env.func.cls is None else env.func.cls, self._find_self(env))
        f = self.ev(n.func, env)
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                args.extend(self.iterate(v, a))
            elif isinstance(a, ast.GeneratorExp):
                args.append(self.ev(a, env))
            else:
                args.append(self.ev(a, env))
        for k in n.keywords:
            if k.arg is None:
                d = self.resolve(self.ev(k.value, env))
                if isinstance(d, VDict) and not d.parts:
                    for kk, vv in d.d.values():
                        if not isinstance(kk, str):
                            self.unsupported("** with symbolic keys", n)
                        if kk in kwargs:
                            self.raise_(TypeError, "got multiple values for keyword argument")
                        kwargs[kk] = vv
                else:
                    h = getattr(d, "attrs", {}).get("__starstar__") if isinstance(d, Obj) else None
                    if h:
                        kwargs.update(h)
                    else:
                        kwargs["**"] = d
            else:
                kwargs[k.arg] = self.ev(k.value, env)
        return self.call(f, args, kwargs, n)

    def _find_self(self, env):
        e = env
        while e is not None:
            if e.self_ is not None:
                return e.self_
            e = e.parent
        self.unsupported("super without self")

    # comprehensions
    def _comp(self, gens, env, emit, node):
        def rec(i, e):
            if i == len(gens):
                emit(e)
                return
            g = gens[i]
            it = self.resolve(self.ev(g.iter, e if i else env))
            items = self.iterate(it, node)

            def body(e2):
                for c in g.ifs:
                    if not self.truth(self.ev(c, e2)):
                        raise ContinueEx()
                rec(i + 1, e2)

            self.loop(items, g.target, body, e, node)

        e = Env(env, env.module, self.level)
        e.func = env.func
        rec(0, e)

    def ev_ListComp(self, n, env):
        out = VList(level=self.level)
        self._comp(n.generators, env, lambda e: self.list_append(out, self.ev(n.elt, e)), n)
        return out

    def ev_GeneratorExp(self, n, env):
        out = VList(level=self.level)

        def run():
            self._comp(n.generators, env, lambda e: self.list_append(out, self.ev(n.elt, e)), n)
            return out

        # generator expressions are evaluated at creation (snapshot)
        return LazyGen(run, n, env)

    def ev_SetComp(self, n, env):
        from . import models

        out = VSet(level=self.level)
        self._comp(n.generators, env, lambda e: models.set_add(self, [out, self.ev(n.elt, e)], {}), n)
        return out

    def ev_DictComp(self, n, env):
        out = VDict(level=self.level)

        def emit(e):
            k = self.ev(n.key, e)
            self.setitem(out, k, self.ev(n.value, e), n)

        self._comp(n.generators, env, emit, n)
        return out

    # ----------------------------------------------------------- attributes
    def getattr(self, o, name, node=None):
        from . import models

        return models.getattr_(self, o, name, node)

    def setattr(self, o, name, v, node=None):
        from . import models

        return models.setattr_(self, o, name, v, node)

    def getitem(self, o, k, node=None):
        from . import models

        return models.getitem(self, o, k, node)

    def setitem(self, o, k, v, node=None):
        from . import models

        return models.setitem(self, o, k, v, node)

    def delitem(self, o, k, node=None):
        from . import models

        return models.delitem(self, o, k, node)

    def isinstance_(self, v, c):
        from . import models

        return models.isinstance_(self, v, c)

    # fields of SRef objects
    def field(self, cls, name):
        c = cls.name if isinstance(cls, ClassInfo) else cls
        return self.fields.get((c, name))

    def read_field(self, ref, name):
        st = self.field(ref.cls, name)
        lg = self.ctx.state.get("efflog")
        if lg is not None:
            lg.append(("rfield", st, (ref.t,)))
        v = st.read(ref.t)
        self.know_val(v)
        return v

    def know_val(self, v):
        if isinstance(v, SRef):
            self.ctx.know(v.t.sort().name(), v.t)
        elif isinstance(v, SOpt):
            self.know_val(v.val)

    def write_field(self, ref, name, v):
        st = self.field(ref.cls, name)
        comps = st.ty.enc(self.resolve_for(st.ty, v), self.ctx)
        self.log("wfield", st, (ref.t,), comps)
        hook = self.ctx.state.get("write_hook")
        if hook is not None:
            hook(self, ref, name, v)
        st.write_comps((ref.t,), comps)

    def resolve_for(self, ty, v):
        if isinstance(v, Dyn):
            return self.resolve(v)
        if isinstance(v, SOpt) and not isinstance(ty, TOpt):
            return self.resolve(v)
        return v


class Pow2Int(SInt):
    __slots__ = ("pow2",)

    def __init__(self, t, k):
        super().__init__(t)
        self.pow2 = k


class LazyGen:
    """Generator expression, evaluated when first iterated."""

    def __init__(self, run, node, env):
        self.run = run
        self.node = node
        self.env = env
        self.val = None


class LazyAttr:
    """Lazily evaluated class attribute or default argument."""

    def __init__(self, node, env):
        self.node = node
        self.env = env
        self.val = POISON

    def get(self, it):
        key = ("lazyattr", id(self))
        tbl = it.ctx.state.setdefault("lazy", {})
        if key not in tbl:
            env = Env(None, self.env.module)
            env.cls = self.env.cls
            if self.env.cls is not None:
                # class scope: sibling names
                env = ClassEnv(self.env.module, self.env.cls)
            else:
                env = self.env
            tbl[key] = it.ev(self.node, env)
        return tbl[key]


class ClassEnv(Env):
    __slots__ = ("cinfo",)

    def __init__(self, module, cls):
        super().__init__(None, module)
        self.cls = cls
        self.vars = _ClassVars(cls)


class _ClassVars(dict):
    def __init__(self, cls):
        super().__init__()
        self.cls = cls

    def __contains__(self, k):
        return k in self.cls.attrs and not isinstance(self.cls.attrs[k], LazyAttr) or dict.__contains__(self, k)

    def __getitem__(self, k):
        if dict.__contains__(self, k):
            return dict.__getitem__(self, k)
        return self.cls.attrs[k]
