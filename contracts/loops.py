"""Loop rule for `while` loops: the invariant is proved on entry, the loop
state is replaced by an arbitrary one satisfying it, and one iteration is
executed: it must re-establish the invariant or leave the loop."""
import ast

import z3

from pyvc.verify import *


class StopBody(Exception):
    pass


def modified_names(n):
    out = set()
    for st in ast.walk(n):
        if isinstance(st, ast.Name) and isinstance(st.ctx, (ast.Store, ast.Del)):
            out.add(st.id)
        elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
            out.add(st.target.id)
    return out


class WhileInv:
    """inv(vals) -> {clause: term}; vals maps the loop's own variables to
    (initial value, current value). ghosts: fn() called when the state is
    havocked."""

    def __init__(self, v, inv, havoc=None, on_iter=None):
        self.v, self.inv, self.havoc_more, self.on_iter = v, inv, havoc, on_iter
        self.used = False
        v.ctx.state["while_hook"] = self

    def __call__(self, it, n, env):
        v = self.v
        if self.used:
            it.unsupported("second loop", n)
        self.used = True
        names = sorted(x for x in modified_names(n) if x in env.vars)
        init = {}
        for x in names:
            val = it.resolve(env.vars[x])
            init[x] = val
        self.check(init, {x: init[x] for x in names}, "entry")
        # arbitrary iteration
        cur = {}
        for x in names:
            val = init[x]
            if isinstance(val, bool) or isinstance(val, SBool):
                cur[x] = SBool(v.ctx.fresh("l_" + x, z3.BoolSort()))
            elif isinstance(val, (int, SInt)):
                cur[x] = SInt(v.ctx.fresh("l_" + x, z3.IntSort()))
            elif isinstance(val, (float, SReal)):
                cur[x] = SReal(v.ctx.fresh("l_" + x, z3.RealSort()))
            else:
                it.unsupported(f"loop variable {x}", n)
            v.ctx.mut_dict(env.vars, x, cur[x])
        if self.havoc_more:
            self.havoc_more()
        for t in self.inv(init, cur).values():
            v.assume(t)
        if v.ctx.check() == z3.unsat:
            raise Infeasible
        if not it.truth(it.ev(n.test, env)):
            return True
        if self.on_iter:
            self.on_iter()
        try:
            it.ex_block(n.body, env)
        except ContinueEx:
            pass
        except BreakEx:
            return True
        self.check(init, {x: it.resolve(env.vars[x]) for x in names}, "kept")
        v.rep.paths += 1
        raise StopBody

    def check(self, init, cur, when):
        for k, t in self.inv(init, cur).items():
            self.v.aux(k, t)


def run(v, *a, **k):
    try:
        return v.run(*a, **k)
    except StopBody:
        return None


class MapState:
    """A mapping as functions of its keys: has[k], at[k]. Usable as a dict."""

    def __init__(self, v, ksort, vsort, has, at, wrap, name="cache"):
        self.v, self.it, self.ctx = v, v.it, v.ctx
        self.ksort, self.has, self.at, self.wrap = ksort, has, at, wrap
        n, it, ctx = v.native, v.it, v.ctx
        key = lambda x: it.sterm(it.resolve(x))
        put = lambda h, a: (ctx.mut_attr(self, "has", h), ctx.mut_attr(self, "at", a))
        store = lambda t, x: put(z3.Store(self.has, t, z3.BoolVal(True)), z3.Store(self.at, t, x.t))
        drop = lambda t: put(z3.Store(self.has, t, z3.BoolVal(False)), self.at)

        def look(t):
            ctx.know("Str", t)
            return ctx.branch(z3.Select(self.has, t))

        val = lambda t: wrap(z3.Select(self.at, t))

        def getitem(it2, a, k):
            t = key(a[0])
            if not look(t):
                it.raise_(KeyError, a[0])
            return val(t)

        def pop(it2, a, k):
            t = key(a[0])
            if not look(t):
                if len(a) > 1:
                    return a[1]
                it.raise_(KeyError, a[0])
            x = val(t)
            drop(t)
            return x

        def setdefault(it2, a, k):
            t = key(a[0])
            if not look(t):
                store(t, it.resolve(a[1]))
            return val(t)

        def setitem(it2, a, k):
            x = it.resolve(a[1])
            if not isinstance(x, SRef):
                it.unsupported("value of another kind")
            store(key(a[0]), x)

        def get(it2, a, k):
            t = key(a[0])
            return val(t) if look(t) else (a[1] if len(a) > 1 else k.get("default"))

        def delete(it2, a, k):
            t = key(a[0])
            if not look(t):
                it.raise_(KeyError, a[0])
            drop(t)

        def nonempty(it2, a, k):
            b = ctx.fresh("nonempty", z3.BoolSort())
            w = ctx.fresh("member", z3.StringSort())
            ctx.know("Str", w)
            h = self.has
            ctx.assume(z3.Implies(b, z3.Select(h, w)))
            ctx.forall(("Str",), lambda x: z3.Implies(z3.Select(h, x), b), "nonempty")
            return SBool(b)

        def parts(f):
            h, a = self.has, self.at
            g = {0: lambda t: SStr(t), 1: lambda t: wrap(z3.Select(a, t)), 2: lambda t: (SStr(t), wrap(z3.Select(a, t)))}[f]
            return VList([Part(("Str",), lambda t: z3.Select(h, t), g)])

        def copy(it2, a, k):
            d = VDict()
            h, at_ = self.has, self.at
            d.parts = [Part(("Str",), lambda t: z3.Select(h, t), lambda t: (SStr(t), wrap(z3.Select(at_, t))))]
            return d

        self.o = v.fake(name, __getitem__=n(getitem), get=n(get), pop=n(pop), setdefault=n(setdefault), __setitem__=n(setitem), __delitem__=n(delete), __contains__=n(lambda it2, a, k: look(key(a[0]))), __bool__=n(nonempty), copy=n(copy),
                        values=n(lambda it2, a, k: parts(1)), items=n(lambda it2, a, k: parts(2)), keys=n(lambda it2, a, k: parts(0)), __iter__=n(lambda it2, a, k: parts(0)))


class ForInv:
    """Loop rule for `for` loops over a collection of elements given as one
    Part: inv(index, done, x) -> {clause: term} must hold for every x, of the
    elements already done; havoc(index) replaces the state by an arbitrary
    one. The order of the elements is arbitrary."""

    def __init__(self, v, inv, havoc, sort="Str", know=None):
        self.v, self.inv, self.havoc, self.sort, self.know = v, inv, havoc, sort, know
        self.count = 0
        self.depth = 0
        v.ctx.state["for_hook"] = self

    def assume(self, k, es, done):
        """The invariant holds now, for every x (the state is captured here)."""
        zs = z3.StringSort() if self.sort == "Str" else ref_sort(self.sort)
        probe = z3.Const("inv_probe", zs)
        f = z3.And(list(self.inv(k, es, done, probe).values()))

        def at(x):
            if self.know:
                self.know(x)
            return z3.substitute(f, (probe, x))

        self.v.ctx.forall((self.sort,), at, "loop")

    def __call__(self, it, n, env, is_async):
        v, ctx = self.v, self.v.ctx
        if is_async or self.depth:
            return False
        items = it.iterate(it.resolve(it.ev(n.iter, env)), n)
        if not any(isinstance(x, (Part, SSeq)) for x in items):
            it.loop(items, n.target, lambda e: it.ex_block(n.body, e), env, n, lambda: it.ex_block(n.orelse, env))
            return True
        if len(items) != 1 or not isinstance(items[0], Part) or len(items[0].sorts) != 1:
            it.unsupported("loop over several collections", n)
        p = items[0]
        k = self.count
        self.count += 1
        es = p.sorts[0]
        zs = z3.StringSort() if es == "Str" else ref_sort(es)
        none = lambda x: z3.BoolVal(False)
        probe = ctx.fresh("any_x", z3.StringSort())
        ctx.know(self.sort, probe)
        for c, t in self.inv(k, es, none, probe).items():
            v.aux(c, t)
        done = ctx.fresh_fn("done", zs, z3.BoolSort())
        e = ctx.fresh("element", zs)
        ctx.know(es, e)
        if ctx.branch(ctx.fresh("loop_is_over", z3.BoolSort())):
            self.havoc(k)
            self.assume(k, es, p.guard)
            for x in modified_names(n):
                if x in env.vars:
                    ctx.mut_dict(env.vars, x, POISON)
            it.ex_block(n.orelse, env)
            return True
        ctx.forall((es,), lambda x: z3.Implies(done(x), p.guard(x)), "done")
        self.havoc(k)
        self.assume(k, es, done)
        v.assume(z3.And(p.guard(e), z3.Not(done(e))))
        if ctx.check() == z3.unsat:
            raise Infeasible
        self.depth += 1
        try:
            it.assign(n.target, p.val(e), env)
            it.ex_block(n.body, env)
        except ContinueEx:
            pass
        except BreakEx:
            it.unsupported("break", n)
        for c, t in self.inv(k, es, lambda x: z3.Or(done(x), x == e), probe).items():
            v.aux(c, t)
        v.rep.paths += 1
        raise StopBody
