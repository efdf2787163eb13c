"""Loops and comprehensions over collections of unbounded size.

The body is executed once for an arbitrary ("generic") element, all its paths
are explored, its effects are recorded, independence between iterations is
checked with the solver, and the effects are then applied to every element at
once.  This is a proof rule, not an unrolling: it holds for any number of
iterations.  Bodies whose iterations depend on each other (other than through
accumulation: append, add, counting, flag setting) are rejected as
Unsupported, never silently approximated."""
import z3

from . import core

from .core import *
from .vals import *
from .models import seq_part


def sort_of(s):
    return z3.IntSort() if s == "Int" else (z3.StringSort() if s == "Str" else ref_sort(s))


class BodyPath:
    pass


def lift_pairs(ctx, p, path, tag, xs_const, xs):
    """Substitution: element constants -> xs, constants created in the body ->
    functions of xs."""
    pairs = list(zip(xs_const, xs))
    for c in path.fresh:
        key = ("lift", tag, c.get_id())
        tbl = ctx.state.setdefault("lifted", {})
        if key not in tbl:
            if path.kind_exact and len(xs) == 0:
                tbl[key] = (c, lambda *a, c=c: c)
            else:
                f = z3.Function(f"{c.decl().name()}^{tag}", *[x.sort() for x in xs], c.sort())
                tbl[key] = (c, f)
        pairs.append((c, tbl[key][1](*xs)))
    return pairs


def run_body(it, p, xs_const, target, body, env, prefix, carry):
    ctx = it.ctx
    saved = (ctx.prefix, ctx.pos, ctx.taken, ctx.pending)
    ctx.qn += 1
    saved_outer = (ctx.outer_replay, ctx.outer_key, ctx.qn)
    ctx.outer_replay, ctx.outer_key, ctx.qn = ctx.replaying(), ctx.outer_key + ((tuple(ctx.taken), ctx.qn),), 0
    st = ctx.state
    saved_log = st.get("efflog")
    saved_fresh = st.get("freshlog")
    mark = ctx.mark()
    ctx.solver.push()
    ctx.sub += 1
    ctx.prefix, ctx.pos, ctx.taken, ctx.pending = list(prefix), 0, [], []
    pc0 = len(ctx.pc)
    ev0 = len(ctx.events)
    log, fresh = [], []
    res = BodyPath()
    res.kind_exact = False
    res.xs = xs_const
    try:
        st["efflog"] = None
        st["freshlog"] = fresh
        ctx.assume(p.guard(*xs_const), "guard")
        for s, x in zip(p.sorts, xs_const):
            ctx.know(s, x)
        for (e, name, const) in carry:
            ctx.mut_dict(e.vars, name, const)
        st["efflog"] = log
        pc1 = len(ctx.pc)
        res.kind = "normal"
        res.val = None
        try:
            v = p.val(*xs_const)
            it.know_val(v)
            if isinstance(v, tuple):
                for y in v:
                    it.know_val(y)
            it.assign(target, v, env)
            body(env)
        except ContinueEx:
            pass
        except BreakEx:
            res.kind = "break"
        except ReturnEx as r:
            res.kind = "return"
            res.val = r.val
        except PyRaise as r:
            res.kind = "raise"
            res.val = r.val
        if ctx.check() == z3.unsat:
            raise Infeasible
        res.guards = [t for t, k in zip(ctx.pc[pc1:], ctx.pc_kinds[pc1:]) if k == "branch"]
        res.assumes = [t for t, k in zip(ctx.pc[pc1:], ctx.pc_kinds[pc1:]) if k != "branch"]
        memo = {}
        lv = ctx.sub
        res.val = freeze(res.val, lv, memo)
        res.log = [e[:2] + tuple(freeze(x, lv, memo) if not isinstance(x, list) else x for x in e[2:]) for e in log]
        res.events = [tuple(freeze(x, lv, memo) for x in e) for e in ctx.events[ev0:]]
        res.fresh = list(fresh)
        res.pending = ctx.pending
        res.feasible = True
        # new hypotheses created in the body must not escape un-lifted
        res.hyps = [h for h in ctx.hyps if getattr(h, "label", "") and h not in st["_hyps0"]] if "_hyps0" in st else []
    except Infeasible:
        res.feasible = False
        res.pending = ctx.pending
    finally:
        st["efflog"] = saved_log
        st["freshlog"] = saved_fresh
        ctx.sub -= 1
        ctx.undo_to(mark)
        ctx.solver.pop()
        ctx.prefix, ctx.pos, ctx.taken, ctx.pending = saved
        ctx.outer_replay, ctx.outer_key, ctx.qn = saved_outer
    return res


def explore_body(it, p, xs_const, target, body, env, carry):
    work = [[]]
    out = []
    n = 0
    while work:
        r = run_body(it, p, xs_const, target, body, env, work.pop(), carry)
        n += 1
        if n > 400:
            raise Unsupported("too many paths in loop body")
        work.extend(r.pending)
        if r.feasible:
            out.append(r)
    return out


_CONSTS = {}


def consts_of(t):
    """Ids of the constants of a term."""
    i = t.get_id()
    r = _CONSTS.get(i)
    if r is not None:
        return r[0]
    ch = t.children()
    if ch:
        s = frozenset().union(*[consts_of(c) for c in ch])
    else:
        s = frozenset([i])
    _CONSTS[i] = (s, t)
    return s


def mentions(t, c):
    return c.get_id() in consts_of(t)


def mentions_any(t, cs):
    s = consts_of(t)
    return any(c.get_id() in s for c in cs)


def val_mentions(v, c):
    probe = z3.Const("probe_" + str(c), c.sort())
    try:
        w = subst_val(v, [(c, probe)])
    except Unsupported:
        return True
    return _terms_differ(v, w)


def _terms_differ(a, b):
    if isinstance(a, (SInt, SReal, SBool, SStr, SBytes, SEnum, SOpaque, SRef)):
        return not simp(a.t).eq(simp(b.t))
    if isinstance(a, SOpt):
        return not simp(a.none).eq(simp(b.none)) or _terms_differ(a.val, b.val)
    if isinstance(a, tuple):
        return any(_terms_differ(x, y) for x, y in zip(a, b))
    if isinstance(a, (VList, VSet)):
        return any(_terms_differ(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, VDict):
        return any(_terms_differ(x, y) for x, y in zip(a.d.values(), b.d.values()))
    return False


def generic_loop(it, seg, target, body, env, node):
    """Returns True when the loop ended with break."""
    ctx = it.ctx
    p = seq_part(seg) if isinstance(seg, SSeq) else seg
    if not p.sorts:
        g = p.guard()
        if not ctx.branch(g):
            return False
        try:
            it.assign(target, p.val(), env)
            body(env)
        except BreakEx:
            return True
        except ContinueEx:
            pass
        return False
    k = ctx.state.get("genn", 0)
    ctx.mut_dict(ctx.state, "genn", k + 1)
    xs_const = [z3.Const(f"e{k}_{i}_{s}", sort_of(s)) for i, s in enumerate(p.sorts)]
    carry = []
    paths = explore_body(it, p, xs_const, target, body, env, carry)
    # loop-carried variables?
    written = {}
    carried = {}
    for r in paths:
        seen_w = set()
        for e in r.log:
            if e[0] == "wvar":
                key = (id(e[1]), e[2])
                written.setdefault(key, (e[1], e[2]))
                seen_w.add(key)
            elif e[0] == "rvar":
                key = (id(e[1]), e[2])
                if key not in seen_w:
                    carried.setdefault(key, (e[1], e[2]))
            elif e[0] == "wattr":
                key = ("a", id(e[1]), e[2])
                written.setdefault(key, (e[1], e[2]))
                seen_w.add(key)
            elif e[0] == "rattr":
                key = ("a", id(e[1]), e[2])
                if key not in seen_w:
                    carried.setdefault(key, (e[1], e[2]))
    both = [kk for kk in carried if kk in written]
    counters = {}
    if both:
        for kk in both:
            if kk[0] == "a":
                raise Unsupported("loop-carried attribute in generic iteration")
            e, name = carried[kk]
            v = e.vars[name]
            if isinstance(v, bool) or not isinstance(v, (int, SInt)):
                raise Unsupported(f"loop-carried variable {name}")
            c = z3.Const(f"carry{k}_{name}", z3.IntSort())
            carry.append((e, name, SInt(c)))
            counters[kk] = (e, name, c, v)
        paths = explore_body(it, p, xs_const, target, body, env, carry)
        for r in paths:
            for kk, (e, name, c, v) in counters.items():
                if any(mentions(g, c) for g in r.guards + r.assumes):
                    raise Unsupported(f"loop-carried dependency through {name}")
                for eff in r.log:
                    if eff[0] in ("append", "sadd") and val_mentions(eff[2], c):
                        raise Unsupported(f"loop-carried dependency through {name}")
                    if eff[0] in ("wfield", "wbulk") and any(mentions(t, c) for t in list(eff[3]) + (eff[4].guards if eff[0] == "wbulk" else [])):
                        raise Unsupported(f"loop-carried dependency through {name}")
    check_independent(it, p, xs_const, paths)
    log_reads(it, p, paths)

    gcache = {}

    def g_at(r, i, xs, extra=None):
        if i not in gcache:
            ph = [z3.FreshConst(x.sort(), "ph") for x in xs_const]
            pairs = lift_pairs(ctx, p, r, f"{k}.{i}", xs_const, ph)
            gcache[i] = (ph, z3.And([p.guard(*ph)] + [z3.substitute(t, *pairs) for t in r.guards]))
        ph, base = gcache[i]
        parts = [z3.substitute(base, *zip(ph, xs)) if ph else base]
        if extra is not None:
            parts.append(extra(*xs))
        return simp(z3.And(parts))

    exits = [(i, r) for i, r in enumerate(paths) if r.kind != "normal"]
    normals = [(i, r) for i, r in enumerate(paths) if r.kind == "normal"]
    before = None
    exit_sel = None
    if exits:
        sel = ctx.choose([None] * (1 + len(exits)))
        if sel == 0:
            for i, r in exits:
                ctx.forall(p.sorts, lambda *xs, i=i, r=r: z3.Not(g_at(r, i, xs)), "noexit")
        else:
            exit_sel = exits[sel - 1]
            i, r = exit_sel
            xw = []
            for s in p.sorts:
                x = ctx.fresh(f"exit{k}_{s}", sort_of(s))
                xw.append(x)
            ctx.assume(g_at(r, i, xw))
            for s, x in zip(p.sorts, xw):
                ctx.know(s, x)
            if isinstance(seg, SSeq):
                before = lambda idx: idx < xw[0]
            else:
                bf = ctx.fresh_fn(f"before{k}", *[sort_of(s) for s in p.sorts], z3.BoolSort())
                before = lambda *xs: bf(*xs)
                ctx.assume(z3.Not(bf(*xw)))

            def nb(*xs):
                return z3.Implies(
                    z3.And(p.guard(*xs), before(*xs)),
                    z3.And([z3.Not(g_at(r2, i2, xs)) for i2, r2 in exits]),
                )

            ctx.forall(p.sorts, nb, "before-exit")
            if ctx.check() == z3.unsat:
                raise Infeasible
    apply_effects(it, p, xs_const, normals, g_at, before, k, counters, written, env)
    if exit_sel is not None:
        try:
            it.assign(target, p.val(*xw), env)
            body(env)
        except BreakEx:
            return True
        except ContinueEx:
            raise Infeasible
        raise Infeasible  # this branch covers exit paths only
    return False


def log_reads(it, p, paths):
    """What a nested loop read, seen from the loop around it."""
    ctx = it.ctx
    lg = ctx.state.get("efflog")
    if lg is None or not ctx.sub:
        return
    seen = set()
    for r in paths:
        for e in r.log:
            if e[0] == "rfield":
                g = (e[3] if len(e) > 3 else []) + [p.guard(*r.xs)] + r.guards
                x = ("rfield", e[1], e[2], g)
                key = ("f", id(e[1])) + tuple(t.get_id() for t in e[2]) + tuple(y.get_id() for y in g)
            elif e[0] == "rvar" or e[0] == "rattr":
                if getattr(e[1], "level", 0) >= ctx.sub:
                    continue
                x, key = e, (e[0], id(e[1]), e[2])
            elif e[0] in ("rlist", "rdict"):
                if getattr(e[1], "level", 0) >= ctx.sub:
                    continue
                x, key = e, (e[0], id(e[1]))
            else:
                continue
            if key not in seen:
                seen.add(key)
                ctx.mut_append(lg, x)


_QU = {}


def quick_unsat(*ts):
    t = simp(z3.And(*ts))
    r = _QU.get(t.get_id())
    if r is None:
        s = z3.SolverFor("AUFLIRA")
        s.set("timeout", 200)
        s.add(t)
        r = _QU[t.get_id()] = (s.check() == z3.unsat, t)
    return r[0]


def check_independent(it, p, xs_const, paths):
    ctx = it.ctx
    writes = {}
    for r in paths:
        for e in r.log:
            if e[0] in ("wfield", "wbulk"):
                writes.setdefault(id(e[1]), []).append((e, r))
            elif e[0] in ("listmut", "ddel", "sdel"):
                raise Unsupported(f"{e[0]} inside generic iteration")
    appended = {id(e[1]) for r in paths for e in r.log if e[0] in ("append", "sadd", "dset")}
    for r in paths:
        for e in r.log:
            if e[0] == "rlist" and id(e[1]) in appended:
                raise Unsupported("collection read and extended in the same loop")
            if e[0] == "rdict" and id(e[1]) in appended:
                raise Unsupported("dict read and extended in the same loop")
    if not writes:
        return
    ys = [z3.Const(str(x) + "'", x.sort()) for x in xs_const]
    pr = list(zip(xs_const, ys))
    diff = z3.Or([x != y for x, y in zip(xs_const, ys)])
    ren = {}

    def renaming(r, e):
        """The same constants, in another iteration: everything created in the
        body may have another value there."""
        out = list(pr)
        for c in list(r.fresh) + (e[4].xs + e[4].fresh if e[0] == "wbulk" else []):
            if c.get_id() not in ren:
                ren[c.get_id()] = (c, z3.FreshConst(c.sort(), "other"))
            out.append(ren[c.get_id()])
        return out

    def extra(e):
        if e[0] == "wbulk":
            return e[4].guards
        return e[3] if e[0] == "rfield" and len(e) > 3 else []

    done = {}
    for r in paths:
        for e in r.log:
            if e[0] not in ("rfield", "wfield", "wbulk"):
                continue
            for e2, r2 in writes.get(id(e[1]), []):
                st = e2[1]
                pr2 = renaming(r2, e2)
                w2 = [z3.substitute(t, *pr2) for t in e2[2]]
                same = simp(z3.And([a == b for a, b in zip(e[2], w2)]))
                key = (id(e[1]), same.get_id(), id(r), id(r2), tuple(g.get_id() for g in extra(e)))
                if key in done or is_false(simp(z3.And(diff, same))):
                    continue
                if quick_unsat(diff, same):
                    done[key] = same
                    continue
                done[key] = same
                ctx.solver.push()
                try:
                    ctx.solver.add(p.guard(*xs_const), p.guard(*ys), diff, same)
                    for t in r.guards + r.assumes + extra(e):
                        ctx.solver.add(t)
                    for t in r2.guards + extra(e2):
                        ctx.solver.add(z3.substitute(t, *pr2))
                    for h in ctx.hyps:
                        if len(h.sorts) == 1:
                            for s, x in list(zip(p.sorts, xs_const)) + list(zip(p.sorts, ys)):
                                if h.sorts[0] == s:
                                    f = h.fn(x)
                                    for gg in (f if isinstance(f, (list, tuple)) else [f]):
                                        if gg is not None:
                                            ctx.solver.add(gg)
                    ok = core.qcheck(ctx.solver)[0] == z3.unsat
                finally:
                    ctx.solver.pop()
                if not ok:
                    raise Unsupported(f"iterations depend on each other through field {st.name}")


class Bulk:
    """Writes of a nested loop: for all xs with the guards, comps at wref."""


def invert(it, p, xs_const, wref, r):
    """Given write target terms wref over xs_const, find xs as functions of the
    target ref(s)."""
    ctx = it.ctx
    if len(wref) == len(xs_const) and all(a.eq(b) for a, b in zip(wref, xs_const)):
        return lambda *rs: rs
    det = ctx.state.get("determines", {})
    if len(wref) == 1:
        t = wref[0]
        for j, x in enumerate(xs_const):
            if t.eq(x):
                fns = []
                ok = True
                for i, y in enumerate(xs_const):
                    if i == j:
                        fns.append(lambda rr: rr)
                        continue
                    d = det.get((p.sorts[j], p.sorts[i]))
                    if d is None:
                        ok = False
                        break
                    ctx.solver.push()
                    ctx.solver.add(p.guard(*xs_const))
                    for g in r.guards:
                        ctx.solver.add(g)
                    ctx.solver.add(y != d(x))
                    u = core.qcheck(ctx.solver)[0] == z3.unsat
                    ctx.solver.pop()
                    if not u:
                        ok = False
                        break
                    fns.append(d)
                if ok:
                    return lambda rr: tuple(f(rr) for f in fns)
    raise Unsupported("write target of generic iteration is not determined by the element")


def log_bulk(it, p, xs_const, r, g_at, i, k, st, wref, comps):
    bk = Bulk()
    bk.sorts = tuple(p.sorts)
    bk.xs = [z3.FreshConst(x.sort(), "in") for x in xs_const]
    pairs = lift_pairs(it.ctx, p, r, f"{k}.{i}", xs_const, bk.xs)
    bk.guards = [g_at(r, i, bk.xs)]
    bk.fresh = []
    if any(mentions_any(t, r.fresh) for t in list(wref) + list(comps) + r.guards):
        bk.fresh = list(r.fresh)
    it.log("wbulk", st, [z3.substitute(t, *pairs) for t in wref], [z3.substitute(t, *pairs) for t in comps], bk)


def mergeable(it, vs):
    from .models import ite_val

    try:
        for x in vs[1:]:
            ite_val(it, z3.Bool("either"), vs[0], x)
    except Unsupported:
        return False
    return True


def apply_effects(it, p, xs_const, normals, g_at, before, k, counters, written, env):
    ctx = it.ctx
    ctxlog = ctx.state.get("efflog")
    n_append = {}
    for i, r in normals:
        for e in r.log:
            if e[0] == "append":
                n_append.setdefault(id(e[1]), []).append(i)
    ordered = {}
    if before is None and isinstance(p.origin, SSeq) and p.sorts == ("Int",) and len(normals) > 1:
        # every iteration appends exactly one element: the order is kept
        for lid, who in n_append.items():
            if sorted(who) == sorted(i for i, _ in normals):
                vs = {i: e[2] for i, r in normals for e in r.log if e[0] == "append" and id(e[1]) == lid}
                if not any(isinstance(x, (Part, SSeq)) for x in vs.values()) and mergeable(it, list(vs.values())):
                    ordered[lid] = vs
    for i, r in normals:
        # facts about values created in the body
        if r.assumes and r.fresh:
            fs = [t for t in r.assumes if mentions_any(t, r.fresh)]

            def facts(*xs, i=i, r=r, fs=fs):
                pairs = lift_pairs(ctx, p, r, f"{k}.{i}", xs_const, xs)
                return z3.Implies(g_at(r, i, xs), z3.And([z3.substitute(t, *pairs) for t in fs]))

            if fs:
                ctx.forall_t(p.sorts, facts, "body-facts")
        for e in r.log:
            kind = e[0]
            if kind == "wfield":
                _, st, wref, comps = e
                inv = invert(it, p, xs_const, wref, r)

                def pred(*rs, i=i, r=r, inv=inv, wref=wref):
                    xs = inv(*rs)
                    return g_at(r, i, xs, before)

                def valf(*args, i=i, r=r, inv=inv, comps=comps):
                    rs = args[:-1]
                    xs = inv(*rs)
                    pairs = lift_pairs(ctx, p, r, f"{k}.{i}", xs_const, xs)
                    return [simp(z3.substitute(t, *pairs)) for t in comps]

                st.bulk(pred, valf)
                if ctx.sub:
                    if before is not None:
                        raise Unsupported("nested loop that writes and is left early")
                    log_bulk(it, p, xs_const, r, g_at, i, k, st, wref, comps)
            elif kind in ("append", "sadd"):
                _, lst, v = e
                if kind == "append" and id(lst) in ordered:
                    vs = ordered[id(lst)]
                    if vs is None:
                        continue
                    ordered[id(lst)] = None

                    def at(x, vs=vs):
                        from .models import ite_val

                        out = None
                        for i2, r2 in normals:
                            y = subst_val(vs[i2], lift_pairs(ctx, p, r2, f"{k}.{i2}", xs_const, [x]))
                            out = y if out is None else ite_val(it, g_at(r2, i2, [x]), y, out)
                        return out

                    part = SSeq(p.origin.n, at)
                    if lst.level < ctx.sub:
                        it.log(kind, lst, part)
                    ctx.mut_append(lst.items, part)
                    continue
                if isinstance(v, (Part, SSeq)):
                    if isinstance(v, SSeq):
                        v = seq_part(v)
                    inner = v

                    def guard(*xs, i=i, r=r, inner=inner):
                        n = len(xs_const)
                        o, rest = xs[:n], xs[n:]
                        pairs = lift_pairs(ctx, p, r, f"{k}.{i}", xs_const, o)
                        return simp(z3.And(g_at(r, i, o, before), z3.substitute(inner.guard(*rest), *pairs)))

                    def val(*xs, i=i, r=r, inner=inner):
                        n = len(xs_const)
                        o, rest = xs[:n], xs[n:]
                        pairs = lift_pairs(ctx, p, r, f"{k}.{i}", xs_const, o)
                        return subst_val(inner.val(*rest), pairs)

                    part = Part(p.sorts + inner.sorts, guard, val)
                else:
                    aligned = len(normals) == 1 and len(n_append.get(id(lst), ())) == 1 and before is None and not r.guards

                    def val(*xs, i=i, r=r, v=v):
                        pairs = lift_pairs(ctx, p, r, f"{k}.{i}", xs_const, xs)
                        return subst_val(v, pairs)

                    part = Part(p.sorts, lambda *xs, i=i, r=r: g_at(r, i, xs, before), val, (p.origin or p) if aligned else None)
                    if aligned and kind == "append" and isinstance(p.origin, SSeq) and p.sorts == ("Int",):
                        # one element for each: the order is kept
                        part = SSeq(p.origin.n, val)
                if lst.level < ctx.sub:
                    it.log(kind, lst, part)
                ctx.mut_append(lst.items, part)
            elif kind == "dset":
                _, d, key, v = e
                if d.d or d.parts:
                    if key_concrete(key):
                        raise Unsupported("constant dict key written in generic iteration")
                if key_concrete(key):
                    raise Unsupported("constant dict key written in generic iteration")

                def val(*xs, i=i, r=r, key=key, v=v):
                    pairs = lift_pairs(ctx, p, r, f"{k}.{i}", xs_const, xs)
                    return (subst_val(key, pairs), subst_val(v, pairs))

                if d.level < ctx.sub:
                    raise Unsupported("nested generic dict construction")
                part = Part(p.sorts, lambda *xs, i=i, r=r: g_at(r, i, xs, before), val)
                if d.d:
                    # existing entries may be overridden: keep only entries
                    # whose key is provably different
                    raise Unsupported("generic writes into a non-empty dict")
                ctx.mut_append(d.parts, part)
            elif kind == "wbulk":
                _, st, wref, comps, bk = e
                p2 = Part(p.sorts + bk.sorts, None, None)
                p2.guard = lambda *a, bk=bk: z3.substitute(z3.And([p.guard(*xs_const)] + bk.guards), *zip(xs_const + bk.xs, a))
                inv = invert(it, p2, xs_const + bk.xs, wref, r)
                n = len(xs_const)

                def pred(*rs, i=i, r=r, inv=inv, bk=bk):
                    xs = inv(*rs)
                    pairs = lift_pairs(ctx, p, r, f"{k}.{i}", xs_const, xs[:n]) + list(zip(bk.xs, xs[n:]))
                    return simp(z3.And([g_at(r, i, xs[:n], before)] + [z3.substitute(g, *pairs) for g in bk.guards]))

                def valf(*args, i=i, r=r, inv=inv, bk=bk, comps=comps):
                    xs = inv(*args[:-1])
                    pairs = lift_pairs(ctx, p, r, f"{k}.{i}", xs_const, xs[:n]) + list(zip(bk.xs, xs[n:]))
                    return [simp(z3.substitute(t, *pairs)) for t in comps]

                if bk.fresh:
                    raise Unsupported("nested loop writes values created in its body")
                st.bulk(pred, valf)
                if ctx.sub:
                    raise Unsupported("bulk write inside nested generic iterations")
        for ev in r.events:
            def val(*xs, i=i, r=r, ev=ev):
                pairs = lift_pairs(ctx, p, r, f"{k}.{i}", xs_const, xs)
                return tuple(subst_val(x, pairs) if not isinstance(x, str) else x for x in ev)

            if ev[0] == "each":
                inner = ev[1]

                def guard2(*xs, i=i, r=r, inner=inner):
                    n = len(xs_const)
                    o, rest = xs[:n], xs[n:]
                    pairs = lift_pairs(ctx, p, r, f"{k}.{i}", xs_const, o)
                    return simp(z3.And(g_at(r, i, o, before), z3.substitute(inner.guard(*rest), *pairs)))

                def val2(*xs, i=i, r=r, inner=inner):
                    n = len(xs_const)
                    o, rest = xs[:n], xs[n:]
                    pairs = lift_pairs(ctx, p, r, f"{k}.{i}", xs_const, o)
                    return subst_val(inner.val(*rest), pairs)

                ctx.event("each", Part(p.sorts + inner.sorts, guard2, val2))
            else:
                ctx.event("each", Part(p.sorts, lambda *xs, i=i, r=r: g_at(r, i, xs, before), val))
    # counters
    for kk, (e, name, c, v) in counters.items():
        tot = v.t if isinstance(v, SInt) else z3.IntVal(v)
        for i, r in normals:
            nv = None
            for eff in r.log:
                if eff[0] == "wvar" and (id(eff[1]), eff[2]) == kk:
                    nv = eff[4]
            if nv is None:
                continue
            dlt = simp(it._nt(it.num_or_none(nv), False) - c)
            if not z3.is_int_value(dlt):
                raise Unsupported(f"loop-carried variable {name} is not a counter")
            cnt = count_part(it, Part(p.sorts, lambda *xs, i=i, r=r: g_at(r, i, xs, before), None))
            tot = tot + cnt * dlt
        it.set_var(_Setter(e), name, lift(SInt(simp(tot))))
    # plain variables written in the body: value after the loop
    for kk, (o, name) in written.items():
        if kk in counters:
            continue
        is_attr = kk[0] == "a"
        writers = []
        for i, r in normals:
            nv = POISON
            for eff in r.log:
                if eff[0] == ("wattr" if is_attr else "wvar") and eff[1] is o and eff[2] == name:
                    nv = eff[4]
            if nv is not POISON:
                writers.append((i, r, nv))
        vals = o.attrs if is_attr else o.vars
        if not is_attr and (name not in vals or vals[name] is POISON or len(writers) == len(normals) and len(normals) > 0 and False):
            ctx.mut_dict(vals, name, POISON)
            continue
        if not writers:
            continue
        # constant writes keep a definite value; anything else: some element
        # was the last writer
        const = all(not is_sym(nv) and not isinstance(nv, V) for _, _, nv in writers)
        old = vals[name]
        if const and all(nv is writers[0][2] or nv == writers[0][2] for _, _, nv in writers) and not is_sym(old) and type(old) is type(writers[0][2]) and old == writers[0][2]:
            continue
        sel = ctx.choose([None] * (1 + len(writers)))
        if sel == 0:
            for i, r, nv in writers:
                ctx.forall(p.sorts, lambda *xs, i=i, r=r: z3.Not(g_at(r, i, xs, before)), "nowrite")
            if ctx.check() == z3.unsat:
                raise Infeasible
            continue
        i, r, nv = writers[sel - 1]
        xw = [ctx.fresh(f"lastw{k}_{s}", sort_of(s)) for s in p.sorts]
        ctx.assume(g_at(r, i, xw, before))
        for s, x in zip(p.sorts, xw):
            ctx.know(s, x)
        if ctx.check() == z3.unsat:
            raise Infeasible
        pairs = lift_pairs(ctx, p, r, f"{k}.{i}", xs_const, xw)
        nv2 = subst_val(nv, pairs)
        if is_attr:
            it.setattr(o, name, nv2)
        else:
            it.set_var(_Setter(o), name, nv2)


class _Setter:
    """Write to exactly this scope."""

    def __init__(self, e):
        self.vars = e.vars
        self.level = e.level
        self.globals_ = ()
        self.nonlocals = ()
        self.parent = None


# ------------------------------------------------------------------ counting


def count_part(it, p):
    ctx = it.ctx
    cs = [z3.Const(f"cv{i}_{s}", sort_of(s)) for i, s in enumerate(p.sorts)]
    if not p.sorts:
        return z3.If(p.guard(), z3.IntVal(1), z3.IntVal(0))
    g = simp(p.guard(*cs))
    if is_false(g):
        return z3.IntVal(0)
    key = (p.sorts, g.get_id())
    tbl = ctx.counts
    if key in tbl:
        return tbl[key][0]
    c = ctx.fresh("cnt", z3.IntSort())
    ctx.mut_dict(tbl, key, (c, p, g, cs))
    ctx.assume(c >= 0)
    ctx.forall(p.sorts, lambda *xs: z3.Implies(z3.substitute(g, *zip(cs, xs)), c >= 1), "count")
    wit = [ctx.fresh(f"cw_{s}", sort_of(s)) for s in p.sorts]
    ctx.assume(z3.Implies(c >= 1, p.guard(*wit)))
    for s, w in zip(p.sorts, wit):
        ctx.know(s, w)
    return c


def _valid_at(ctx, sorts, fn):
    """PC and universal hypotheses entail fn(x) for a fresh x."""
    ctx.solver.push()
    m = ctx.mark()
    try:
        xs = [z3.Const(f"lem{i}_{s}", sort_of(s)) for i, s in enumerate(sorts)]
        for s, x in zip(sorts, xs):
            ctx.know(s, x)
        ctx.solver.add(z3.Not(fn(*xs)))
        return core.qcheck(ctx.solver)[0] == z3.unsat
    finally:
        ctx.undo_to(m)
        ctx.solver.pop()


def count_lemmas(it):
    """Instantiate cardinality lemmas between all counted sets of this path:
    subset => <=, point difference => +1, disjoint union => sum."""
    ctx = it.ctx
    items = list(ctx.counts.values())
    done = ctx.state.setdefault("count_lem", set())
    bysort = {}
    for x in items:
        bysort.setdefault(x[1].sorts, []).append(x)
    for sorts, lst in bysort.items():
        if len(sorts) != 1:
            continue
        for a in lst:
            for b in lst:
                if a is b:
                    continue
                key = (a[0].get_id(), b[0].get_id(), len(ctx.pc) and 0)
                if key in done:
                    continue
                done.add(key)
                sub = _valid_at(ctx, sorts, lambda x: z3.Implies(a[1].guard(x), b[1].guard(x)))
                if sub:
                    ctx.assume(a[0] <= b[0], "lemma")
                    # difference set
                    dp = Part(sorts, lambda x, a=a, b=b: z3.And(b[1].guard(x), z3.Not(a[1].guard(x))), None)
                    if ctx.sub == 0 and len(items) <= 14:
                        d = count_part(it, dp)
                        ctx.assume(b[0] == a[0] + d, "lemma")
                        # singleton difference with a known element
                        for y in list(ctx.known.get(sorts[0], ())):
                            if _valid_at(ctx, sorts, lambda x: z3.Implies(dp.guard(x), x == y)):
                                ctx.assume(d <= 1, "lemma")
                                break


def equate_counts(it):
    """Counts of sets with the same elements are equal."""
    ctx = it.ctx
    by = {}
    for a in ctx.counts.values():
        if len(a[1].sorts) == 1:
            by.setdefault(a[1].sorts, []).append(a)
    eqs = []
    for sorts, lst in by.items():
        if len(lst) < 2:
            continue
        ctx.solver.push()
        m = ctx.mark()
        try:
            x = z3.Const(f"lem0_{sorts[0]}", sort_of(sorts[0]))
            ctx.know(sorts[0], x)
            gs = [a[1].guard(x) for a in lst]
            classes = []
            for i, g in enumerate(gs):
                for c in classes:
                    if core.qcheck(ctx.solver, g != gs[c[0]])[0] == z3.unsat:
                        c.append(i)
                        break
                else:
                    classes.append([i])
        finally:
            ctx.undo_to(m)
            ctx.solver.pop()
        eqs += [lst[c[0]][0] == lst[i][0] for c in classes for i in c[1:]]
    for e in eqs:
        ctx.assume(e, "lemma")


def count_union(it, whole, parts):
    """The counted set whole, as the disjoint union of parts (proved here)."""
    ctx = it.ctx
    w = count_part(it, whole)
    cs = [count_part(it, p) for p in parts]
    g = lambda p, x: p.guard(x)
    ok = _valid_at(ctx, whole.sorts, lambda x: z3.And(
        g(whole, x) == z3.Or([g(p, x) for p in parts]), *[z3.Not(z3.And(g(p, x), g(q, x))) for i, p in enumerate(parts) for q in parts[i + 1 :]]))
    if ok:
        ctx.assume(w == z3.Sum(cs), "lemma")
    return w


def take(it, items, kt):
    """First kt elements of a segmented collection, as a predicate."""
    ctx = it.ctx
    out = []
    segs = []
    tot = z3.IntVal(0)
    for x in items:
        if isinstance(x, SSeq):
            raise Unsupported("prefix of mixed sequence")
        if isinstance(x, Part):
            f = ctx.fresh_fn("picked", *[sort_of(s) for s in x.sorts], z3.BoolSort()) if x.sorts else None
            if f is None:
                b = ctx.fresh("pickedc", z3.BoolSort())
                pk = Part((), lambda x=x, b=b: z3.And(x.guard(), b), x.val)
            else:
                pk = Part(x.sorts, lambda *xs, x=x, f=f: z3.And(x.guard(*xs), f(*xs)), x.val)
            segs.append((x, pk))
            out.append(pk)
        else:
            b = ctx.fresh("pickedc", z3.BoolSort())
            full = Part((), lambda: z3.BoolVal(True), lambda x=x: x)
            pk = Part((), lambda b=b: b, lambda x=x: x)
            segs.append((full, pk))
            out.append(pk)
    kt = simp(kt)
    counts = [count_part(it, pk) for _, pk in segs]
    totals = [count_part(it, full) for full, _ in segs]
    ctx.assume(z3.Sum(counts) == kt if counts else kt == 0)
    for (full, pk), c, t in zip(segs, counts, totals):
        ctx.assume(c <= t)
        if full.sorts:
            ctx.forall(full.sorts, lambda *xs, full=full, pk=pk, c=c, t=t: z3.Implies(z3.And(c == t, full.guard(*xs)), pk.guard(*xs)), "take-all")
    off = z3.IntVal(0)
    for j, ((full, pk), c, t) in enumerate(zip(segs, counts, totals)):
        # a later segment contributes only once this one is exhausted
        later = z3.Sum(counts[j + 1 :]) if counts[j + 1 :] else z3.IntVal(0)
        ctx.assume(z3.Implies(later > 0, c == t))
    return VList(out, it.level)


def extremum(it, items, op, key, kw):
    ctx = it.ctx
    parts = [seq_part(x) if isinstance(x, SSeq) else x for x in items]
    if key is not None or any(not isinstance(x, Part) for x in parts):
        raise Unsupported("min/max over mixed collection")
    if not it.ctx.branch(it.nonempty_parts(parts)):
        if "default" in kw:
            return kw["default"]
        it.raise_(ValueError, "arg is an empty sequence")
    if len(parts) != 1:
        raise Unsupported("min/max over several segments")
    p = parts[0]
    xs = it.fresh_elem(p, "ext")
    m = p.val(*xs)
    nm = it.num_or_none(m)
    if nm is None:
        raise Unsupported("min/max of non-numbers")

    def le(*ys):
        nv = it.num_or_none(p.val(*ys))
        t = it._numcmp("<=" if op == "min" else ">=", nm, nv)
        t = z3.BoolVal(t) if isinstance(t, bool) else t
        return z3.Implies(p.guard(*ys), t)

    ctx.forall_t(p.sorts, le, "extremum")
    return m
