"""Contracts: declaration, execution of the function under contract from an
arbitrary pre-state, discharge of its clauses, reachability guards."""
import time
import traceback

import z3

from .core import *
from .core import PyRaise
from .vals import *
from . import core, generic
from .interp import Interp, Repo

REGISTRY = {}  # property id -> list of Contract


class Contract:
    def __init__(self, pid, target, name, fn, opts):
        self.pid = pid
        self.target = target
        self.name = name
        self.fn = fn
        self.opts = opts


def contract(pid, target, name=None, **opts):
    """Registers a contract for property `pid` on repository function
    `target` (dotted name)."""

    def deco(fn):
        REGISTRY.setdefault(pid, []).append(Contract(pid, target, name or fn.__name__, fn, opts))
        return fn

    return deco


class Outcome:
    def __init__(self, kind, val):
        self.kind = kind  # "return" | "raise"
        self.val = val

    @property
    def ok(self):
        return self.kind == "return"

    def exc_name(self):
        c = getattr(self.val, "cls", None)
        if isinstance(c, ClassInfo):
            return c.name
        if isinstance(c, ExtV):
            return c.path.split(".")[-1]
        return getattr(c, "__name__", str(c))


class V:
    """One path of one contract."""

    def __init__(self, ctx, repo, rep, con):
        self.ctx = ctx
        self.rep = rep
        self.con = con
        self.it = Interp(ctx, repo, dict(con.opts.get("overrides", {})), dict(con.opts.get("lib", {})))
        self._case = None
        from .libs import DEFAULT_LIB

        for k, f in DEFAULT_LIB.items():
            self.it.lib.setdefault(k, f)

    # ---- symbols
    def int(self, n, lo=None, hi=None):
        t = z3.Int(n)
        if lo is not None:
            self.ctx.assume(t >= lo)
        if hi is not None:
            self.ctx.assume(t <= hi)
        return SInt(t)

    def real(self, n):
        return SReal(z3.Real(n))

    def bool(self, n):
        return SBool(z3.Bool(n))

    def str(self, n):
        return SStr(z3.String(n))

    def opaque(self, n, kind="value"):
        return SOpaque(kind, z3.Const(n, ref_sort("Val")))

    def enum(self, n, cls):
        if isinstance(cls, str):
            cls = self.it.get_class(cls)
        t = z3.Int(n)
        self.ctx.assume(z3.Or([t == m.value for m in cls.enum.values()]))
        return SEnum(cls, t)

    def opt(self, n, val):
        return SOpt(z3.Bool(n + "_none"), val)

    def dyn(self, n, alts):
        return Dyn(n, [(lab, None, (lambda val=val: val) if not callable(val) or is_sym(val) else val) for lab, val in alts])

    def ref(self, n, cls, sort):
        t = z3.Const(n, ref_sort(sort))
        self.ctx.know(sort, t)
        return SRef(cls, t)

    def cls(self, qual):
        return self.it.get_class(qual)

    def func(self, qual):
        return self.it.get_func(qual)

    def obj(self, cls, /, **attrs):
        if isinstance(cls, str):
            cls = self.it.get_class(cls) if "." in cls else Fake(cls)
        o = Obj(cls, attrs)
        o.partial = True
        return o

    def fake(self, name, /, **attrs):
        """Collaborator outside the contract: only the given attributes exist."""
        return Obj(Fake(name), attrs)

    def native(self, fn, name="fn"):
        return Native(name, fn)

    def afn(self, fn, name="afn"):
        """Async model function."""
        return Native(name, lambda it, a, k: Coro(lambda: fn(it, a, k), name))

    def mdict(self, **kw):
        d = VDict()
        for k, v in kw.items():
            d.d[hk(k)] = (k, v)
        return d

    def pydict(self, dct):
        d = VDict()
        for k, v in dct.items():
            d.d[hk(k)] = (k, v)
        return d

    # ---- execution
    def run(self, f, *args, **kwargs):
        """Runs the function under contract (its body), returns Outcome."""
        it = self.it
        if isinstance(f, str):
            f = it.get_func(f)
        self.inline_root = f.qual if isinstance(f, FuncV) else None
        try:
            if isinstance(f, PropV):
                f = f.getter
            if isinstance(f, FuncV):
                r = it.call_func(f, list(args), dict(kwargs), force_inline=True)
            else:
                r = it.call(f, list(args), dict(kwargs))
            if isinstance(r, Coro):
                r = it.await_(r)
            elif isinstance(r, GenV):
                r = r.thunk()
            out = Outcome("return", r)
        except PyRaise as e:
            out = Outcome("raise", e.val)
        self.rep.paths += 1
        if self.ctx.check() == z3.unsat:
            raise Infeasible
        return out

    def attempt(self, thunk):
        try:
            r = thunk()
            if isinstance(r, Coro):
                r = self.it.await_(r)
            return Outcome("return", r)
        except PyRaise as e:
            return Outcome("raise", e.val)

    # ---- obligations
    def case(self, fn):
        """fn(model, ev) -> JSON case for the replay harness."""
        self._case = fn

    alt = None

    def aux(self, clause, goal):
        """An invariant guess rather than a property: when it is not kept, the
        next alternative of the contract is tried."""
        ok = self.prove(clause, goal)
        self.rep.obligation(clause).aux = True
        return ok

    def prove(self, clause, goal, case=None):
        goal = self.term(goal)
        fn = case or self._case

        def describe(m):
            if fn is None:
                return None
            return fn(ModelEval(m))

        return prove(self.ctx, self.rep, clause, goal, describe)

    def unreachable(self, clause, case=None):
        return self.prove(clause, z3.BoolVal(False), case)

    def ok_or(self, out, clause):
        """The function must not raise on this path."""
        if out.kind == "raise":
            self.prove(clause, z3.BoolVal(False))
            return False
        self.prove(clause, z3.BoolVal(True))
        return True

    def cover(self, name):
        """This point must be reachable on some path (vacuity guard)."""
        if name not in self.rep.covers or not self.rep.covers[name]:
            self.rep.covers[name] = self.ctx.check() == z3.sat

    def expect_covers(self, *names):
        for n in names:
            self.rep.covers.setdefault(n, False)

    def assume(self, t):
        self.ctx.assume(self.term(t))

    def term(self, t):
        if isinstance(t, bool):
            return z3.BoolVal(t)
        if isinstance(t, SBool):
            return t.t
        return t

    def eq(self, a, b):
        t = self.it.eq(a, b)
        return z3.BoolVal(t) if isinstance(t, bool) else t

    def cmp(self, op, a, b):
        t = self.it.compare(op, a, b)
        return z3.BoolVal(t) if isinstance(t, bool) else t

    def truth(self, v):
        return self.it.truth(v)

    def choose(self, *labels):
        return labels[self.ctx.choose([None] * len(labels))]

    def events(self, kind=None):
        return [e for e in self.ctx.events if kind is None or e[0] == kind]

    def event_parts(self, kind):
        """All events of a kind as Parts (generic ones included)."""
        out = []
        for e in self.ctx.events:
            if e[0] == kind:
                out.append(Part((), lambda: z3.BoolVal(True), lambda e=e: e))
            elif e[0] == "each":
                p = e[1]
                # kind is constant per part
                probe = p.val(*[z3.Const(f"pr{i}_{s}", generic.sort_of(s)) for i, s in enumerate(p.sorts)])
                if probe[0] == kind:
                    out.append(p)
        return out


class Fake:
    """Class of a modelled collaborator."""

    def __init__(self, name, bases=()):
        self.name = name
        self.bases = bases

    def __repr__(self):
        return f"<fake {self.name}>"


class ModelEval:
    def __init__(self, m):
        self.m = m

    def __call__(self, v):
        """Python value of an interpreter value in the model."""
        if isinstance(v, z3.ExprRef):
            return pyval(self.m.eval(v, model_completion=True))
        if isinstance(v, SOpt):
            return None if self(v.none) else self(v.val)
        if isinstance(v, Dyn):
            return self(v.chosen[1]) if v.chosen else None
        if isinstance(v, EnumMember):
            return v.name
        if isinstance(v, SEnum):
            k = self(v.t)
            for m in v.cls.enum.values():
                if m.value == k:
                    return m.name
            return k
        if isinstance(v, SSeq):
            n = min(self(v.n), 50)
            return [self(v.at(z3.IntVal(i))) for i in range(n)]
        if isinstance(v, Sym):
            return self(v.t)
        if isinstance(v, VList):
            return [self(x) for x in v.items]
        if isinstance(v, tuple):
            return [self(x) for x in v]
        if isinstance(v, VDict):
            return {str(self(k)): self(x) for k, x in v.d.values()}
        return v


def pyval(t):
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return float(t.as_fraction())
    if z3.is_algebraic_value(t):
        return float(t.approx(10).as_fraction())
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    if z3.is_string_value(t):
        return pystr(t)
    return str(t)


def run_contract(con, repo_base="/repo", budget_s=None):
    """Returns a JSON-able result. A contract may offer alternatives
    (invariants tried in turn, the last possibly a bounded unrolling)."""
    alts = con.opts.get("alternatives") or [None]
    first = None
    for alt in alts:
        r = run_alternative(con, repo_base, budget_s, alt)
        bad = [o for o in r["obligations"] if o["aux"] and o["status"] != "proved"]
        if not bad and r["status"] == "ok":
            if alt is not None and str(alt).startswith("bounded"):
                r["bounded"] = f"{con.target}: {alt}"
            return r
        first = first or r
    if any(o["aux"] for o in first["obligations"]) and first["status"] == "ok":
        for o in first["obligations"]:
            if o["status"] == "refuted":
                o["status"], o["detail"] = "unknown", "no invariant found"
        first["status"], first["error"] = "undecided", "no alternative invariant is kept"
    return first


def run_alternative(con, repo_base, budget_s, alt):
    rep = Report(f"{con.target}[{con.name}]")
    repo = Repo(repo_base)
    core.STATS = STATS  # same object
    t0 = time.time()
    q0, s0 = STATS.queries, STATS.solver_s
    inl = set()

    def path(ctx):
        v = V(ctx, repo, rep, con)
        v.alt = alt
        try:
            con.fn(v)
        finally:
            inl.update(v.it.inlined)

    status = "ok"
    err = None
    try:
        explore(path, con.opts.get("max_paths", 3000), budget_s or con.opts.get("budget", 150))
    except Unsupported as e:
        status, err = "unsupported", str(e)
    except PathLimit as e:
        status, err = "limit", str(e)
    except RecursionError as e:
        status, err = "unsupported", "recursion"
    except z3.Z3Exception as e:
        status, err = "error", "z3: " + str(e)[:300] + traceback.format_exc()[-1500:]
    except Exception as e:
        status, err = "error", repr(e) + "\n" + traceback.format_exc()[-3000:]
    vac = [c for c, ok in rep.covers.items() if not ok]
    if status == "ok" and vac:
        status, err = "vacuous", f"unreachable: {vac}"
    if status == "ok" and not rep.obl:
        status, err = "vacuous", "no obligations"
    return {
        "contract": con.name,
        "target": con.target,
        "status": status,
        "error": err,
        "paths": rep.paths,
        "covers": rep.covers,
        "obligations": [
            {"name": o.name, "status": o.status, "vcs": o.queries, "time": round(o.time, 3), "detail": o.detail, "case": o.model, "aux": bool(getattr(o, "aux", False))}
            for o in rep.obl.values()
        ],
        "inlined": sorted(inl),
        "queries": STATS.queries - q0,
        "solver_s": round(STATS.solver_s - s0, 3),
        "wall_s": round(time.time() - t0, 2),
        "assumes": con.opts.get("assumes", []),
        "bounded": con.opts.get("bounded"),
        "cvc5": [STATS.cvc5_checked, STATS.cvc5_unknown, STATS.cvc5_disagree],
    }
