"""Core of the verifier: symbolic values, path exploration, state with undo,
universally quantified hypotheses, obligations.

The verifier works on the source text of /repo, parsed afresh on every run.
Each function is executed symbolically from an arbitrary pre-state satisfying
its precondition; every feasible path ends in obligations discharged by z3
(and re-checked by cvc5 in the thorough tier)."""
import os
import time

import z3

z3.set_param("smt.random_seed", 0)


class Unsupported(Exception):
    """Construct outside the verifier's reach: result is 'undecided'."""


class Infeasible(Exception):
    """Current path is infeasible (pruned)."""


class PathLimit(Exception):
    pass


class PyRaise(Exception):
    """An exception of the interpreted program."""

    def __init__(self, val):
        self.val = val


class ReturnEx(Exception):
    def __init__(self, val):
        self.val = val


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class LoopExit(Exception):
    """Ends a generic iteration (internal)."""


# --------------------------------------------------------------------- values


class Sym:
    __slots__ = ()


class SInt(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SInt({self.t})"


class SReal(Sym):
    """A finite float, treated as a mathematical real."""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SReal({self.t})"


class SBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SBool({self.t})"


class SStr(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SStr({self.t})"


class SBytes(Sym):
    """Opaque bytes, modelled with the string sort."""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SBytes({self.t})"


class SEnum(Sym):
    """Symbolic member of an interpreted enum (term is the member's value)."""

    __slots__ = ("cls", "t")

    def __init__(self, cls, t):
        self.cls = cls
        self.t = t

    def __repr__(self):
        return f"SEnum({self.cls.name},{self.t})"


class SOpaque(Sym):
    """A value the code only passes around (equality only)."""

    __slots__ = ("kind", "t")

    def __init__(self, kind, t):
        self.kind = kind
        self.t = t

    def __repr__(self):
        return f"SOpaque({self.kind},{self.t})"


class SOpt(Sym):
    """None if `none` holds, else `val`."""

    __slots__ = ("none", "val")

    def __init__(self, none, val):
        self.none = none
        self.val = val

    def __repr__(self):
        return f"SOpt({self.none},{self.val})"


class SRef(Sym):
    """Object with symbolic identity; fields live in ctx.heap."""

    __slots__ = ("cls", "t")

    def __init__(self, cls, t):
        self.cls = cls
        self.t = t

    def __repr__(self):
        return f"SRef({getattr(self.cls, 'name', self.cls)},{self.t})"


class Dyn(Sym):
    """Value of unknown dynamic type: refined lazily by forking over its
    alternatives the first time the program inspects it.
    alts: list of (label, constraint-or-None, thunk)."""

    _n = 0

    def __init__(self, name, alts):
        self.name = name
        self.alts = alts
        self.chosen = None  # (label, value)

    def __repr__(self):
        return f"Dyn({self.name},{self.chosen})"


def is_sym(v):
    return isinstance(v, Sym)


# ------------------------------------------------------------------- ref sorts

_ref_sorts = {}


def ref_sort(name):
    s = _ref_sorts.get(name)
    if s is None:
        s = _ref_sorts[name] = z3.DeclareSort(name)
    return s


def simp(t):
    return z3.simplify(t)


def is_true(t):
    return z3.is_true(t)


def is_false(t):
    return z3.is_false(t)


# -------------------------------------------------------------------- contexts


def _sort_of(s):
    return z3.IntSort() if s == "Int" else (z3.StringSort() if s == "Str" else ref_sort(s))


class Hyp:
    """Universally quantified hypothesis over one or two refs of given sorts."""

    __slots__ = ("sorts", "fn", "done", "label")

    def __init__(self, sorts, fn, label):
        self.sorts = sorts
        self.fn = fn
        self.done = set()
        self.label = label


class Obligation:
    __slots__ = ("name", "status", "detail", "time", "model", "aux", "queries")

    def __init__(self, name):
        self.name = name
        self.status = "proved"  # proved | refuted | unknown
        self.detail = None
        self.time = 0.0
        self.model = None
        self.queries = 0
        self.aux = False


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.feas = 0
        self.cvc5_checked = 0
        self.cvc5_unknown = 0
        self.cvc5_disagree = []


STATS = Stats()
CROSSCHECK = os.environ.get("VERIF_TIER") == "thorough"
QUERY_TIMEOUT = 20000
FAST_TIMEOUT = 300


class Answer:
    """What a solver in a context of its own answered, for prove()."""

    def __init__(self, s):
        self.s = s

    def model(self):
        return self.s.model().translate(z3.main_ctx())

    def reason_unknown(self):
        return self.s.reason_unknown()


_PLAIN = {}


def plain(t):
    """Whether t only uses the theories of the quick solver (uninterpreted
    functions, linear arithmetic): strings may only be compared."""
    stack = [t]
    todo = []
    while stack:
        x = stack.pop()
        i = x.get_id()
        r = _PLAIN.get(i)
        if r is not None:
            if not r[0]:
                return False
            continue
        ok = True
        if z3.is_quantifier(x) or z3.is_var(x):
            ok = False
        else:
            k = x.sort_kind() if hasattr(x, "sort_kind") else x.sort().kind()
            d = x.decl()
            dk = d.kind()
            if k == z3.Z3_SEQ_SORT or k == z3.Z3_RE_SORT:
                ok = dk in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_ITE)
            elif k not in (z3.Z3_BOOL_SORT, z3.Z3_INT_SORT, z3.Z3_REAL_SORT, z3.Z3_UNINTERPRETED_SORT):
                ok = False
            elif dk not in _PLAIN_OPS:
                ok = dk == z3.Z3_OP_MUL and sum(1 for c in x.children() if not z3.is_int_value(c) and not z3.is_rational_value(c)) <= 1
        _PLAIN[i] = (ok, x)
        if not ok:
            return False
        stack.extend(x.children())
    return True


_PLAIN_OPS = {
    z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR, z3.Z3_OP_IFF,
    z3.Z3_OP_TRUE, z3.Z3_OP_FALSE, z3.Z3_OP_ANUM, z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_TO_REAL,
}


class Dual:
    """Two solvers with the same assertions: a quick one without the theories
    of strings, sequences and non-linear arithmetic, whose "unsat" always
    counts and whose "sat" counts where those theories do not occur, and the
    full one."""

    def __init__(self):
        self.lite = z3.SolverFor("AUFLIRA")
        self.lite.set("timeout", FAST_TIMEOUT)
        self.full = z3.Solver()
        self.full.set("timeout", FAST_TIMEOUT)
        self.level = 0
        self.fancy = None  # level at which other theories came in

    def add(self, *ts):
        for t in ts:
            self.lite.add(t)
            self.full.add(t)
            if self.fancy is None and not plain(t):
                self.fancy = self.level

    def push(self):
        self.level += 1
        self.lite.push()
        self.full.push()

    def pop(self):
        self.lite.pop()
        self.full.pop()
        if self.fancy is not None and self.fancy == self.level:
            self.fancy = None
        self.level -= 1

    def assertions(self):
        return self.full.assertions()

    def check(self, *extra):
        r = self.lite.check(*extra)
        if r == z3.unsat:
            return r
        if r == z3.sat and self.fancy is None and all(plain(t) for t in extra):
            return r
        return None


def qcheck(solver, *extra, model=False):
    """Satisfiability of the solver's assertions and extra: by the quick
    solver, the full one incrementally, then from scratch in a fresh context
    (where the solver preprocesses the whole problem).  Returns the result and
    who has the model."""
    r = solver.check(*extra)
    if r == z3.unsat or (r == z3.sat and not model):
        return r, None
    if r is None or not model:
        r = solver.full.check(*extra)
        if r != z3.unknown:
            return r, solver.full
    for seed in (None, 7):
        x = z3.Context()
        s = z3.Solver(ctx=x)
        s.set("timeout", QUERY_TIMEOUT if seed is None else QUERY_TIMEOUT // 4)
        if seed is not None:
            # (a solver with a seed does without the preprocessing)
            s.set("random_seed", seed)
        for t in list(solver.assertions()) + list(extra):
            s.add(t.translate(x))
        r = s.check()
        if r != z3.unknown:
            break
    return r, Answer(s)




class Ctx:
    """State of one path execution."""

    def __init__(self, prefix):
        self.prefix = list(prefix)
        self.pos = 0
        self.taken = []
        self.pending = []  # alternatives discovered: list of prefixes
        self.solver = Dual()
        self.pc = []  # all asserted (for reports)
        self.pc_kinds = []
        self.trail = []
        self.names = {}
        self.hyps = []
        self.known = {}  # sort name -> list of (id, term)
        self.known_ids = set()
        self.facts_seen = set()
        self.events = []
        self.sub = 0  # depth of sub-exploration
        self.sub_ctl = None
        self.notes = []
        self.cex_vals = {}  # name -> term or callable for counterexample printing
        self.const_fields = {}
        self.counts = {}
        self.deadline = None
        self.state = {}
        self.memo = {}  # shared by the paths of one exploration
        self.outer_key = ()
        self.outer_replay = False
        self.qn = 0

    def replaying(self):
        """Still following decisions a previous path already took: everything
        up to the last of them was checked there."""
        return self.outer_replay or self.pos < len(self.prefix)

    # --- naming
    def fresh(self, base, sort):
        k = self.names.get(base, 0)
        self.mut_dict(self.names, base, k + 1)
        c = z3.Const(f"{base}!{k}", sort)
        fl = self.state.get("freshlog")
        if fl is not None:
            fl.append(c)
        return c

    def fresh_fn(self, base, *sorts):
        k = self.names.get(base, 0)
        self.mut_dict(self.names, base, k + 1)
        if self.state.get("freshlog") is not None:
            self.state["freshfn"] = True
        return z3.Function(f"{base}!{k}", *sorts)

    # --- undoable mutation
    def mut_dict(self, d, k, v):
        if k in d:
            old = d[k]
            self.trail.append(lambda: d.__setitem__(k, old))
        else:
            self.trail.append(lambda: d.pop(k, None))
        d[k] = v

    def mut_del(self, d, k):
        # keep dict order on undo
        snap = dict(d)

        def undo():
            d.clear()
            d.update(snap)

        self.trail.append(undo)
        del d[k]

    def mut_attr(self, o, a, v):
        if hasattr(o, a):
            old = getattr(o, a)
            self.trail.append(lambda: setattr(o, a, old))
        else:
            self.trail.append(lambda: delattr(o, a))
        setattr(o, a, v)

    def mut_list(self, lst, new):
        snap = list(lst)

        def undo():
            lst[:] = snap

        self.trail.append(undo)
        lst[:] = new

    def mut_append(self, lst, x):
        self.trail.append(lambda: lst.pop())
        lst.append(x)

    def mark(self):
        return len(self.trail)

    def undo_to(self, m):
        while len(self.trail) > m:
            self.trail.pop()()

    # --- assumptions
    def assume(self, t, kind="assume"):
        t = simp(t) if not isinstance(t, bool) else z3.BoolVal(t)
        if is_true(t):
            return
        self.solver.add(t)
        self.mut_append(self.pc, t)
        self.mut_append(self.pc_kinds, kind)
        if is_false(t):
            raise Infeasible

    def check(self, *extra):
        # queries are numbered from the last decision on: those made to take a
        # decision are not repeated when it is replayed
        self.qn += 1
        key = (self.outer_key, tuple(self.taken), self.qn)
        # the same query: otherwise it is made again
        sig = (len(self.pc), self.pc[-1].hash() if self.pc else 0, tuple(x.hash() for x in extra if isinstance(x, z3.AstRef)))
        if self.replaying():
            r = self.memo.get(key)
            if r is not None and r[1] == sig:
                return r[0]
        t0 = time.time()
        STATS.feas += 1
        r, _ = qcheck(self.solver, *extra)
        STATS.solver_s += time.time() - t0
        self.memo[key] = (r, sig)
        return r

    def feasible(self, t):
        return self.check(t) != z3.unsat

    def entails(self, t):
        t = simp(t)
        if is_true(t):
            return True
        if is_false(t):
            return self.check() == z3.unsat
        return self.check(z3.Not(t)) == z3.unsat

    # --- decisions
    def choose(self, conds, labels=None):
        """Pick one alternative; conds are z3 Bools (assumed when taken)."""
        n = len(conds)
        if self.pos < len(self.prefix):
            i = self.prefix[self.pos]
            self.pos += 1
            self.taken.append(i)
            self.qn = 0
            c = conds[i]
            if c is not None:
                self.assume(c, "branch")
            return i
        feas = []
        for i, c in enumerate(conds):
            if c is None:
                feas.append(i)
                continue
            c = simp(c)
            if is_false(c):
                continue
            if is_true(c) or self.feasible(c):
                feas.append(i)
        if not feas:
            raise Infeasible
        base = list(self.taken)
        for j in feas[1:]:
            self.pending.append(base + [j])
        i = feas[0]
        self.prefix.append(i)
        self.pos += 1
        self.taken.append(i)
        self.qn = 0
        if conds[i] is not None:
            self.assume(conds[i], "branch")
        return i

    def branch(self, t):
        """Fork on a boolean term; returns Python bool."""
        if isinstance(t, bool):
            return t
        t = simp(t)
        if is_true(t):
            return True
        if is_false(t):
            return False
        return self.choose([t, z3.Not(t)]) == 0

    # --- universal hypotheses
    def forall(self, sorts, fn, label=""):
        if isinstance(sorts, str):
            sorts = (sorts,)
        h = Hyp(tuple(sorts), fn, label)
        self.mut_append(self.hyps, h)
        self._inst(h)
        return h

    def forall_t(self, sorts, fn, label="", know=None, skip=None):
        """Like forall, for a pure fn: its formula is built once and
        instantiated by substitution.  know(*args) -> [(sort, term)] makes
        further terms known for each instance; skip(*args) suppresses it."""
        ph = [z3.Const(f"ph{i}_{s}", _sort_of(s)) for i, s in enumerate(sorts)]
        # now: fn may read state that changes later
        f = fn(*ph)
        cache = [simp(z3.And([x for x in (f if isinstance(f, (list, tuple)) else [f]) if x is not None]))]

        def inst(*args):
            if skip is not None and skip(*args):
                return None
            if know is not None:
                for s, t in know(*args):
                    self.know(s, t)
            return z3.substitute(cache[0], *zip(ph, args))

        return self.forall(sorts, inst, label)

    def know(self, sort, term):
        term = simp(term)
        key = (sort, term.get_id())
        if key in self.known_ids:
            return
        self.known_ids.add(key)
        self.trail.append(lambda: self.known_ids.discard(key))
        lst = self.known.get(sort)
        if lst is None:
            lst = self.known[sort] = []
        self.mut_append(lst, term)
        for h in list(self.hyps):
            if sort in h.sorts:
                self._inst(h, sort, term)

    def _inst(self, h, sort=None, term=None):
        if len(h.sorts) == 1:
            terms = [term] if term is not None else list(self.known.get(h.sorts[0], ()))
            for x in terms:
                self._add_inst(h, (x,))
        else:
            a, b = h.sorts
            A = list(self.known.get(a, ()))
            B = list(self.known.get(b, ()))
            for x in A:
                for y in B:
                    if term is not None and not (
                        (sort == a and x.eq(term)) or (sort == b and y.eq(term))
                    ):
                        continue
                    self._add_inst(h, (x, y))

    def _add_inst(self, h, args):
        key = tuple(a.get_id() for a in args)
        if key in h.done:
            return
        h.done.add(key)
        self.trail.append(lambda: h.done.discard(key))
        f = h.fn(*args)
        if f is None:
            return
        fs = f if isinstance(f, (list, tuple)) else [f]
        for g in fs:
            g = simp(g) if not isinstance(g, bool) else z3.BoolVal(g)
            if is_true(g):
                continue
            self.solver.add(g)
            self.mut_append(self.pc, g)
            self.mut_append(self.pc_kinds, "hyp")

    def event(self, kind, *args):
        self.mut_append(self.events, (kind,) + args)


class Report:
    """Collects obligations of one contracted function."""

    def __init__(self, fname):
        self.fname = fname
        self.obl = {}
        self.paths = 0
        self.normal_paths = 0
        self.unsupported = []
        self.errors = []
        self.covers = {}
        self.prunes = 0

    def obligation(self, clause):
        name = f"{self.fname}::{clause}"
        o = self.obl.get(name)
        if o is None:
            o = self.obl[name] = Obligation(name)
        return o


def prove(ctx, rep, clause, goal, describe=None):
    """Discharge one VC: path condition entails goal."""
    o = rep.obligation(clause)
    o.queries += 1
    STATS.queries += 1
    if isinstance(goal, bool):
        goal = z3.BoolVal(goal)
    g = simp(goal)
    if is_true(g):
        return True
    if ctx.replaying():
        o.queries -= 1
        STATS.queries -= 1
        return True
    t0 = time.time()
    r, msolver = qcheck(ctx.solver, z3.Not(g), model=True)
    dt = time.time() - t0
    STATS.solver_s += dt
    o.time += dt
    if r == z3.unsat:
        if CROSSCHECK:
            crosscheck(ctx, g, o)
        return True
    if r == z3.unknown:
        if o.status == "proved":
            o.status = "unknown"
            o.detail = f"solver: {msolver.reason_unknown()} goal: {str(g)[:400]}"
        return False
    if o.status != "refuted":
        o.status = "refuted"
        m = msolver.model()
        d = None
        if describe is not None:
            try:
                d = describe(m)
            except Exception as e:  # description is best effort
                d = f"(no description: {e!r})"
        o.model = d
        o.detail = {
            "goal": str(g)[:1500],
            "path": [str(p)[:300] for p, k in zip(ctx.pc, ctx.pc_kinds) if k == "branch"][-25:],
            "model": str(m)[:3000],
        }
    return False


def crosscheck(ctx, g, o):
    try:
        import cvc5
    except Exception:
        return
    s = z3.Solver()
    s.add(*ctx.pc)
    s.add(z3.Not(g))
    txt = s.to_smt2()
    try:
        slv = cvc5.Solver()
        slv.setOption("tlimit-per", "5000")
        slv.setOption("strings-exp", "true")
        slv.setLogic("ALL")
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "vc")
        sm = p.getSymbolManager()
        res = None
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            out = c.invoke(slv, sm)
            if out and out.strip() in ("sat", "unsat", "unknown"):
                res = out.strip()
        STATS.cvc5_checked += 1
        if res == "sat":
            STATS.cvc5_disagree.append(o.name)
            o.status = "unknown"
            o.detail = "z3 unsat but cvc5 sat"
        elif res != "unsat":
            STATS.cvc5_unknown += 1
    except Exception as e:
        STATS.cvc5_unknown += 1


def explore(run, max_paths=4000, budget_s=240):
    """Explore all paths of run(ctx). run must be deterministic given the
    decision prefix."""
    work = [[]]
    n = 0
    t0 = time.time()
    memo = {}
    while work:
        prefix = work.pop()
        ctx = Ctx(prefix)
        ctx.memo = memo
        n += 1
        if n > max_paths:
            raise PathLimit(f"more than {max_paths} paths")
        if time.time() - t0 > budget_s:
            raise PathLimit(f"exploration exceeded {budget_s}s ({n} paths)")
        try:
            run(ctx)
        except Infeasible:
            pass
        work.extend(ctx.pending)
        STATS.paths += 1
    return n
