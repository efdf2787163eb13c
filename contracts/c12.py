"""C12: the work queue, from any reachable state.

State of a queue: the queued items (a sequence without repetitions), the items
waiting to be handed out (dirty), the items held by consumers (processing),
the futures of waiting consumers, the delayed items. Invariants, assumed
before and proved after every operation and at every suspension:
  I1  an item is queued exactly if it is dirty and held by no consumer, once
  I2  a future that was woken is no longer waiting; no waiting future repeats
  I3  closed queues have no waiting consumers
  L   while open, either no consumer waits or at least as many consumers are
      woken and about to run as items are queued
"""
import ast

import z3

from pyvc.verify import *
from . import loops
from .sqlmodel import MISSING, SMap

WQ = "dask_gateway_server.workqueue.WorkQueue"
IT = ref_sort("Item")
FU = ref_sort("Future")
I = z3.IntSort()
A = [
    "asyncio futures and call_at/call_later timers; a coroutine keeps running until it awaits something that suspends",
    "callers call task_done(x) only for an item they were handed",
]


class Deque:
    """Sequence at[lo..hi-1] of a reference sort."""

    def __init__(self, w, name, sort):
        self.w, self.name, self.sort = w, name, sort
        self.havoc()

    def havoc(self):
        c = self.w.ctx
        self.at = c.fresh(self.name, z3.ArraySort(I, self.sort))
        self.lo, self.hi = c.fresh(self.name + "_lo", I), c.fresh(self.name + "_hi", I)
        self.idx = c.fresh_fn(self.name + "_idx", self.sort, I)
        c.assume(self.lo <= self.hi)

    def n(self):
        return z3.simplify(self.hi - self.lo)

    def snap(self):
        return self.at, self.lo, self.hi, self.idx

    def get(self, i):
        return z3.simplify(z3.Select(self.at, i))

    def item(self, t):
        return SOpaque("item", t) if self.sort == IT else SRef(self.w.fcls, t)

    def within(self, i):
        return z3.And(i >= self.lo, i < self.hi)

    def obj(self):
        w = self.w

        def append(it, a, k):
            self.at = z3.Store(self.at, self.hi, it.resolve(a[0]).t)
            self.hi = z3.simplify(self.hi + 1)

        def take(it, first):
            if not it.ctx.branch(self.lo < self.hi):
                it.raise_(IndexError, "pop from an empty deque")
            if first:
                t = self.get(self.lo)
                w.facts(self, self.lo)
                self.lo = z3.simplify(self.lo + 1)
            else:
                self.hi = z3.simplify(self.hi - 1)
                t = self.get(self.hi)
                w.facts(self, self.hi)
            return self.item(t)

        def pop(it, a, k):
            i = it.resolve(a[0]) if a else -1
            if i not in (0, -1):
                it.unsupported("pop from the middle")
            return take(it, i == 0)

        def find(it, x):
            """Position of x, or None."""
            p = it.ctx.fresh("found", I)
            there = z3.And(self.within(p), self.get(p) == x.t)
            if it.ctx.choose([None, None]) == 0:
                it.ctx.assume(there)
                w.facts(self, p)
                return p
            # nowhere
            w.absent(self, x.t)
            return None

        def remove(it, a, k):
            p = find(it, it.resolve(a[0]))
            if p is None:
                it.raise_(ValueError, "not in deque")
            i = z3.Int("i!rm")
            old = self.at
            self.at = z3.Lambda([i], z3.If(i < p, z3.Select(old, i), z3.Select(old, i + 1)))
            self.hi = z3.simplify(self.hi - 1)

        def clear(it, a, k):
            self.lo = self.hi

        return w.v.fake(
            "Deque",
            append=w.v.native(append), popleft=w.v.native(lambda it, a, k: take(it, True)), pop=w.v.native(pop), remove=w.v.native(remove), clear=w.v.native(clear),
            __len__=w.v.native(lambda it, a, k: SInt(self.n())), __bool__=w.v.native(lambda it, a, k: SBool(self.lo < self.hi)),
            __contains__=w.v.native(lambda it, a, k: find(it, it.resolve(a[0])) is not None),
        )


class Members:
    def __init__(self, w, name):
        self.w, self.name = w, name
        self.havoc()

    def havoc(self):
        self.t = self.w.ctx.fresh(self.name, z3.ArraySort(IT, z3.BoolSort()))

    def has(self, x):
        return z3.simplify(z3.Select(self.t, x))

    def obj(self):
        w = self.w

        def put(val, strict=False):
            def f(it, a, k):
                x = it.resolve(a[0]).t
                if strict and not it.ctx.branch(self.has(x)):
                    it.raise_(KeyError, "not in set")
                self.t = z3.Store(self.t, x, z3.BoolVal(val))

            return w.v.native(f)

        return w.v.fake("Members", add=put(True), discard=put(False), remove=put(False, True), __contains__=w.v.native(lambda it, a, k: SBool(self.has(it.resolve(a[0]).t))))


class World:
    def __init__(self, v, opened=None):
        self.v, self.it, self.ctx = v, v.it, v.ctx
        self.fcls = Fake("Future")
        self.ndone = 0
        self.queue = Deque(self, "queue", IT)
        self.wait = Deque(self, "waiting", FU)
        self.dirty, self.proc = Members(self, "dirty"), Members(self, "processing")
        self.closed = v.bool("closed")
        self.done = v.ctx.fresh("done", z3.ArraySort(FU, z3.BoolSort()))
        self.woken = 0
        self.mine = []
        h = v.it.attr_hooks
        h["Future.done"] = lambda it, o, n: Native("done", lambda it, a, k: SBool(z3.simplify(z3.Select(self.done, o.t))))
        h["Future.set_result"] = lambda it, o, n: Native("set_result", lambda it, a, k: self.wake(o))
        h["Future.cancelled"] = lambda it, o, n: Native("cancelled", lambda it, a, k: self.cancelled(o))
        h["await:Future"] = self.await_
        self.now = v.real("now")
        self.handles = []
        self.loop = v.fake(
            "Loop", create_future=v.native(lambda *a: self.new_future()), time=v.native(lambda *a: self.now),
            call_at=v.native(lambda it, a, k: self.timer(self.num(a[0]), a[1], a[2:])), call_later=v.native(lambda it, a, k: self.timer(self.now.t + self.num(a[0]), a[1], a[2:])),
        )
        self.tpresent = z3.Function("has_timer", IT, z3.BoolSort())
        self.twhen = z3.Function("timer_when", IT, z3.RealSort())
        self.oldh = {}
        self.timers = SMap(v, self.tbase, name="timers")
        self.backoffs = []

        def backoff(it, a, k):
            d = v.real(f"backoff{len(self.backoffs)}")
            v.assume(d.t > 0)
            self.backoffs.append((a[0], d))
            return d

        self.q = v.obj(WQ, _loop=self.loop, _waiting=self.wait.obj(), _queue=self.queue.obj(), _processing=self.proc.obj(), _dirty=self.dirty.obj(), _timers=self.timers.obj(),
                       closed=self.closed, backoff=v.fake("Backoff", backoff=v.native(backoff)))
        v.case(lambda ev: {"kind": "any"})
        v.ctx.state["while_hook"] = self.while_hook
        self.assume_inv()
        self.take_snap()

    def num(self, x):
        return self.it._nt(self.it.num_or_none(self.it.resolve(x)), True)

    def is_closed(self):
        c = self.it.resolve(self.q.attrs["closed"])
        return z3.BoolVal(c) if isinstance(c, bool) else c.t

    # ------------------------------------------------------------ timers
    def tbase(self, key):
        x = self.it.resolve(key).t
        if not self.ctx.branch(self.tpresent(x)):
            return MISSING
        h = self.handle(self.twhen(x), None, ())
        self.oldh[x.get_id()] = h
        return (h, SReal(self.twhen(x)))

    def handle(self, when, cb, args):
        h = self.v.fake("TimerHandle", when=self.v.native(lambda *a: SReal(when)))
        h.attrs["g_when"], h.attrs["g_cb"], h.attrs["g_live"] = when, (cb, args), True

        def cancel(it, a, k):
            h.attrs["g_live"] = False

        h.attrs["cancel"] = self.v.native(cancel)
        h.attrs["cancelled"] = self.v.native(lambda *a: not h.attrs["g_live"])
        return h

    def timer(self, when, cb, args):
        h = self.handle(when, cb, tuple(args))
        self.handles.append(h)
        return h

    # ------------------------------------------------------------ futures
    def new_future(self):
        f = self.ctx.fresh("future", FU)
        self.ctx.assume(z3.Not(z3.Select(self.done, f)))
        self.absent(self.wait, f)
        self.mine.append(f)
        return SRef(self.fcls, f)

    def wake(self, o):
        v = self.v
        v.prove("wakes-only-pending-consumers", z3.Not(z3.Select(self.done, o.t)))
        i = self.ctx.fresh("i", I)
        self.facts(self.wait, i)
        v.prove("woken-consumers-stop-waiting", z3.Implies(self.wait.within(i), self.wait.get(i) != o.t))
        self.done = z3.Store(self.done, o.t, z3.BoolVal(True))
        self.woken += 1

    def cancelled(self, o):
        if o.t in [f for f in self.mine] and self.fate is not None:
            return self.fate == "cancelled-waiting"
        self.it.unsupported("cancelled() of another consumer's future")

    fate = None
    token = 0

    def await_(self, it, o):
        """A consumer waits: everything may change meanwhile."""
        v, ctx = self.v, self.ctx
        v.cover("waits")
        self.check("at-suspension")
        v.prove("waits-only-without-items", self.queue.n() == 0)
        v.prove("waits-only-while-open", z3.Not(self.is_closed()))
        v.prove("waits-on-its-own-future", z3.BoolVal(any(o.t.eq(f) for f in self.mine)))
        v.prove("registered-while-waiting", self.is_waiting(o.t))
        # (without queued items L holds whatever became of an earlier wakeup)
        self.token = 0
        self.fate = v.choose("woken", "cancelled-waiting", "cancelled-woken")
        self.havoc()
        ctx.assume(z3.Select(self.done, o.t))
        if self.fate == "cancelled-waiting":
            # still among the waiting, or dropped since it was done
            p = ctx.fresh("pos", I)
            if v.choose("there", "dropped") == "there":
                ctx.assume(z3.And(self.wait.within(p), self.wait.get(p) == o.t))
                self.facts(self.wait, p)
            else:
                self.absent(self.wait, o.t)
        else:
            self.absent(self.wait, o.t)
            self.token = 1
        self.take_snap()
        if self.fate != "woken":
            import asyncio

            v.cover(self.fate)
            it.raise_(asyncio.CancelledError)

    def is_waiting(self, f):
        i = self.wait.hi - 1
        return z3.And(self.wait.within(i), self.wait.get(i) == f)

    # --------------------------------------------------------- invariants
    def facts(self, d, i):
        """Invariants at position i of a deque."""
        if not hasattr(self, "factsof"):
            self.factsof = []
        for e in self.factsof:
            if e[0] == d.name:
                self.ctx.assume(e[1](i))

    def absent(self, d, x):
        """x is nowhere in the deque."""
        at, lo, hi = d.at, d.lo, d.hi

        def f(i):
            return z3.Implies(z3.And(i >= lo, i < hi), z3.Select(at, i) != x)

        self.factsof.append((d.name, f))
        for i in self.instants:
            self.ctx.assume(f(i))

    def assume_inv(self):
        """Facts about the state as it is now, for later instantiation."""
        q, w = self.queue, self.wait
        self.factsof = []
        self.instants = []
        qat, qlo, qhi, qidx = q.snap()
        dirty, proc = self.dirty.t, self.proc.t
        self.factsof.append((q.name, lambda i: z3.Implies(z3.And(i >= qlo, i < qhi), z3.And(qidx(qat[i]) == i, dirty[qat[i]], z3.Not(proc[qat[i]])))))
        wat, wlo, whi, widx = w.snap()
        done, closed = self.done, self.is_closed()
        self.factsof.append((w.name, lambda i: z3.Implies(z3.And(i >= wlo, i < whi), z3.And(widx(wat[i]) == i, z3.Implies(closed, done[wat[i]])))))

    def item_fact(self, x):
        """A dirty item nobody holds is queued."""
        s = self.pre
        at, lo, hi, idx = s["queue"]
        self.ctx.assume(z3.Implies(z3.And(s["dirty"][x], z3.Not(s["proc"][x])), z3.And(idx(x) >= lo, idx(x) < hi, at[idx(x)] == x)))
        self.facts(self.queue, idx(x))

    def havoc(self):
        for d in (self.queue, self.wait, self.dirty, self.proc):
            d.havoc()
        self.closed = SBool(self.ctx.fresh("closed", z3.BoolSort()))
        self.q.attrs["closed"] = self.closed
        self.done = self.ctx.fresh("done", z3.ArraySort(FU, z3.BoolSort()))
        self.woken = 0
        self.assume_inv()

    def take_snap(self):
        self.pre = {"queue": self.queue.snap(), "wait": self.wait.snap(), "dirty": self.dirty.t, "proc": self.proc.t, "closed": self.is_closed(), "done": self.done}

    def check(self, when=""):
        """I1, I2, I3 hold now."""
        v, q, w, ctx = self.v, self.queue, self.wait, self.ctx
        at0, lo0, hi0, idx0 = self.pre["queue"]
        i, j, x = ctx.fresh("i", I), ctx.fresh("j", I), ctx.fresh("x", IT)
        for t in (i, j, i + 1, j + 1, i - 1, j - 1):
            self.facts(q, t)
            self.facts(w, t)
        self.item_fact(x)
        self.item_fact(q.get(i))
        self.item_fact(q.get(j))
        xi, xj = q.get(i), q.get(j)
        v.prove("queued-items-are-due-and-free", z3.Implies(q.within(i), z3.And(self.dirty.has(xi), z3.Not(self.proc.has(xi)))))
        v.prove("queued-once", z3.Implies(z3.And(q.within(i), q.within(j), i != j), xi != xj))
        cand = [idx0(x), idx0(x) - 1, idx0(x) + 1, q.lo, q.hi - 1]
        v.prove("no-item-is-lost", z3.Implies(z3.And(self.dirty.has(x), z3.Not(self.proc.has(x))), z3.Or([z3.And(q.within(c), q.get(c) == x) for c in cand])))
        fi, fj = w.get(i), w.get(j)
        v.prove("waits-once", z3.Implies(z3.And(w.within(i), w.within(j), i != j), fi != fj))
        v.prove("nobody-waits-once-closed", z3.Implies(z3.And(self.is_closed(), w.within(i)), z3.Select(self.done, fi)))

    def handed_on(self, name="queued-items-wake-consumers"):
        """L is kept: more queued items than before only with as many woken
        consumers, or nobody waiting."""
        v, q, w, ctx = self.v, self.queue, self.wait, self.ctx
        at0, lo0, hi0, _ = self.pre["queue"]
        i = ctx.fresh("i", I)
        for t in (i, i + 1, i - 1):
            self.facts(w, t)
        pend = z3.And(w.within(i), z3.Not(z3.Select(self.done, w.get(i))))
        grow = z3.simplify(q.n() - (hi0 - lo0))
        v.prove(name, z3.Implies(z3.And(pend, z3.Not(self.is_closed()), q.n() > 0), grow <= self.woken - self.token))

    def keeps_order(self, dropped):
        """Items queued before keep their order; new ones come last."""
        v, q, ctx = self.v, self.queue, self.ctx
        at0, lo0, hi0, _ = self.pre["queue"]
        i = ctx.fresh("i", I)
        v.prove("first-come-first-served", z3.Implies(z3.And(i >= lo0 + dropped, i < hi0), z3.And(i - lo0 - dropped < q.n(), z3.Select(q.at, q.lo + (i - lo0 - dropped)) == at0[i])))

    def others_unchanged(self, x):
        v, ctx = self.v, self.ctx
        y = ctx.fresh("y", IT)
        ctx.assume(y != x)
        v.prove("other-items-unaffected", z3.And(self.dirty.has(y) == self.pre["dirty"][y], self.proc.has(y) == self.pre["proc"][y]))

    # -------------------------------------------------------------- loops
    def while_hook(self, it, n, env):
        if any(isinstance(x, (ast.Await, ast.AsyncFor, ast.AsyncWith)) for x in ast.walk(n)):
            return self.consumer_loop(it, n, env)
        return self.wake_loop(it, n, env)

    def consumer_loop(self, it, n, env):
        v = self.v
        if self.ctx.state.get("in_consumer_loop"):
            it.unsupported("second loop", n)
        self.ctx.state["in_consumer_loop"] = True
        for x in sorted(loops.modified_names(n)):
            if x in env.vars:
                it.unsupported(f"loop variable {x}", n)
        # the state at the loop head is arbitrary, possibly after a wakeup
        self.check("loop-head")
        self.token = 0 if v.choose("first", "woken") == "first" else 1
        if self.token:
            self.havoc()
            self.take_snap()
        if not it.truth(it.ev(n.test, env)):
            return True
        try:
            it.ex_block(n.body, env)
        except ContinueEx:
            pass
        except BreakEx:
            return True
        self.check("iteration")
        raise loops.StopBody

    def wake_loop(self, it, n, env):
        """Loop over the waiting consumers. Invariant: those dropped so far
        are done, the rest is as it was."""
        v, w, ctx = self.v, self.wait, self.ctx
        key = id(n)
        at0, lo0, hi0, done0 = w.at, w.lo, w.hi, self.done
        names = sorted(x for x in loops.modified_names(n) if x in env.vars)

        # arbitrary iteration
        lo = ctx.fresh("waiting_lo", I)
        ctx.assume(z3.And(lo >= lo0, lo <= hi0))
        done = ctx.fresh("done", z3.ArraySort(FU, z3.BoolSort()))

        def inv(i, lo, done):
            return z3.And(
                z3.Implies(z3.And(i >= lo0, i < lo), done[at0[i]]),
                z3.Implies(z3.And(i >= lo, i < hi0), done[at0[i]] == done0[at0[i]]),
                z3.Implies(done0[at0[i]], done[at0[i]]),
            )

        self.factsof.append((w.name, lambda i: inv(i, lo, done)))
        for i in self.instants:
            ctx.assume(inv(i, lo, done))
        w.lo, self.done = lo, done
        k0 = ctx.fresh("woken_before", I)
        ctx.assume(z3.And(k0 >= 0, z3.Implies(lo == lo0, k0 == 0)))
        self.woken = self.woken + k0
        for x in names:
            ctx.mut_dict(env.vars, x, v.opaque("any_" + x))
        for t in (lo, lo0):
            self.facts(w, t)
        if not it.truth(it.ev(n.test, env)):
            return True
        wk = self.woken
        try:
            it.ex_block(n.body, env)
        except ContinueEx:
            pass
        except BreakEx:
            return True
        i = ctx.fresh("i", I)
        for t in (i, i + 1, i - 1):
            self.facts(w, t)
        same = z3.BoolVal(w.hi is hi0 or w.hi.eq(hi0)) if isinstance(w.hi, z3.ExprRef) else z3.BoolVal(False)
        v.aux("woken-in-order", z3.And(same, w.lo >= lo, z3.BoolVal(w.at is at0), z3.Implies(z3.And(i >= lo0, i < hi0), inv(i, w.lo, self.done))))
        raise loops.StopBody


def item(v, n="item"):
    return SOpaque("item", z3.Const(n, IT))


def finish(v, w, x, dropped=0):
    w.check()
    w.handed_on()
    w.keeps_order(dropped)


@contract("C12", WQ + ".__init__", "init", assumes=A)
def init(v):
    it = v.it
    it.lib["asyncio.get_event_loop"] = it.lib["asyncio.get_running_loop"] = lambda it, a, k: v.fake("Loop")
    bo = v.fake("Backoff")
    q = v.obj(WQ)
    out = v.run(WQ + ".__init__", q, backoff=bo)
    if not v.ok_or(out, "no-exception"):
        return
    for a in ("_waiting", "_queue", "_processing", "_dirty", "_timers"):
        x = q.attrs.get(a)
        v.prove("starts-empty", z3.BoolVal(x is not None and not it.truth(x)))
    v.prove("starts-open", v.eq(q.attrs["closed"], False))
    v.prove("uses-the-given-backoff", z3.BoolVal(it.resolve(q.attrs["backoff"]) is bo))


@contract("C12", WQ + ".put", "put", weight=2, assumes=A)
def put(v):
    w = World(v)
    x = item(v)
    w.item_fact(x.t)
    out = loops.run(v, WQ + ".put", w.q, x)
    if out is None or not v.ok_or(out, "no-exception"):
        return
    v.cover("put")
    put_effect(v, w, x)


def put_effect(v, w, x):
    v.prove("the-item-is-due", w.dirty.has(x.t))
    v.prove("stays-held-if-held", w.proc.has(x.t) == w.pre["proc"][x.t])
    v.prove("stays-open-or-closed", w.is_closed() == w.pre["closed"])
    w.others_unchanged(x.t)
    finish(v, w, x)


@contract("C12", WQ + ".get", "get", weight=3, assumes=A)
def get(v):
    w = World(v)
    out = loops.run(v, WQ + ".get", w.q)
    if out is None:
        return
    at0, lo0, hi0, idx0 = w.pre["queue"]
    if out.kind == "raise":
        y = v.ctx.fresh("y", IT)
        v.prove("nothing-taken", z3.And(w.queue.n() == hi0 - lo0, w.dirty.has(y) == w.pre["dirty"][y], w.proc.has(y) == w.pre["proc"][y]))
        if out.exc_name() == "WorkQueueClosed":
            v.cover("closed")
            v.prove("closed-only-when-closed", w.is_closed())
        else:
            v.prove("fails-only-when-cancelled", z3.BoolVal(out.exc_name() == "CancelledError" and w.fate in ("cancelled-waiting", "cancelled-woken")))
            v.cover("cancelled")
        finish(v, w, None)
        return
    v.cover("item")
    r = v.it.resolve(out.val)
    v.prove("hands-out-an-item", z3.BoolVal(isinstance(r, SOpaque) and r.kind == "item"))
    x = r.t
    v.prove("open-queues-only", z3.Not(w.is_closed()))
    v.prove("the-first-queued", z3.And(lo0 < hi0, x == at0[lo0]))
    v.prove("nobody-else-holds-it", z3.Not(w.pre["proc"][x]))
    v.prove("it-is-held-now", w.proc.has(x))
    v.prove("no-longer-due", z3.Not(w.dirty.has(x)))
    w.others_unchanged(x)
    finish(v, w, x, 1)


@contract("C12", WQ + ".task_done", "task_done", weight=2, assumes=A)
def task_done(v):
    w = World(v)
    x = item(v)
    v.assume(w.proc.has(x.t))
    w.item_fact(x.t)
    out = loops.run(v, WQ + ".task_done", w.q, x)
    if out is None or not v.ok_or(out, "no-exception"):
        return
    v.cover("done")
    v.prove("no-longer-held", z3.Not(w.proc.has(x.t)))
    v.prove("put-again-meanwhile-is-kept", w.dirty.has(x.t) == w.pre["dirty"][x.t])
    v.prove("stays-open-or-closed", w.is_closed() == w.pre["closed"])
    w.others_unchanged(x.t)
    finish(v, w, x)


@contract("C12", WQ + ".close", "close", weight=2, assumes=A)
def close(v):
    w = World(v)
    out = loops.run(v, WQ + ".close", w.q)
    if out is None or not v.ok_or(out, "no-exception"):
        return
    v.cover("closed")
    v.prove("is-closed", w.is_closed())
    at0, lo0, hi0, _ = w.pre["wait"]
    i = v.ctx.fresh("i", I)
    w.facts(w.wait, i)
    v.prove("every-waiting-consumer-is-told", z3.Implies(z3.And(i >= lo0, i < hi0), z3.Select(w.done, at0[i])))
    y = v.ctx.fresh("y", IT)
    v.prove("items-unaffected", z3.And(w.dirty.has(y) == w.pre["dirty"][y], w.proc.has(y) == w.pre["proc"][y]))
    w.check()


def delayed(v, w, x, when, run):
    """x is asked for at `when`; afterwards it is due, or a timer fires no
    later than it or the one before."""
    had = w.tpresent(x.t)
    w0 = w.twhen(x.t)
    out = run()
    if out is None or not v.ok_or(out, "no-exception"):
        return
    h0 = w.oldh.get(x.t.get_id())
    live = [h for h in w.handles if h.attrs["g_live"]]
    due = w.dirty.has(x.t)
    old_live = z3.And(had, z3.BoolVal(h0 is None or h0.attrs["g_live"]))
    early = lambda t: z3.Or([due, z3.And(old_live, w0 <= t)] + [h.attrs["g_when"] <= t for h in live])
    v.prove("no-later-than-asked", early(when))
    v.prove("no-later-than-asked-before", z3.Implies(had, early(w0)))
    v.prove("not-before-any-time-asked-for", z3.Implies(z3.And(due, z3.Not(w.pre["dirty"][x.t])), when <= w.now.t))
    for h in live:
        v.prove("not-before-any-time-asked-for", h.attrs["g_when"] >= when)
    # bookkeeping agrees with the timers
    now = w.timers.lookup(x)
    if now is MISSING:
        v.prove("timers-recorded", z3.And(z3.Not(old_live), z3.BoolVal(not live)))
    else:
        h, t = v.it.resolve(now[0]), v.it.resolve(now[1])
        ok = h in live or h is h0
        v.prove("timers-recorded", z3.BoolVal(ok and h.attrs["g_live"] and len(live) + (1 if h0 is not None and h0.attrs["g_live"] else 0) == 1))
        v.prove("timers-recorded", w.num(t) == h.attrs["g_when"])
    y = item(v, "other")
    v.ctx.assume(y.t != x.t)
    oth = w.timers.lookup(y)
    v.prove("other-timers-untouched", z3.Not(w.tpresent(y.t)) if oth is MISSING else z3.And(w.tpresent(y.t), v.eq(oth[1], SReal(w.twhen(y.t))), z3.BoolVal(w.oldh[y.t.get_id()].attrs["g_live"])))
    w.others_unchanged(x.t)
    finish(v, w, x)
    return live


@contract("C12", WQ + ".put_after", "put_after", weight=2, assumes=A)
def put_after(v):
    w = World(v)
    x = item(v)
    d = v.real("delay")
    w.item_fact(x.t)
    live = delayed(v, w, x, w.now.t + d.t, lambda: loops.run(v, WQ + ".put_after", w.q, x, d))
    if not live:
        return
    v.cover("scheduled")
    # later, when the timer fires: from any state of the queue
    h = live[0]
    w.havoc()
    w.take_snap()
    w.item_fact(x.t)
    cb, args = h.attrs["g_cb"]
    try:
        out = v.attempt(lambda: v.it.call(cb, list(args)))
    except loops.StopBody:
        return
    if not v.ok_or(out, "timer-fires"):
        return
    v.prove("fired-timer-forgotten", z3.BoolVal(w.timers.lookup(x) is MISSING))
    put_effect(v, w, x)


@contract("C12", WQ + ".put_backoff", "put_backoff", weight=2, assumes=A + ["Backoff.backoff(item) gives the item's delay (verified, C13)"])
def put_backoff(v):
    w = World(v)
    x = item(v)
    w.item_fact(x.t)
    bd = z3.Real("backoff0")
    live = delayed(v, w, x, w.now.t + bd, lambda: loops.run(v, WQ + ".put_backoff", w.q, x))
    v.prove("asks-for-that-items-delay", z3.And(z3.BoolVal(len(w.backoffs) == 1), v.eq(w.backoffs[0][0], x) if w.backoffs else z3.BoolVal(False)))


@contract("C12", "lemma", name="delivery_lemma")
def delivery_lemma(v):
    """L over any history: n queued items, W woken consumers, from the
    clauses queued-items-wake-consumers of each operation."""
    n, W, n2, wakes, tok = (z3.Int(x) for x in "n W n2 wakes tok".split())
    nobody, nobody2 = z3.Bool("nobody_waits"), z3.Bool("nobody_waits_after")
    L = lambda nob, n, W: z3.Or(nob, W >= n)
    v.assume(z3.And(n >= 0, W >= tok, tok >= 0, tok <= 1, n2 >= 0, wakes >= 0))
    clause = z3.Or(nobody2, n2 == 0, n2 - n <= wakes - tok)
    # an operation that does not itself wait makes nobody wait
    v.prove("kept", z3.Implies(z3.And(L(nobody, n, W), clause, z3.Implies(nobody, nobody2)), L(nobody2, n2, W - tok + wakes)))
    # starting to wait happens without queued items only
    v.prove("kept-when-waiting", z3.Implies(n2 == 0, L(nobody2, n2, W - tok + wakes)))
    # so a waiting consumer and a queued item imply a consumer about to run
    v.prove("no-item-waits-beside-a-waiting-consumer", z3.Implies(z3.And(L(nobody, n, W), n > 0, z3.Not(nobody)), W >= 1))
