"""C23: the gateway's service inside the scheduler."""
import asyncio

import z3

from pyvc import web  # noqa: F401
from pyvc.libs import noop_log
from pyvc.verify import *
from .c25 import at, same
from .loops import StopBody, WhileInv, run

P = "dask_gateway.scheduler_preload."
SVC, WAIT, CLIENT = P + "GatewaySchedulerService", P + "Waiter", P + "GatewayClient"
STR = z3.StringSort()
WS = ref_sort("WorkerState")
A_S = ["the scheduler's workers_to_close returns names of workers it has", "worker names are unique among connected workers", "the scheduler calls add_worker and remove_worker of its plugins once for each worker that joins or leaves"]
LISTS = ("active_workers", "closing_workers", "closed_workers")


class Service:
    """The service in any state: three sets of names, the connected workers."""

    def __init__(self, v):
        self.v, self.it, self.ctx = v, v.it, v.ctx
        it, ctx = v.it, v.ctx
        self.fn = {n: z3.Function(n, STR, z3.BoolSort()) for n in LISTS}
        self.name = z3.Function("worker_name", WS, STR)
        self.byaddr = z3.Function("worker_at", STR, WS)
        self.known = z3.Function("has_worker_at", STR, z3.BoolSort())
        self.busy = z3.Function("processing", WS, z3.BoolSort())
        self.cls = Fake("WorkerState")
        it.attr_hooks["WorkerState.name"] = lambda it2, o, n: SStr(self.name(o.t))
        it.attr_hooks["WorkerState.processing"] = lambda it2, o, n: it.mkbool(self.busy(o.t))
        self.sets = {}
        for n in LISTS:
            self.sets[n] = VSet([Part(("Str",), lambda x, f=self.fn[n]: f(x), lambda x: SStr(x))])
        self.unrunnable = v.bool("unrunnable")
        self.address, self.dash, self.api = v.str("scheduler_address"), v.str("dashboard_address"), v.str("api_address")
        self.count = v.int("count", 0)
        self.interrupts = []
        self.waiter = v.fake("Waiter", interrupt=v.afn(lambda it2, a, k: ctx.mut_append(self.interrupts, ("now", it.resolve(self.o.attrs["count"])))),
                             interrupt_soon=v.native(lambda it2, a, k: ctx.mut_append(self.interrupts, ("soon", None))), wait=v.afn(lambda it2, a, k: ctx.event("wait", it.resolve(a[0]))))
        self.scheduler = v.fake("Scheduler", workers=self.mapping(), unrunnable=self.unrunnable, address=self.address)
        self.gateway = v.fake("GatewayClient")
        self.hb = v.real("heartbeat_period")
        v.assume(self.hb.t >= 0)
        self.o = v.obj(SVC, scheduler=self.scheduler, gateway=self.gateway, count=self.count, heartbeat_period=self.hb, heartbeat_max=v.real("heartbeat_max"), heartbeat_initial=v.real("heartbeat_initial"),
                       waiter=self.waiter, idle_timeout=v.real("idle_timeout"), minimum=None, maximum=None, target_duration=5, adaptive_period=v.real("adaptive_period"), adaptive_window=3,
                       adapt_task=None, check_idle_task=None, heartbeat_task=None, address_to_worker=self.addresses(), api_address=self.api, _dashboard_address=self.dash, **self.sets)
        it.lib["dask_gateway.scheduler_preload.logger"] = noop_log()

    def mapping(self):
        d = VDict()
        d.parts = [Part(("Str",), lambda x: self.known(x), lambda x: (SStr(x), SRef(self.cls, self.byaddr(x))))]
        return d

    def addresses(self):
        """The service's own map from address to worker."""
        it, ctx = self.it, self.ctx
        self.put, self.gone = [], []

        def get(it2, a, k, default=POISON, drop=False):
            t = it.sterm(it.resolve(a[0]))
            for y, x in reversed(self.put):
                if ctx.branch(it.sterm(it.resolve(y)) == t):
                    return x
            if not ctx.branch(self.known(t)):
                if default is POISON:
                    it.raise_(KeyError, a[0])
                return default
            if drop:
                ctx.mut_append(self.gone, a[0])
            return SRef(self.cls, self.byaddr(t))

        n = self.v.native
        return self.v.fake("addresses", __getitem__=n(get), __setitem__=n(lambda it2, a, k: ctx.mut_append(self.put, (a[0], it.resolve(a[1])))),
                           pop=n(lambda it2, a, k: get(it2, a, k, *a[1:2], drop=True)), get=n(lambda it2, a, k: get(it2, a, k, a[1] if len(a) > 1 else None)),
                           __contains__=n(lambda it2, a, k: it.mkbool(self.known(it.sterm(it.resolve(a[0]))))))

    def mem(self, name, x):
        s = self.it.resolve(self.o.attrs[name])
        r = self.it.contains(s, SStr(x))
        return z3.BoolVal(r) if isinstance(r, bool) else (r.t if isinstance(r, SBool) else r)

    def inv(self, x):
        """Facts about every name, before."""
        f = self.fn
        return z3.And(z3.Not(z3.And(f["active_workers"](x), f["closed_workers"](x))), z3.Implies(f["closing_workers"](x), f["active_workers"](x)))

    def inv_now(self, x):
        m = self.mem
        return z3.And(z3.Not(z3.And(m("active_workers", x), m("closed_workers", x))), z3.Implies(m("closing_workers", x), m("active_workers", x)))


def change(v, joins):
    it, ctx = v.it, v.ctx
    s = Service(v)
    addr = v.str("address")
    ws = s.byaddr(addr.t)
    v.assume(s.known(addr.t))
    n = s.name(ws)
    x = z3.String("any_name")
    if not joins:
        v.assume(z3.And(s.fn["active_workers"](n)))
    for t in (x, n):
        v.assume(s.inv(t))
        ctx.know("Str", t)
    v.case(lambda ev: {"kind": "service"})
    out = v.run(SVC + (".worker_added" if joins else ".worker_removed"), s.o, addr)
    if not v.ok_or(out, "recorded"):
        return
    f = s.fn
    if joins:
        v.prove("a-new-worker-is-active", s.mem("active_workers", x) == z3.Or(f["active_workers"](x), x == n))
        v.prove("a-new-worker-is-not-closed", s.mem("closed_workers", x) == z3.And(f["closed_workers"](x), x != n))
        v.prove("a-new-worker-is-not-closing", s.mem("closing_workers", x) == z3.And(f["closing_workers"](x), x != n))
        r = v.attempt(lambda: it.getitem(it.resolve(s.o.attrs["address_to_worker"]), addr))
        v.prove("remembered-by-address", z3.BoolVal(r.ok) if not r.ok else it.resolve(r.val).t == ws)
    else:
        v.prove("a-lost-worker-is-not-active", s.mem("active_workers", x) == z3.And(f["active_workers"](x), x != n))
        v.prove("a-lost-worker-is-closed", s.mem("closed_workers", x) == z3.Or(f["closed_workers"](x), x == n))
        v.prove("a-lost-worker-is-not-closing", s.mem("closing_workers", x) == z3.And(f["closing_workers"](x), x != n))
        unexpected = z3.And(z3.Not(f["closing_workers"](n)), s.hb.t > 0)
        v.prove("an-unexpected-loss-is-reported-soon", z3.Implies(unexpected, z3.BoolVal(bool(s.interrupts))))
    v.prove("a-worker-is-either-active-or-closed", s.inv_now(x))


contract("C23", SVC + ".worker_added", "worker_added", assumes=A_S)(lambda v: change(v, True))
contract("C23", SVC + ".worker_removed", "worker_removed", assumes=A_S)(lambda v: change(v, False))


@contract("C23", P + "GatewayPlugin.add_worker", "plugin")
def plugin(v):
    it, ctx = v.it, v.ctx
    calls = []
    svc = v.fake("Service", **{m: v.native(lambda it2, a, k, m=m: ctx.mut_append(calls, (m, a[0]))) for m in ("worker_added", "worker_removed")})
    p = v.attempt(lambda: it.call(v.cls(P + "GatewayPlugin"), [svc]))
    if not v.ok_or(p, "plugin"):
        return
    a, b = v.str("joined"), v.str("left")
    v.case(lambda ev: {"kind": "service"})
    v.run(P + "GatewayPlugin.add_worker", p.val, v.opaque("scheduler"), a)
    v.run(P + "GatewayPlugin.remove_worker", p.val, v.opaque("scheduler"), b, reason="x")
    v.prove("every-change-is-passed-on", z3.BoolVal(len(calls) == 2 and calls[0] == ("worker_added", a) and calls[1] == ("worker_removed", b)))


@contract("C23", SVC + ".heartbeat", "heartbeat", assumes=A_S, budget=300)
def heartbeat(v):
    it, ctx = v.it, v.ctx
    s = Service(v)
    v.expect_covers("sent", "retires", "not-accepted", "retire-fails")
    x = z3.String("any_name")
    chosen = z3.Function("chosen_to_close", STR, z3.BoolSort())
    for t in (x,):
        v.assume(s.inv(t))
        v.assume(z3.Implies(chosen(t), s.fn["active_workers"](t)))
        ctx.know("Str", t)
    log = []

    def to_close(it2, a, k):
        ctx.mut_append(log, ("choose",))
        v.prove("closes-down-to-the-requested-count", z3.And(same(v, k.get("target"), s.count), z3.BoolVal(k.get("attribute") == "name" and k.get("n") is None and not a)))
        return VList([Part(("Str",), lambda y: chosen(y), lambda y: SStr(y))])

    s.scheduler.attrs["workers_to_close"] = v.native(to_close)

    def send(it2, a, k):
        ctx.mut_append(log, ("send", it.resolve(a[0]), {n: list(it.resolve(s.o.attrs[n]).items) for n in LISTS}))
        if ctx.branch(ctx.fresh("send_fails", z3.BoolSort())):
            it.raise_(RuntimeError, "send")
        # meanwhile workers may join and leave
        if ctx.branch(ctx.fresh("left_meanwhile", z3.BoolSort())):
            n = z3.String("leaver")
            v.assume(s.fn["active_workers"](n))
            for f in (lambda: it.call(it.getattr(s.o.attrs["active_workers"], "discard"), [SStr(n)]), lambda: it.call(it.getattr(s.o.attrs["closed_workers"], "add"), [SStr(n)])):
                f()

    s.gateway.attrs["heartbeat"] = v.afn(send)

    def retire(it2, a, k):
        ctx.mut_append(log, ("retire", a, k))
        if ctx.branch(ctx.fresh("retire_fails", z3.BoolSort())):
            it.raise_(RuntimeError, "retire")
        return v.pydict({})

    s.scheduler.attrs["retire_workers"] = v.afn(retire)
    v.case(lambda ev: {"kind": "service"})
    out = v.run(SVC + ".heartbeat", s.o)
    sent = [e for e in log if e[0] == "send"]
    v.prove("one-message", z3.BoolVal(len(sent) == 1))
    if len(sent) != 1:
        return
    m = sent[0][1]
    g = lambda k: at(it, m, k)
    v.prove("own-addresses", z3.And(same(v, g("scheduler_address"), s.address), same(v, g("dashboard_address"), s.dash), same(v, g("api_address"), s.api)))
    v.prove("the-requested-count", same(v, g("count"), s.count))

    def isin(k):
        l = it.resolve(g(k))
        if not isinstance(l, (VList, VSet)):
            return z3.BoolVal(False)
        r = it.contains(l, SStr(x))
        return z3.BoolVal(r) if isinstance(r, bool) else (r.t if isinstance(r, SBool) else r)

    a, c, d = isin("active_workers"), isin("closing_workers"), isin("closed_workers")
    f = s.fn
    v.prove("lists-are-disjoint", z3.And(z3.Not(z3.And(a, c)), z3.Not(z3.And(a, d)), z3.Not(z3.And(c, d))))
    v.prove("every-worker-is-in-a-list", z3.Or(a, c, d) == z3.Or(f["active_workers"](x), f["closed_workers"](x)))
    v.prove("closed-workers-are-those-that-left", d == f["closed_workers"](x))
    v.prove("closing-workers-are-those-chosen", z3.If(z3.BoolVal(any(e[0] == "choose" for e in log)), c == chosen(x), z3.Not(c)))
    ret = [e for e in log if e[0] == "retire"]
    failed = any(z3.is_true(z3.simplify(t)) for t in [])
    if not out.ok and not ret:
        v.cover("not-accepted")
        v.prove("an-unannounced-closing-is-not-carried-out", z3.BoolVal(not ret))
        v.prove("a-failed-message-changes-nothing", z3.And([s.mem(n, x) == f[n](x) for n in LISTS]))
        return
    v.cover("sent")
    if ret:
        v.cover("retires")
        v.prove("closed-only-after-announced", z3.BoolVal(len(ret) == 1 and log.index(ret[0]) > log.index(sent[0])))
        k = ret[0][2]
        r = it.contains(it.resolve(k.get("names")), SStr(x)) if k.get("names") is not None else False
        r = z3.BoolVal(r) if isinstance(r, bool) else (r.t if isinstance(r, SBool) else r)
        v.prove("closes-exactly-those-announced", z3.And(r == c, z3.BoolVal(k.get("remove") is True and k.get("close_workers") is True and not ret[0][1])))
        if out.ok:
            v.prove("closing-workers-are-remembered", s.mem("closing_workers", x) == z3.Or(f["closing_workers"](x), c))
        else:
            v.cover("retire-fails")
            v.prove("a-failed-closing-is-forgotten", z3.Implies(c, z3.Not(s.mem("closing_workers", x))))
    else:
        v.prove("announced-workers-are-closed", z3.Not(c))


@contract("C23", SVC + ".heartbeat_loop", "heartbeat_loop", assumes=["asyncio.CancelledError only comes from stopping the service"])
def heartbeat_loop(v):
    it, ctx = v.it, v.ctx
    s = Service(v)
    hmax, h0 = s.o.attrs["heartbeat_max"], s.o.attrs["heartbeat_initial"]
    v.assume(z3.And(hmax.t > 0, h0.t > 0, z3.Or(h0.t == z3.RealVal("0.25"), h0.t == hmax.t)))
    top = z3.If(hmax.t > h0.t, hmax.t, h0.t)
    num = lambda x: it._nt(it.num_or_none(x), True)
    ev = []
    outcome = []

    def hb(it2, a, k):
        ctx.mut_append(ev, "heartbeat")
        o = "fails" if ctx.branch(ctx.fresh("heartbeat_fails", z3.BoolSort())) else "ok"
        ctx.mut_append(outcome, o)
        if o == "fails":
            it.raise_(RuntimeError, "heartbeat")

    s.o.attrs["heartbeat"] = v.afn(hb)

    def wait(it2, a, k):
        ctx.mut_append(ev, "wait")
        t = num(a[0])
        v.prove("waits-no-longer-than-the-heartbeat-period", z3.And(t > 0, t <= top))

    s.waiter.attrs["wait"] = v.afn(wait)

    def inv(init, cur):
        # the waiting time is positive and bounded in every iteration
        return {f"bounded-{x}": z3.And(num(cur[x]) > 0, num(cur[x]) <= top) if x == "period" else num(cur[x]) > 0 for x in cur if isinstance(cur[x], (int, float, SInt, SReal))}

    v.case(lambda ev2: {"kind": "service"})
    w = WhileInv(v, inv)
    out = run(v, SVC + ".heartbeat_loop", s.o)
    v.prove("one-heartbeat-for-each-wait", z3.BoolVal(ev == ["wait", "heartbeat"]))
    v.prove("goes-on-after-a-failure", z3.BoolVal(out is None))


# ---------------------------------------------------------------- scaling
@contract("C23", SVC + "._scale", "scale_one")
def scale_one(v):
    it, ctx = v.it, v.ctx
    s = Service(v)
    n = v.int("requested")
    v.case(lambda ev: {"kind": "service"})
    out = v.run(SVC + "._scale", s.o, n)
    if not v.ok_or(out, "scaled"):
        return
    v.prove("sets-the-requested-count", v.eq(s.o.attrs["count"], n))
    v.prove("a-new-count-is-announced-at-once", z3.Or(n.t == s.count.t, z3.Or([z3.BoolVal(k == "now") for k, _ in s.interrupts] + [z3.BoolVal(False)])))
    v.prove("announced-once-set", z3.And([v.eq(c, n) for k, c in s.interrupts if k == "now"]))


def a_task(v, log):
    return v.fake("Task", cancel=v.native(lambda it2, a, k: v.ctx.mut_append(log, "cancel")), done=v.native(lambda it2, a, k: False), __await__=v.native(lambda it2, a, k: v.ctx.mut_append(log, "awaited")))


@contract("C23", SVC + ".adapt", "adapt")
def adapt(v):
    it, ctx = v.it, v.ctx
    s = Service(v)
    log, started = [], []
    running = v.choose("running", "off") == "running"
    task = a_task(v, log)
    s.o.attrs["adapt_task"] = task if running else None
    new = a_task(v, log)
    s.o.attrs["adapt_loop"] = v.native(lambda it2, a, k: "the-loop")
    it.lib["asyncio.ensure_future"] = it.lib["asyncio.create_task"] = lambda it2, a, k: (ctx.mut_append(started, a[0]), new)[1]
    mn = v.dyn("minimum", [("none", None), ("int", v.int("min_value", 0))])
    mx = v.dyn("maximum", [("none", None), ("int", v.int("max_value", 0))])
    active = v.choose("on", "disable") == "on"
    others = []

    def other(it2, why):
        """Another adapt request handled while this one waits."""

    old = (v.dyn("old_minimum", [("none", None), ("int", v.int("old_min", 0))]), v.dyn("old_maximum", [("none", None), ("int", v.int("old_max", 0))]))
    s.o.attrs["minimum"], s.o.attrs["maximum"] = old
    v.case(lambda ev: {"kind": "service"})
    out = v.run(SVC + ".adapt", s.o, minimum=mn, maximum=mx, active=active)
    if not v.ok_or(out, "adapted"):
        return
    t = it.resolve(s.o.attrs["adapt_task"])
    if active:
        v.prove("uses-the-requested-bounds", z3.And(same(v, s.o.attrs["minimum"], mn), same(v, s.o.attrs["maximum"], mx)))
        v.prove("adaptive-scaling-is-on", z3.BoolVal("cancel" not in log and (t is task and not started if running else t is new and started == ["the-loop"])))
    else:
        v.prove("adaptive-scaling-is-off", z3.BoolVal(t is None and not started and (not running or "cancel" in log)))
    v.prove("the-count-is-kept", v.eq(s.o.attrs["count"], s.count))
    v.prove("not-interrupted-by-other-requests", z3.BoolVal("awaited" not in log))


@contract("C23", SVC + ".scale", "scale")
def scale(v):
    it, ctx = v.it, v.ctx
    s = Service(v)
    log = []
    task = a_task(v, log)
    running = v.choose("running", "off") == "running"
    s.o.attrs["adapt_task"] = task if running else None
    n = v.int("requested")
    v.case(lambda ev: {"kind": "service"})
    out = v.run(SVC + ".scale", s.o, n)
    if not v.ok_or(out, "scaled"):
        return
    v.prove("adaptive-scaling-is-off", z3.BoolVal(it.resolve(s.o.attrs["adapt_task"]) is None and (not running or "cancel" in log)))
    v.prove("sets-the-requested-count", v.eq(s.o.attrs["count"], n))
    v.prove("a-new-count-is-announced-at-once", z3.Or(n.t == s.count.t, z3.BoolVal(any(k == "now" for k, _ in s.interrupts))))


@contract("C23", SVC + ".adapt_loop", "adapt_loop", assumes=["the minimum is at most the maximum (checked by the gateway)", "the window holds three targets (no caller passes another size)"], budget=300)
def adapt_loop(v):
    it, ctx = v.it, v.ctx
    s = Service(v)
    mn = v.dyn("minimum", [("none", None), ("int", v.int("min_value", 0))])
    mx = v.dyn("maximum", [("none", None), ("int", v.int("max_value", 0))])
    lo, hi = it.resolve(mn), it.resolve(mx)
    if lo is not None and hi is not None:
        v.assume(lo.t <= hi.t)
    s.o.attrs["minimum"], s.o.attrs["maximum"] = lo, hi
    target = v.int("adaptive_target", 0)
    fails = v.bool("target_fails")
    asked = []

    def adaptive_target(it2, a, k):
        if ctx.branch(fails.t):
            it.raise_(RuntimeError, "no target")
        return target

    s.scheduler.attrs["adaptive_target"] = v.native(adaptive_target)
    s.o.attrs["_scale"] = v.afn(lambda it2, a, k: ctx.mut_append(asked, a[0]))
    # earlier targets, under whatever bounds held then
    past = []
    size = []

    def deque(it2, a, k):
        ctx.mut_append(size, k.get("maxlen", a[1] if len(a) > 1 else None))

        def append(it3, a3, k3):
            ctx.mut_list(past, (past + [a3[0]])[-3:])

        d = v.fake("deque", append=v.native(append), clear=v.native(lambda *x: ctx.mut_list(past, [])), maxlen=3)
        d.attrs["__iter__"] = v.native(lambda it3, a3, k3: VList(list(past)))
        d.attrs["__len__"] = v.native(lambda it3, a3, k3: len(past))
        return d

    it.lib["collections.deque"] = deque
    sleeps = []
    it.lib["asyncio.sleep"] = lambda it2, a, k: Coro(lambda: ctx.mut_append(sleeps, a[0]), "sleep")

    def havoc():
        n = ["w0", "w1", "w2", "w3"].index(v.choose("w0", "w1", "w2", "w3"))
        ctx.mut_list(past, [SInt(z3.Int(f"past{i}")) for i in range(n)])
        for i in range(n):
            v.assume(z3.Int(f"past{i}") >= 0)

    v.case(lambda ev: {"kind": "service"})
    WhileInv(v, lambda i, c: {}, havoc=havoc)
    out = run(v, SVC + ".adapt_loop", s.o)
    v.prove("goes-on-whatever-happens", z3.BoolVal(out is None))
    v.prove("window-of-three", z3.And([same(v, x, 3) for x in size]))
    v.prove("at-most-one-request", z3.BoolVal(len(asked) <= 1))
    for x in asked:
        v.prove("requests-stay-within-the-bounds", z3.And(*([v.cmp(">=", x, lo)] if lo is not None else []), *([v.cmp("<=", x, hi)] if hi is not None else []), z3.BoolVal(True)))
        v.cover("requests")
    want = target.t
    if lo is not None:
        want = z3.If(want < lo.t, lo.t, want)
    if hi is not None:
        want = z3.If(want > hi.t, hi.t, want)
    if not asked:
        v.prove("scales-up-at-once", z3.Or(fails.t, want <= s.count.t))
    v.prove("waits-between-requests", z3.And(z3.BoolVal(len(sleeps) == 1), *[same(v, x, s.o.attrs["adaptive_period"]) for x in sleeps]))
    v.expect_covers("requests")


# ---------------------------------------------------------------- idleness
A_IDLE = ["the scheduler's transition log holds the time of its last action in the last field of its last entry"]


def idle(v, calm):
    it, ctx = v.it, v.ctx
    s = Service(v)
    now, last, begun = v.real("now"), v.real("last_action"), v.real("time_started")
    empty = v.bool("no_action_yet")
    s.scheduler.attrs["time_started"] = begun
    entry = v.fake("Transition", __getitem__=v.native(lambda it2, a, k: last if a[0] == -1 else it.unsupported("field of a transition")))
    log = v.fake("transition_log", __getitem__=v.native(lambda it2, a, k: entry if a[0] == -1 else it.unsupported("transition")))
    log.attrs["__bool__"] = v.native(lambda it2, a, k: it.mkbool(z3.Not(empty.t)))
    log.attrs["__len__"] = v.native(lambda it2, a, k: SInt(z3.If(empty.t, 0, 1)))
    s.scheduler.attrs["transition_log"] = log
    s.o.attrs["loop"] = v.fake("Loop", time=v.native(lambda *a: now))
    downs, sleeps = [], []
    fails = v.bool("shutdown_request_fails")

    def shutdown(it2, a, k):
        ctx.mut_append(downs, 1)
        if ctx.branch(fails.t):
            it.raise_(OSError, "gateway away")

    s.gateway.attrs["shutdown"] = v.afn(shutdown)
    it.lib["asyncio.sleep"] = lambda it2, a, k: Coro(lambda: ctx.mut_append(sleeps, a[0]), "sleep")
    to = s.o.attrs["idle_timeout"]
    v.assume(to.t > 0)
    v.case(lambda ev: {"kind": "service"})
    if calm:
        a = z3.Const("any_address", STR)
        v.assume(z3.ForAll([a], z3.Not(s.busy(s.byaddr(a)))))
    WhileInv(v, lambda i, c: {})
    out = run(v, SVC + ".check_idle", s.o)
    v.prove("keeps-checking-whatever-happens", z3.BoolVal(out is None))
    x = z3.String("some_address")
    ctx.know("Str", x)
    since = now.t - z3.If(empty.t, begun.t, last.t)
    if downs:
        v.cover("shuts-down")
        v.prove("asks-once", z3.BoolVal(len(downs) == 1))
        v.prove("only-when-no-worker-is-busy", z3.Implies(s.known(x), z3.Not(s.busy(s.byaddr(x)))))
        v.prove("only-when-nothing-waits-for-workers", z3.Not(s.unrunnable.t))
        v.prove("only-after-the-idle-timeout", since > to.t)
    v.prove("checks-often-enough", z3.And(z3.BoolVal(len(sleeps) == 1), *[z3.And(it._nt(it.num_or_none(x), True) > 0, it._nt(it.num_or_none(x), True) <= to.t) for x in sleeps]))
    if calm:
        v.prove("an-idle-cluster-is-shut-down", z3.Or(z3.BoolVal(bool(downs)), s.unrunnable.t, since <= to.t))
    v.expect_covers("shuts-down")


contract("C23", SVC + ".check_idle", "check_idle", assumes=A_IDLE)(lambda v: idle(v, False))
contract("C23", SVC + ".check_idle", "check_idle_calm", assumes=A_IDLE)(lambda v: idle(v, True))


@contract("C23", SVC, "service_starts")
def service_starts(v):
    """The service starts with no workers and no adaptive scaling; it checks
    for idleness exactly if a timeout is configured."""
    it, ctx = v.it, v.ctx
    plugins, tasks = [], []
    it.lib["tornado.web.Application"] = lambda it2, a, k: v.fake("Application", listen=v.native(lambda *a: v.fake("Server", _sockets=v.pydict({"s": v.fake("socket", getsockname=v.native(lambda *a: (v.str("ip"), v.int("port"))))}))))
    it.lib["urllib.parse.urlparse"] = lambda it2, a, k: v.fake("url", hostname=v.str("hostname"))
    it.lib["asyncio.ensure_future"] = it.lib["asyncio.create_task"] = lambda it2, a, k: (ctx.mut_append(tasks, a[0]), v.fake("Task"))[1]
    sched = v.fake("Scheduler", add_plugin=v.native(lambda it2, a, k: ctx.mut_append(plugins, a[0])), loop=v.fake("Loop"), address=v.str("scheduler_address"))
    client = v.fake("GatewayClient", token=v.str("token"))
    hb, idle, per = v.real("heartbeat_period"), v.real("idle_timeout"), v.real("adaptive_period")
    v.case(lambda ev: {"kind": "service"})
    o = v.attempt(lambda: it.call(v.cls(SVC), [sched], {"gateway": client, "heartbeat_period": hb, "idle_timeout": idle, "adaptive_period": per}))
    if not v.ok_or(o, "starts"):
        return
    svc = o.val
    num = lambda x: it._nt(it.num_or_none(x), True)
    v.prove("no-workers-at-first", z3.BoolVal(all(isinstance(it.resolve(svc.attrs[n]), VSet) and not it.resolve(svc.attrs[n]).items for n in LISTS) and len({id(svc.attrs[n]) for n in LISTS}) == 3))
    v.prove("no-adaptive-scaling-at-first", z3.BoolVal(svc.attrs["adapt_task"] is None and svc.attrs["count"] == 0))
    v.prove("follows-the-scheduler", z3.BoolVal(len(plugins) == 1 and it.resolve(plugins[0]).attrs.get("service") is svc))
    v.prove("configured-periods", z3.And(same(v, svc.attrs["adaptive_period"], per), z3.Implies(hb.t > 0, num(svc.attrs["heartbeat_max"]) == hb.t), num(svc.attrs["heartbeat_max"]) > 0,
                                         z3.If(idle.t > 0, num(svc.attrs["idle_timeout"]) == idle.t, num(svc.attrs["idle_timeout"]) == 0), z3.If(hb.t > 0, num(svc.attrs["heartbeat_period"]) == hb.t, num(svc.attrs["heartbeat_period"]) == 0)))
    svc.attrs["check_idle"], svc.attrs["heartbeat_loop"] = v.native(lambda *a: "idle"), v.native(lambda *a: "beat")
    l = v.attempt(lambda: it.call(it.getattr(svc, "listen"), [(v.str("listen_ip"), v.int("listen_port"))]))
    if not v.ok_or(l, "listens"):
        return
    v.prove("sends-heartbeats", z3.BoolVal(tasks.count("beat") == 1))
    v.prove("checks-for-idleness-iff-configured", z3.BoolVal("idle" in tasks) == (idle.t > 0))


# ---------------------------------------------------------------- waiting
def waiter(v):
    it, ctx = v.it, v.ctx
    o = v.attempt(lambda: it.call(v.cls(WAIT), []))
    v.ok_or(o, "waiter")
    return o.val


@contract("C23", WAIT + ".wait", "wait", assumes=["a cancelled task raises CancelledError where it is awaited"])
def wait(v):
    """An interruption, before or during the wait, ends it; it is used up once."""
    it, ctx = v.it, v.ctx
    w = waiter(v)
    v.expect_covers("slept", "not-slept", "stopped")
    slept = []
    t = v.real("period")
    timer_cancelled = []
    it.lib["asyncio.sleep"] = lambda it2, a, k: Coro(lambda: None, "sleep:") if False else ("sleep", a[0])
    during = []
    sleeper = v.fake("Task", done=v.native(lambda *a: False))
    sleeper.attrs["cancel"] = v.native(lambda it2, a, k: ctx.mut_append(during, "cancel"))

    def await_(it2, a, k):
        how = v.choose("elapses", "interrupted", "stopped")
        ctx.mut_append(slept, how)
        if how == "interrupted":
            r = v.attempt(lambda: it.await_(it.call(it.getattr(w, "interrupt"), [])))
            v.ok_or(r, "interrupted")
            v.prove("an-interruption-wakes-the-waiting", z3.BoolVal("cancel" in during))
        if how != "elapses":
            it.raise_(asyncio.CancelledError)

    sleeper.attrs["__await__"] = v.native(await_)
    it.lib["asyncio.ensure_future"] = it.lib["asyncio.create_task"] = lambda it2, a, k: (v.prove("waits-for-the-given-time", same(v, a[0][1], t)), sleeper)[1] if isinstance(a[0], tuple) else v.fake("Timer", cancel=v.native(lambda *x: ctx.mut_append(timer_cancelled, 1)))
    before = v.choose("fresh", "interrupted-before", "soon-before")
    if before == "interrupted-before":
        v.ok_or(v.attempt(lambda: it.await_(it.call(it.getattr(w, "interrupt"), []))), "interrupted")
    if before == "soon-before":
        w.attrs["_interrupt_soon"] = v.native(lambda *a: None)
        v.ok_or(v.attempt(lambda: it.call(it.getattr(w, "interrupt_soon"), [])), "interrupt-soon")
    v.case(lambda ev: {"kind": "service"})
    out = v.run(WAIT + ".wait", w, t)
    v.prove("an-earlier-interruption-is-not-lost", z3.BoolVal(before != "interrupted-before" or not slept))
    if not slept:
        v.cover("not-slept")
        v.prove("no-wait-without-reason", z3.BoolVal(before == "interrupted-before" and out.ok))
    elif slept[0] == "stopped":
        v.cover("stopped")
        v.prove("stopping-is-not-an-interruption", z3.BoolVal(not out.ok and out.exc_name() == "CancelledError"))
        return
    else:
        v.cover("slept")
        v.ok_or(out, "interruption-ends-the-wait")
    # the next wait sleeps again
    n = len(slept)
    v.run(WAIT + ".wait", w, t)
    v.prove("an-interruption-is-used-once", z3.BoolVal(len(slept) == n + 1))
    v.prove("timer-is-dropped", z3.BoolVal(before != "soon-before" or bool(timer_cancelled)))


@contract("C23", WAIT + ".interrupt_soon", "interrupt_soon")
def interrupt_soon(v):
    it, ctx = v.it, v.ctx
    w = waiter(v)
    tasks, ints, sleeps = [], [], []
    it.lib["asyncio.ensure_future"] = it.lib["asyncio.create_task"] = lambda it2, a, k: (ctx.mut_append(tasks, a[0]), v.fake("Timer"))[1]
    it.lib["asyncio.sleep"] = lambda it2, a, k: Coro(lambda: ctx.mut_append(sleeps, a[0]), "sleep")
    w.attrs["interrupt"] = v.afn(lambda it2, a, k: ctx.mut_append(ints, len(sleeps)))
    v.case(lambda ev: {"kind": "service"})
    for _ in range(2):
        v.ok_or(v.run(WAIT + ".interrupt_soon", w), "scheduled")
    v.prove("one-timer", z3.BoolVal(len(tasks) == 1))
    v.ok_or(v.attempt(lambda: it.await_(tasks[0])), "timer")
    v.prove("interrupts-after-a-short-while", z3.BoolVal(ints == [1] and len(sleeps) == 1 and isinstance(sleeps[0], (int, float)) and 0 < sleeps[0] <= 5))


# ---------------------------------------------------------------- messages
@contract("C23", CLIENT + ".heartbeat", "client_requests", assumes=["json.dumps is faithful", "AsyncHTTPClient.fetch raises on an error status"])
def client_requests(v):
    it, ctx = v.it, v.ctx
    reqs, fetched = [], []

    def request(it2, a, k):
        d = dict(k)
        if a:
            d["url"] = a[0]
        r = v.fake("HTTPRequest", **d)
        ctx.mut_append(reqs, r)
        return r

    it.lib["tornado.httpclient.HTTPRequest"] = request

    def fetch(it2, a, k):
        ctx.mut_append(fetched, a[0])
        if ctx.branch(z3.Bool("refused")):
            it.raise_(RuntimeError, "HTTP 500")

    it.lib["tornado.httpclient.AsyncHTTPClient"] = lambda it2, a, k: v.fake("AsyncHTTPClient", fetch=v.afn(fetch))
    dumped = []
    it.lib["json.dumps"] = lambda it2, a, k: (ctx.mut_append(dumped, a[0]), SStr(z3.String("payload")))[1]
    o = v.attempt(lambda: it.call(v.cls(CLIENT), [v.str("cluster_name"), v.str("token"), v.str("api_url")])).val
    msg = v.pydict({"count": v.int("count")})
    beat = v.choose("heartbeat", "shutdown") == "heartbeat"
    v.case(lambda ev: {"kind": "client"})
    out = v.run(CLIENT + (".heartbeat" if beat else ".shutdown"), o, *([msg] if beat else []))
    v.prove("one-request", z3.BoolVal(len(fetched) == 1 and fetched[0] in reqs))
    if len(fetched) != 1 or not reqs:
        return
    a = fetched[0].attrs
    base = z3.Concat(z3.String("api_url"), z3.StringVal("/v1/clusters/"), z3.String("cluster_name"))
    v.prove("about-its-own-cluster", it.sterm(it.resolve(a["url"])) == (z3.Concat(base, z3.StringVal("/heartbeat")) if beat else base))
    v.prove("with-its-own-token", same(v, at(it, a["headers"], "Authorization"), SStr(z3.Concat(z3.StringVal("token "), z3.String("token")))))
    v.prove("the-right-request", z3.BoolVal(a.get("method") == ("POST" if beat else "DELETE")))
    if beat:
        v.prove("sends-the-whole-message", z3.And(z3.BoolVal(len(dumped) == 1 and dumped[0] is msg), same(v, a.get("body"), SStr(z3.String("payload")))))
    v.prove("a-refusal-is-reported", z3.BoolVal(out.ok) == z3.Not(z3.Bool("refused")))


@contract("C23", P + "CommHandler.post", "requests")
def requests(v):
    it, ctx = v.it, v.ctx
    calls = []
    svc = v.fake("Service", **{m: v.afn(lambda it2, a, k, m=m: ctx.mut_append(calls, (m, a, k))) for m in ("scale", "adapt")})
    op = v.choose("scale", "adapt", "other", "absent")
    n = v.int("count")
    mn, mx = v.dyn("minimum", [("none", None), ("int", v.int("min_value", 0))]), v.dyn("maximum", [("none", None), ("int", v.int("max_value", 0))])
    on = v.bool("active")
    d = {"count": n, "minimum": mn, "maximum": mx, "active": on}
    if op != "absent":
        d["op"] = v.str("other_op") if op == "other" else op
        if op == "other":
            v.assume(z3.And(z3.String("other_op") != z3.StringVal("scale"), z3.String("other_op") != z3.StringVal("adapt")))
    st = []
    h = v.obj(P + "CommHandler", json_data=v.pydict(d), settings=v.pydict({"gateway_service": svc}), set_status=v.native(lambda it2, a, k: ctx.mut_append(st, a[0])))
    v.case(lambda ev: {"kind": "service"})
    out = v.attempt(lambda: it.await_(it.call(it.getattr(h, "post"), [])))
    if op == "scale":
        v.prove("scales-as-told", z3.And(z3.BoolVal(out.ok and len(calls) == 1 and calls[0][0] == "scale"), *[same(v, (a[0] if a else k.get("count")), n) for _, a, k in calls]))
    elif op == "adapt":
        v.prove("adapts-as-told", z3.And(z3.BoolVal(out.ok and len(calls) == 1 and calls[0][0] == "adapt"), *[same(v, k.get(x, a[i] if len(a) > i else None), d[x]) for _, a, k in calls for i, x in enumerate(("minimum", "maximum", "active"))]))
    else:
        v.prove("refuses-anything-else", z3.BoolVal(not out.ok and not calls))
