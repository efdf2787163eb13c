"""Contracts of the functions of DBBackendBase over the World of dbmodel.
Each is discharged under every property that owns one of its clauses."""
from contracts.dbmodel import *

B = DB + ".DBBackendBase."
ALL = ("C06", "C07", "C08", "C09", "C10")
FUNCS = []


def step(target, pids=ALL, name=None, **opts):
    def deco(fn):
        FUNCS.append((target, fn, pids, name, opts))
        return fn

    return deco


ASSUME = [
    "rely/guarantee at suspension points: other tasks only take the steps contracts/dbmodel.py rely_c/rely_w allow (each function under contract proves that its own steps are among them)",
    "start and stop hooks of backends suspend, fail, time out or are cancelled arbitrarily but only touch cluster/worker records through what they yield",
    "asyncio.timeout raises TimeoutError in the body; Proxy.add_route/remove_route do not suspend (C14)",
    "DataManager.update_*/create_worker set memory to the given values (C10); WorkQueue keeps what is put (C12)",
]


def register(pid, only=None):
    for target, fn, pids, name, opts in FUNCS:
        if fn.__name__ in only if only else pid in pids:
            o = dict(opts)
            o.setdefault("assumes", ASSUME)
            contract(pid, target, name or fn.__name__, **o)(fn)


@step(B + "reconcile_cluster", weight=5, budget=250)
def reconcile_cluster(v):
    w = World(v, inv=False)
    c = SRef(w.CC, z3.Const("c", CS))
    w.begin(c=c)
    b = w.backend()
    w.cluster("c")
    out = v.run(B + "reconcile_cluster", b, c)
    if out.kind == "raise":
        w.prove("only-cancellation-escapes", z3.BoolVal(out.exc_name() == "CancelledError"))
    w.finish(out)
    if out.kind != "return":
        return
    if v.con.pid == "C08":
        scale_clauses(v, w, b, c)


def scale_clauses(v, w, b, c):
    """Number of workers created by a reconciliation."""
    ctx = v.ctx
    parts = v.event_parts("create_worker")
    act = generic.count_part(v.it, Part(("Worker",), lambda x: z3.And(w.isW(x), w.wg("cluster", x) == c.t, w.wg("target", x) < STOPPED), None))
    s, t = w.cg("status", c.t), w.cg("target", c.t)
    cnt = w.cg("count", c.t)
    limit = w.cg("worker_start_failure_count", c.t) >= b.attrs["worker_start_failure_limit"].t
    missing = z3.If(z3.And(s == RUNNING, t == RUNNING, cnt > act), cnt - act, 0)
    total = z3.Sum([generic.count_part(v.it, p) for p in parts] or [z3.IntVal(0)])
    n = ctx.fresh("n_created", z3.IntSort())
    generic.equate_counts(v.it)
    idx = ctx.fresh("idx", z3.IntSort())
    ints = [p for p in parts if p.sorts == ("Int",)]
    if len(ints) != len(parts):
        total = total
        v.prove("creates-exactly-the-missing-workers", total == missing)
    else:
        g = z3.Or([p.guard(idx) for p in ints] or [z3.BoolVal(False)])
        v.prove("creates-exactly-the-missing-workers", g == z3.And(idx >= 0, idx < missing))
        if len(ints) > 1:
            v.prove("creates-exactly-the-missing-workers", z3.BoolVal(False))
    for p in parts:
        xs = [ctx.fresh("ci", generic.sort_of(x)) for x in p.sorts]
        v.prove("created-for-this-cluster", z3.Implies(p.guard(*xs), p.val(*xs)[1].t == c.t))
    v.prove("repeated-start-failures-fail-the-cluster", z3.Implies(z3.And(s == RUNNING, limit), t == FAILED) if "failcheck" in ctx.state else z3.Implies(z3.And(s == RUNNING, t == RUNNING), z3.Not(limit)))


@step(B + "reconcile_worker", weight=5, budget=250)
def reconcile_worker(v):
    w = World(v, inv=False)
    x = SRef(w.WC, z3.Const("w", WS))
    w.begin(w=x)
    b = w.backend()
    w.worker("w")
    s0 = w.wg("status", x.t)
    out = v.run(B + "reconcile_worker", b, x)
    if out.kind == "raise":
        w.prove("only-cancellation-escapes", z3.BoolVal(out.exc_name() == "CancelledError"))
    elif v.con.pid == "C08":
        c = w.wg("cluster", x.t)
        v.prove("stopped-workers-get-replaced", z3.Implies(z3.And(s0 < STOPPED, w.wg("status", x.t) >= STOPPED, w.cg("status", c) == RUNNING, w.cg("target", c) == RUNNING), w.cg("g_queued", c)))
    w.finish(out)


@step(B + "stop_cluster")
def stop_cluster(v):
    w = World(v, inv=False)
    w.begin()
    b = w.backend()
    failed = v.bool("failed")
    nm = v.str("cluster_name")
    pre = w.snap()
    out = v.run(B + "stop_cluster", b, nm, failed)
    if not v.ok_or(out, "stop-never-fails"):
        return
    w.finish(out)
    if v.con.pid in ("C06", "C26"):
        c = v.ctx.fresh("sc", CS)
        v.ctx.know("Cluster", c)
        t0, t1 = w.cg("target", c, pre[0]), w.cg("target", c)
        named = z3.And(w.isC(c), w.cg("name", c) == nm.t)
        v.prove("named-cluster-is-told-to-stop", z3.Implies(z3.And(named, t0 < STOPPED), t1 == z3.If(failed.t, FAILED, STOPPED)))
        v.prove("only-the-named-cluster", z3.Implies(z3.Not(z3.And(named, t0 < STOPPED)), t1 == t0))


@step(B + "start_cluster")
def start_cluster(v):
    w = World(v, inv=False)
    w.begin()
    opts, conf, request = v.opaque("options"), v.opaque("configdict"), v.opaque("request")
    asked = []

    def process(it, a, k):
        asked.append(it.resolve(a[1]))
        return (opts, v.obj("Cfg", to_dict=Native("to_dict", lambda it, a, k: conf)))

    b = w.backend(process_cluster_options=v.afn(process))
    out = v.run(B + "start_cluster", b, v.obj("User", name=v.str("username")), request)
    if not v.ok_or(out, "start-succeeds-when-the-options-do"):
        return
    w.finish(out)
    created = v.events("create_cluster")
    if v.con.pid in ("C06", "C07"):
        puts = v.events("put")
        v.prove("one-cluster-is-created", z3.BoolVal(len(created) == 1))
        if len(created) == 1:
            v.prove("new-cluster-is-queued", z3.BoolVal(any(p[1] is created[0][1] for p in puts)))
            v.prove("its-name-is-returned", v.eq(out.val, created[0][1].attrs["name"]))
    if v.con.pid in ("C01", "C05"):
        v.prove("validated-options-are-used", z3.BoolVal(len(created) == 1 and v.it.resolve(created[0][3]) is opts and v.it.resolve(created[0][4]) is conf and asked == [request]))
        v.prove("created-for-the-requesting-user", z3.BoolVal(False) if len(created) != 1 else v.eq(created[0][2], v.str("username")))


@step(B + "on_cluster_heartbeat", weight=6, budget=250, pids=("C04",) + ALL)
def on_cluster_heartbeat(v):
    ctx, it = v.ctx, v.it
    w = World(v, inv=False)
    w.begin()
    b = w.backend()
    names = {}

    def lst(n):
        f = ctx.fresh_fn(n, z3.StringSort(), z3.BoolSort())
        names[n] = f
        return VList([Part(("Str",), lambda s, f=f: f(s), lambda s: SStr(s))])

    count = v.int("req_count", 0)
    msg = v.mdict(
        count=count, api_address=v.str("api_address"), scheduler_address=v.str("scheduler_address"), dashboard_address=v.str("dashboard_address"),
        active_workers=lst("active_workers"), closing_workers=lst("closing_workers"), closed_workers=lst("closed_workers"),
    )
    act, closing, closed = names["active_workers"], names["closing_workers"], names["closed_workers"]
    nm = v.str("cluster_name")
    pre = w.snap()
    listed = lambda s: z3.Or(act(s), closing(s), closed(s))

    # a scheduler lists every worker it has been told about until it reported it closed
    def lists_all(x):
        n, c = w.wg("name", x, pre[1]), w.wg("cluster", x, pre[1])
        ctx.know("Str", n)
        return z3.Implies(z3.And(w.isW(x, pre[1]), w.cg("name", c, pre[0]) == nm.t, w.wg("status", x, pre[1]) == RUNNING, w.wg("target", x, pre[1]) == RUNNING), listed(n))

    ctx.forall(("Worker",), lists_all, "scheduler-lists-its-workers")
    out = v.run(B + "on_cluster_heartbeat", b, nm, msg)
    if not v.ok_or(out, "heartbeat-is-handled"):
        return
    w.finish(out)
    found = next((p for p in ctx.pc if False), None)
    c = w.looked_up
    if c is None:
        return
    cf0, wf0 = pre
    c = c.t
    ign = w.cg("target", c, cf0) > RUNNING
    pid = v.con.pid
    n1, n0 = w.cg("count", c), w.cg("count", c, cf0)
    nolim, lim = w.cf["g_maxw"].comps(c)
    if pid == "C04":
        v.prove("count-within-limit", z3.Implies(z3.And(z3.Not(ign), z3.Not(nolim)), n1 <= z3.If(count.t < lim, count.t, lim)))
        v.prove("count-is-the-requested-one", z3.Implies(z3.And(z3.Not(ign), z3.Or(nolim, count.t <= lim)), n1 == count.t))
        v.prove("stopping-cluster-count-kept", z3.Implies(ign, n1 == n0))
        oc = ctx.fresh("oc", CS)
        ctx.know("Cluster", oc)
        v.prove("other-clusters-count-kept", z3.Implies(oc != c, w.cg("count", oc) == w.cg("count", oc, cf0)))
        return
    if pid == "C09":
        v.prove("heartbeat-is-recorded", z3.Implies(z3.Not(ign), z3.Not(w.cg("last_heartbeat", c))))
        s0 = w.cg("status", c, cf0)
        for f in ("api_address", "scheduler_address", "dashboard_address"):
            v.prove("addresses-recorded-while-pending", z3.Implies(z3.And(z3.Not(ign), s0 != RUNNING), w.cg(f, c) == it.sterm(msg.d[hk(f)][1])))
            v.prove("addresses-fixed-once-running", z3.Implies(z3.Or(ign, s0 == RUNNING), w.cg(f, c) == w.cg(f, c, cf0)))
        return
    if pid != "C08":
        return
    x = ctx.fresh("hw", WS)
    ctx.know("Worker", x)
    ctx.know("Cluster", w.wg("cluster", x))
    xn = w.wg("name", x)
    mine = z3.And(w.isW(x), w.wg("cluster", x) == c, z3.Not(ign))
    s0, s1 = w.wg("status", x, wf0), w.wg("status", x)
    t0, t1 = w.wg("target", x, wf0), w.wg("target", x)
    ce0, ce1 = w.wg("close_expected", x, wf0), w.wg("close_expected", x)
    same = z3.And(s1 == s0, t1 == t0, ce1 == ce0)
    v.prove("other-workers-untouched", z3.Implies(z3.Not(mine), same))
    v.prove("active-workers-never-stopped", z3.Implies(z3.And(mine, z3.Or(act(xn), closing(xn))), t1 == t0))
    v.prove("reported-workers-are-running", z3.Implies(z3.And(mine, z3.Or(act(xn), closing(xn)), s0 < RUNNING), s1 == RUNNING))
    v.prove("closing-is-remembered", z3.Implies(mine, ce1 == z3.Or(ce0, z3.And(closing(xn), s0 < STOPPED))))
    only_closed = z3.And(closed(xn), z3.Not(act(xn)), z3.Not(closing(xn)))
    v.prove("closed-workers-finish", z3.Implies(z3.And(mine, only_closed, s0 < STOPPED), t1 == z3.If(ce0, z3.IntVal(STOPPED), z3.IntVal(FAILED))))
    v.prove("only-unstarted-workers-cancelled", z3.Implies(z3.And(mine, z3.Not(only_closed), t1 != t0), z3.And(t1 == STOPPED, s0 < RUNNING, t0 == RUNNING, z3.Not(listed(xn)))))
    v.prove("unreported-workers-keep-their-status", z3.Implies(z3.And(mine, z3.Not(z3.Or(act(xn), closing(xn)))), s1 == s0))
    # at most the excess
    pend = lambda y: z3.And(w.isW(y, wf0), w.wg("cluster", y, wf0) == c, w.wg("status", y, wf0) < RUNNING, w.wg("target", y, wf0) == RUNNING, z3.Not(listed(w.wg("name", y))))
    canc = lambda y: z3.And(pend(y), w.wg("target", y) == STOPPED)
    split = lambda f: [Part(("Worker",), lambda y, s=s: z3.And(f(y), w.wg("status", y, wf0) == s), None) for s in (CREATED, SUBMITTED)]
    cp = generic.count_union(it, Part(("Worker",), pend, None), split(pend))
    cc = generic.count_union(it, Part(("Worker",), canc, None), split(canc))
    ca = generic.count_part(it, Part(("Str",), lambda s: act(s), None))
    generic.equate_counts(it)
    excess = ca + cp - n1
    v.prove("cancels-at-most-the-excess", z3.Implies(z3.Not(ign), z3.Or(cc == 0, cc <= excess)))
    v.prove("cancels-all-the-excess-it-can", z3.Implies(z3.Not(ign), z3.Or(cc >= excess, cc == cp)))


@step(B + "_check_timeouts", weight=3)
def check_timeouts(v):
    ctx = v.ctx
    w = World(v, inv=False)
    w.begin()
    b = w.backend()
    for n in ("cluster_start_timeout", "worker_start_timeout", "cluster_heartbeat_timeout"):
        pass
    cf0, wf0 = w.snap()
    out = v.run(B + "_check_timeouts", b)
    if not v.ok_or(out, "check-succeeds"):
        return
    w.finish(out)
    if v.con.pid != "C09":
        return
    now = z3.ToReal(ctx.state["now"]) if "now" in ctx.state else None
    c, x = ctx.fresh("tc", CS), ctx.fresh("tw", WS)
    ctx.know("Cluster", c)
    ctx.know("Worker", x)
    wc = w.wg("cluster", x)
    ctx.know("Cluster", wc)
    T = lambda n: b.attrs[n].t * 1000
    if now is None:
        v.unreachable("the-time-is-read")
        return

    def late_c(c):
        s, t = w.cg("status", c, cf0), w.cg("target", c, cf0)
        hb = w.cf["last_heartbeat"].comps(c)[1]
        st = z3.ToReal(w.cg("start_time", c))
        return z3.And(w.isC(c, cf0), t < STOPPED, z3.Or(z3.And(s == SUBMITTED, st < now - T("cluster_start_timeout")), z3.And(s == RUNNING, z3.ToReal(hb) < now - T("cluster_heartbeat_timeout"))))

    def late_w(x):
        s, t = w.wg("status", x, wf0), w.wg("target", x, wf0)
        c = w.wg("cluster", x)
        return z3.And(w.isW(x, wf0), t == RUNNING, s == SUBMITTED, z3.ToReal(w.wg("start_time", x)) < now - T("worker_start_timeout"), w.cg("status", c, cf0) == RUNNING, w.cg("target", c, cf0) < STOPPED)

    t0, t1 = w.cg("target", c, cf0), w.cg("target", c)
    v.prove("late-clusters-fail", z3.Implies(late_c(c), t1 == FAILED))
    v.prove("clusters-in-time-are-left-alone", z3.Implies(z3.And(w.isC(c), z3.Not(late_c(c))), t1 == t0))
    t0, t1 = w.wg("target", x, wf0), w.wg("target", x)
    # the workers of a cluster that fails are stopped along with it
    v.prove("late-workers-fail", z3.Implies(z3.And(late_w(x), z3.Not(late_c(wc))), t1 == FAILED))
    v.prove("workers-in-time-are-left-alone", z3.Implies(z3.And(w.isW(x), z3.Not(late_w(x))), t1 == t0))
    v.prove("marking-only", z3.And(w.wg("status", x) == w.wg("status", x, wf0), w.cg("status", c) == w.cg("status", c, cf0)))


class LoopOnce:
    """Runs the body of a `while True` loop once: anything but a cancellation
    escaping it ends the periodic checks."""

    def __init__(self, v, at_end):
        self.v = v
        self.at_end = at_end
        self.done = False
        v.ctx.state["while_hook"] = self

    def __call__(self, it, n, env):
        v = self.v
        t = it.ev(n.test, env)
        v.prove("loop-never-ends", z3.BoolVal(t is True))
        try:
            it.ex_block(n.body, env)
        except ContinueEx:
            pass
        except BreakEx:
            v.prove("loop-never-ends", z3.BoolVal(False))
        self.at_end()
        raise StopBody


class StopBody(Exception):
    pass


def run_loop(v, w, f, b, at_end):
    LoopOnce(v, at_end)
    try:
        out = v.run(f, b)
    except StopBody:
        v.rep.paths += 1
        return
    if out.kind == "raise":
        v.prove("errors-never-end-the-checks", z3.BoolVal(out.exc_name() == "CancelledError"))
        w.finish(out)
    else:
        v.prove("loop-never-ends", z3.BoolVal(False))


def check_loop(v, kind):
    ctx, it = v.ctx, v.it
    w = World(v, inv=False)
    w.begin()
    sort, S = ("Cluster", CS) if kind == "clusters" else ("Worker", WS)
    hook = f"do_check_{kind}"
    st = {}

    def check(it, a, k):
        lst = a[0]
        items = it.iterate(lst)
        if len(items) != 1 or not isinstance(items[0], (Part, SSeq)):
            it.unsupported("check list")
        p = items[0]
        ctx.event("checked", lst)
        w.suspend(hook)
        r = v.choose("ok", "error", "cancelled")
        if r == "error":
            it.raise_(RuntimeError, "check failed")
        if r == "cancelled":
            it.raise_(asyncio.CancelledError)
        # one answer per object, in order (C22): ok is a function of the object
        ok = ctx.fresh_fn("reported_alive", *[generic.sort_of(s) for s in p.sorts], z3.BoolSort())
        st.update(p=p, ok=ok, snap=w.snap())
        return VList([Part(p.sorts, p.guard, lambda *xs: SBool(ok(*xs)), p.origin or p)], it.level)

    b = w.backend(**{hook: v.afn(check)})
    pre = w.snap()

    def end():
        w.check_step()
        if v.con.pid != "C09":
            return
        if not st:
            return
        # clauses relative to the state after the (suspending) check
        snap, p, ok = st["snap"], st["p"], st["ok"]
        f0 = snap[0] if sort == "Cluster" else snap[1]
        g = (lambda n, x, q=None: w.cg(n, x, q)) if sort == "Cluster" else (lambda n, x, q=None: w.wg(n, x, q))
        x = ctx.fresh("cx", S)
        ctx.know(sort, x)
        isx = (w.isC if sort == "Cluster" else w.isW)(x, f0)
        s0, t0, t1 = g("status", x, f0), g("target", x, f0), g("target", x)
        xs = elem_of(ctx, it, w, p, x)
        if xs is None:
            it.unsupported("check list shape")
        sel = z3.And(p.guard(*xs), p.val(*xs).t == x)
        dead = z3.And(sel, z3.Not(ok(*xs)))
        v.prove("only-reported-dead-are-failed", z3.Implies(z3.And(isx, t1 != t0), z3.And(dead, t1 == FAILED)))
        v.prove("changed-meanwhile-is-left-alone", z3.Implies(z3.And(isx, z3.Or(s0 != SUBMITTED, t0 != RUNNING)), t1 == t0))
        v.prove("dead-pending-is-failed", z3.Implies(z3.And(isx, dead, s0 == SUBMITTED, t0 == RUNNING), t1 == FAILED))
        # what is checked: every pending object of this kind
        c0 = pre
        pf = pre_loop[0][0] if sort == "Cluster" else pre_loop[0][1]
        sx, tx = g("status", x, pf), g("target", x, pf)
        pend = z3.And((w.isC if sort == "Cluster" else w.isW)(x, pf), sx == SUBMITTED, tx == RUNNING)
        if sort == "Worker":
            wc = w.wg("cluster", x)
            ctx.know("Cluster", wc)
            pend = z3.And(pend, w.cg("status", wc, pre_loop[0][0]) == RUNNING, w.cg("target", wc, pre_loop[0][0]) < STOPPED)
        v.prove("every-pending-object-is-checked", z3.Implies(pend, sel))
        v.prove("only-pending-objects-are-checked", z3.Implies(z3.And((w.isC if sort == "Cluster" else w.isW)(x, pf), sel), z3.And(sx == SUBMITTED, tx < STOPPED)))

    pre_loop = [pre]

    # the state right after the sleep is what the list is built from
    def slept(it, why):
        w.suspend(why)
        pre_loop[0] = w.snap()

    ctx.state["suspend_hook"] = slept
    run_loop(v, w, B + f"check_{kind}_loop", b, end)


def elem_of(ctx, it, w, p, x):
    """Indices of the element x in a list of references."""
    for s in p.sorts:
        if s not in ("Worker", "Cluster"):
            return None
    out = []
    for s in p.sorts:
        if generic.sort_of(s) == x.sort():
            out.append(x)
        elif s == "Cluster":
            out.append(w.wg("cluster", x))
        else:
            return None
    return out


@step(B + "check_clusters_loop", weight=3)
def check_clusters_loop(v):
    check_loop(v, "clusters")


@step(B + "check_workers_loop", weight=3)
def check_workers_loop(v):
    check_loop(v, "workers")


@step(B + "check_timeouts_loop")
def check_timeouts_loop(v):
    w = World(v, inv=False)
    w.begin()
    seen = []

    def ct(it, a, k):
        seen.append(1)
        r = v.choose("ok", "error")
        if r == "error":
            it.raise_(RuntimeError, "check failed")
        return None

    b = w.backend(_check_timeouts=v.afn(ct))
    run_loop(v, w, B + "check_timeouts_loop", b, lambda: (v.prove("every-round-checks", z3.BoolVal(len(seen) == 1)), w.check_step()))


@step(B + "cleanup_db_loop")
def cleanup_db_loop(v):
    w = World(v, inv=False)
    w.begin()
    seen = []

    def ce(it, a, k):
        seen.append(a[1])
        if v.choose("ok", "error") == "error":
            it.raise_(RuntimeError, "database error")
        return v.int("n", 0)

    v.it.overrides[DB + ".DataManager.cleanup_expired"] = ce
    b = w.backend()
    run_loop(v, w, B + "cleanup_db_loop", b, lambda: (v.prove("expires-by-the-configured-age", v.eq(seen[0], b.attrs["db_cluster_max_age"]) if len(seen) == 1 else z3.BoolVal(False)), w.check_step()))


@step(B + "cleanup", pids=("C06", "C07"))
def cleanup(v):
    ctx, it = v.ctx, v.it
    w = World(v, inv=False)
    w.begin()
    done = []
    stop = v.bool("stop_clusters_on_shutdown")
    b = w.backend(
        task_pool=v.obj("TaskPool", close=v.afn(lambda it, a, k: w.suspend("task_pool.close"))),
        stop_clusters_on_shutdown=stop,
        reconcilers=VList([]),
        do_cleanup=v.afn(lambda it, a, k: done.append("do_cleanup")),
    )
    it.overrides["dask_gateway_server.backends.base.Backend.cleanup"] = lambda it, a, k: done.append("super")
    b.attrs["queue"].attrs["close"] = Native("queue.close", lambda it, a, k: ctx.event("queue_close"))
    b.attrs["proxy"].attrs["cleanup"] = v.afn(lambda it, a, k: done.append("proxy"))
    waits = []

    def wait(it, a, k):
        waits.append(a[0])
        # every cluster still listed is told to stop and queued before waiting
        c = ctx.fresh("wc", CS)
        ctx.know("Cluster", c)
        s, t = w.cg("status", c), w.cg("target", c)
        v.prove("shutdown-stops-every-cluster", z3.Implies(z3.And(w.isC(c), stop.t), t >= STOPPED))
        ps = it.iterate(a[0])
        sel = z3.BoolVal(False)
        for p in ps:
            if isinstance(p, Part) and p.sorts == ("Cluster",):
                e = p.val(c)
                if isinstance(e, Obj) and e.attrs.get("flag") == "g_shutdown":
                    sel = z3.Or(sel, z3.And(p.guard(c), e.attrs["of"].t == c))
        v.prove("shutdown-waits-for-every-cluster", z3.Implies(z3.And(w.isC(c), s < STOPPED), sel))
        w.suspend("wait for shutdown")
        return (VSet([]), VSet([]))

    it.lib["asyncio.wait"] = lambda it, a, k: Coro(lambda: wait(it, a, k), "wait")
    it.lib["asyncio.ensure_future"] = lambda it, a, k: a[0]
    it.lib["asyncio.gather"] = lambda it, a, k: Coro(lambda: VList([]), "gather")
    out = v.run(B + "cleanup", b)
    if not v.ok_or(out, "cleanup-completes"):
        return
    w.finish(out)
    v.prove("everything-is-cleaned-up", z3.BoolVal(done == ["do_cleanup", "proxy", "super"] or sorted(done) == ["do_cleanup", "proxy", "super"]))


@step(B + "setup", pids=("C07",))
def setup(v):
    """After a restart everything with something left to do is queued again,
    by as many reconcilers as configured, and every periodic check runs."""
    ctx, it = v.ctx, v.it
    w = World(v, inv=False)
    w.begin()
    q = {}
    spawned = []
    b = w.backend(parallelism=v.choose(1, 3), backoff_base_delay=v.real("bb"), backoff_max_delay=v.real("bm"), db_url="sqlite:///f", db_debug=False, db_encrypt_keys=VList([]), api_url="http://gw")
    queue, proxy = b.attrs.pop("queue"), b.attrs.pop("proxy")
    db = b.attrs.pop("db")
    if v.con.pid == "C11":
        db = v.fake("DataManager", name_to_cluster=v.pydict({}), id_to_cluster=v.pydict({}), active_clusters=v.native(lambda it, a, k: VList([])))
    loops = ["check_timeouts_loop", "check_clusters_loop", "check_workers_loop", "cleanup_db_loop", "reconciler_loop"]
    for n in loops:
        b.attrs[n] = Native(n, lambda it, a, k, n=n: Coro(lambda: None, n))
    args = {}

    def made(kind, o):
        def f(it, a, k):
            ctx.mut_dict(args, kind, (a, k))
            return o

        return f

    proxy.attrs["setup"] = v.afn(lambda it, a, k: ctx.mut_append(spawned, "proxy.setup"))
    spawn = Native("spawn", lambda it, a, k: ctx.mut_append(spawned, a[0].name))
    it.overrides["dask_gateway_server.utils.TaskPool"] = Native("TaskPool", lambda it, a, k: Obj(Fake("TaskPool"), {"spawn": spawn}))
    it.overrides["dask_gateway_server.workqueue.WorkQueue"] = Native("WorkQueue", made("queue", queue))
    it.overrides["dask_gateway_server.workqueue.Backoff"] = Native("Backoff", made("backoff", Obj(Fake("Backoff"), {})))
    it.overrides["dask_gateway_server.proxy.core.Proxy"] = Native("Proxy", made("proxy", proxy))
    it.overrides[DB + ".DataManager"] = Native("DataManager", made("db", db))
    it.overrides["dask_gateway_server.backends.base.Backend.setup"] = lambda it, a, k: None
    it.lib["asyncio.ensure_future"] = lambda it, a, k: (ctx.mut_append(spawned, a[0].name), a[0])[1]
    b.attrs["do_setup"] = v.afn(lambda it, a, k: ctx.mut_append(spawned, "do_setup"))
    out = v.run(B + "setup", b, Obj(Fake("App"), {}))
    if not v.ok_or(out, "starts"):
        return
    v.prove("reconcilers-run", z3.BoolVal(spawned.count("reconciler_loop") == b.attrs["parallelism"]))
    for n in loops[:4]:
        v.prove("periodic-checks-run", z3.BoolVal(spawned.count(n) == 1))
    if v.con.pid == "C11":
        a, k = args.get("db", ((), {}))
        g = lambda n, i: k[n] if n in k else a[i] if i < len(a) else None
        v.prove("configured-database-and-keys", z3.BoolVal(g("url", 0) == "sqlite:///f" and it.resolve(g("encrypt_keys", 1)) is b.attrs["db_encrypt_keys"]))
    if v.con.pid != "C07":
        return
    v.prove("backend-is-set-up", z3.BoolVal(spawned.count("do_setup") == 1))
    a, k = args["backoff"]
    v.prove("configured-backoff", z3.And(v.eq(k.get("base_delay", a[0] if a else None), b.attrs["backoff_base_delay"]), v.eq(k.get("max_delay", a[1] if len(a) > 1 else None), b.attrs["backoff_max_delay"])))
    c, x = ctx.fresh("anyc", CS), ctx.fresh("anyw", WS)
    ctx.know("Cluster", c)
    ctx.know("Worker", x)
    ctx.know("Cluster", w.wg("cluster", x))
    v.prove("unfinished-clusters-are-queued", z3.Implies(z3.And(w.isC(c), w.cg("status", c) < STOPPED), w.cg("g_queued", c)))
    v.prove("unfinished-workers-are-queued", z3.Implies(z3.And(w.isW(x), w.wg("status", x) < STOPPED), w.wg("g_queued", x)))


@step(B + "reconciler_loop", pids=("C07", "C10"))
def reconciler_loop(v):
    ctx, it = v.ctx, v.it
    w = World(v, inv=False)
    w.begin()
    kind = v.choose("cluster", "worker", "closed")
    obj = {}
    log = []

    def get(it, a, k):
        if kind == "closed":
            it.raise_(it.get_class("dask_gateway_server.workqueue.WorkQueueClosed"))
        obj["o"] = w.cluster("c") if kind == "cluster" else w.worker("w")
        return obj["o"]

    def rec(k2):
        def f(it, a, k):
            log.append(("reconcile", k2, a[0]))
            r = v.choose("ok", "error", "cancelled")
            log.append(("outcome", r))
            if r == "error":
                it.raise_(RuntimeError, "failed")
            if r == "cancelled":
                it.raise_(asyncio.CancelledError)
            return None

        return v.afn(f)

    b = w.backend(reconcile_cluster=rec("cluster"), reconcile_worker=rec("worker"))
    q = b.attrs["queue"].attrs
    q["get"] = v.afn(get)
    for n in ("put_backoff", "reset_backoff", "task_done", "put"):
        q[n] = Native(n, lambda it, a, k, n=n: log.append((n, a[0])))

    def check(final):
        if v.con.pid != "C07":
            return
        o = obj.get("o")
        is_o = lambda x: isinstance(it.resolve(x), SRef) and it.resolve(x).t.eq(o.t)
        kinds = [e[0] for e in log]
        v.prove("reconciled-by-the-right-method", z3.BoolVal(len(log) > 1 and log[0][:2] == ("reconcile", kind) and is_o(log[0][2])))
        r = log[1][1] if len(log) > 1 else None
        v.prove("always-released", z3.BoolVal(kinds.count("task_done") == 1 and is_o(log[kinds.index("task_done")][1])))
        v.prove("failures-are-retried", z3.BoolVal(("put_backoff" in kinds) == (r == "error")))
        if "put_backoff" in kinds:
            v.prove("failures-are-retried", z3.BoolVal(is_o(log[kinds.index("put_backoff")][1]) and kinds.index("put_backoff") < kinds.index("task_done")))
        if r == "ok":
            v.prove("success-resets-the-backoff", z3.BoolVal("reset_backoff" in kinds))

    LoopOnce(v, lambda: check(False))
    try:
        out = v.run(B + "reconciler_loop", b)
    except StopBody:
        v.rep.paths += 1
        return
    if kind == "closed":
        v.prove("ends-only-when-closed", z3.BoolVal(out.kind == "return"))
        return
    v.prove("ends-only-when-closed", z3.BoolVal(out.kind == "raise" and out.exc_name() == "CancelledError"))
    check(True)


@step(DB + ".Cluster.model_status", pids=("C06",))
def model_status(v):
    """The public status is defined for every state the invariant allows, is
    final exactly when the cluster is, and only moves forward when the cluster
    does."""
    it, ctx = v.it, v.ctx
    js, CC = v.cls(DB + ".JobStatus"), v.cls(DB + ".Cluster")
    w = World(v, inv=False)
    rank = {"PENDING": 1, "RUNNING": 2, "STOPPING": 3, "STOPPED": 4, "FAILED": 4}
    vals = []
    for i in (0, 1):
        s, t = v.enum(f"s{i}", js), v.enum(f"t{i}", js)
        o = Obj(CC, {"status": s, "target": t})
        for f in w.inv_pair(s.t, t.t).values():
            ctx.assume(f)
        out = v.attempt(lambda: it.getattr(o, "model_status"))
        if not v.ok_or(out, "public-status-is-defined"):
            return
        r = it.resolve(out.val)
        vals.append((s, t, r))
    (s0, t0, r0), (s1, t1, r1) = vals
    ctx.assume(z3.And(s1.t >= s0.t, z3.Implies(s0.t >= STOPPED, s1.t == s0.t), z3.Implies(t0.t >= STOPPED, t1.t >= STOPPED)))

    def rk(r):
        if isinstance(r, EnumMember):
            return z3.IntVal(rank[r.name])
        e = z3.IntVal(0)
        for m in r.cls.enum.values():
            e = z3.If(r.t == m.value, z3.IntVal(rank[m.name]), e)
        return e

    def is_(r, n):
        if isinstance(r, EnumMember):
            return z3.BoolVal(r.name == n)
        return r.t == r.cls.enum[n].value

    v.prove("public-status-only-moves-forward", rk(r1) >= rk(r0))
    v.prove("public-final-status-is-final", z3.Implies(rk(r0) == 4, z3.And([is_(r1, n) == is_(r0, n) for n in rank])))
    v.prove("public-status-tells-the-truth", z3.And(is_(r0, "STOPPED") == (s0.t == STOPPED), is_(r0, "FAILED") == (s0.t == FAILED), is_(r0, "RUNNING") == z3.And(s0.t == RUNNING, t0.t == RUNNING), z3.Implies(t0.t >= STOPPED, rk(r0) >= 3)))
