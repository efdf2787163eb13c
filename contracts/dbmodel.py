"""World of the database-backed backend: clusters and workers as objects of an
arbitrary (unbounded) heap, the collaborators' contracts, the invariant every
function maintains, and the interference other tasks may cause at a suspension
point (rely/guarantee)."""
import asyncio

import z3

from pyvc.verify import *
from pyvc import core, generic
from pyvc.libs import noop_log, simple_cm, clock

DB = "dask_gateway_server.backends.db_base"
CREATED, SUBMITTED, RUNNING, CLOSING, STOPPED, FAILED = range(1, 7)
CS, WS = ref_sort("Cluster"), ref_sort("Worker")

PERSISTED_C = ("status", "target", "count", "state", "scheduler_address", "dashboard_address", "api_address", "stop_time")
PERSISTED_W = ("status", "target", "state", "stop_time", "close_expected")


# Which property each clause belongs to: every function maintains the whole
# invariant, each clause is discharged under its own property.
OWNER = {
    "inv-status-domain": "C06", "inv-target-domain": "C06", "inv-closing-is-stopping": "C06", "inv-final-is-requested": "C06",
    "inv-final-has-stop-time": "C06 C09", "inv-running-has-heartbeat": "C09", "inv-stopping-releases-waiters": "C07", "inv-final-releases-shutdown": "C07",
    "inv-w-status-domain": "C08", "inv-w-target-domain": "C08", "inv-w-final-is-requested": "C08", "inv-w-closing-is-stopping": "C08",
    "inv-w-closing-only-in-stopping-cluster": "C08", "inv-w-told-to-stop-before-cluster-closes": "C06", "inv-w-final-before-cluster": "C06",
    "cluster-status-never-goes-back": "C06", "cluster-final-status-is-final": "C06", "cluster-status-only-changed-by-its-reconciler": "C06",
    "stop-request-is-never-undone": "C06", "requested-outcome-is-kept": "C06", "teardown-before-final": "C06", "told-to-stop-never-runs": "C06", "told-to-stop-starts-no-worker": "C06 C08",
    "routes-removed-before-final": "C06",
    "worker-status-never-goes-back": "C08", "worker-final-status-is-final": "C08", "worker-stop-request-is-never-undone": "C08", "worker-closing-request-is-never-undone": "C08",
    "worker-was-asked-to-stop": "C08", "close-announcement-is-kept": "C08",
    "inv-only-final-has-stop-time": "C10 C06", "batch-has-uniform-keys": "C10",
    "memory-only-changed-through-the-database": "C10", "cluster-start-state-is-recorded": "C10 C06", "worker-start-state-is-recorded": "C10 C08",
    "cluster-start-is-bounded-by-its-timeout": "C07 C09", "worker-start-is-bounded-by-its-timeout": "C07 C09",
    "no-worker-is-forgotten": "C07", "no-cluster-is-forgotten": "C07", "created-workers-are-queued": "C07 C08",
    "changed-target-is-queued": "C07", "ready-stays-set": "C07", "heartbeat-stays-set": "C09", "only-finished-clusters-are-forgotten": "C06 C10",
    "only-the-reconciler-touches-it": "C06", "worker-only-moved-by-its-reconciler": "C08",
    "only-cancellation-escapes": "C07",
}


GUARANTEES = (
    "only-finished-clusters-are-forgotten", "cluster-status-never-goes-back", "stop-request-is-never-undone", "ready-stays-set", "heartbeat-stays-set",
    "only-the-reconciler-touches-it", "changed-target-is-queued", "worker-status-never-goes-back", "worker-stop-request-is-never-undone",
    "close-announcement-is-kept", "worker-only-moved-by-its-reconciler", "told-to-stop-starts-no-worker",
)


class World:
    def __init__(self, v, inv=True, bulk=None):
        self.v = v
        self.pid = v.con.pid
        self.sync = None
        self.looked_up = None
        self.it = it = v.it
        self.ctx = ctx = v.ctx
        self.JS = js = it.get_class(DB + ".JobStatus")
        self.CC, self.WC = it.get_class(DB + ".Cluster"), it.get_class(DB + ".Worker")
        te = lambda: TEnum(js)
        cf = dict(
            id=TInt(0), name=TStr(), username=TStr(), token=TStr(), status=te(), target=te(), count=TInt(0), state=TOpaque("state"),
            scheduler_address=TStr(), dashboard_address=TStr(), api_address=TStr(), tls_cert=TBytes(), tls_key=TBytes(),
            options=TOpaque("options"), start_time=TInt(0), stop_time=TOpt(TInt(0)), last_heartbeat=TOpt(TInt(0)),
            worker_start_failure_count=TInt(0), added_to_proxies=TBool(),
            # ghost
            g_ready=TBool(), g_shutdown=TBool(), g_queued=TBool(), g_maxw=TOpt(TInt(0)), g_in=TBool(),
        )
        wf = dict(
            id=TInt(0), name=TStr(), cluster=TRef(self.CC, "Cluster"), status=te(), target=te(), state=TOpaque("state"),
            start_time=TInt(0), stop_time=TOpt(TInt(0)), close_expected=TBool(), g_queued=TBool(), g_in=TBool(),
        )
        self.cf, self.wf = {}, {}
        for n, ty in cf.items():
            self.cf[n] = it.fields[("Cluster", n)] = Store(ctx, "C." + n, [CS], ty)
        for n, ty in wf.items():
            self.wf[n] = it.fields[("Worker", n)] = Store(ctx, "W." + n, [WS], ty)
        del it.fields[("Cluster", "worker_start_failure_count")]
        # membership in the tables
        self.busy_gen = 0
        self.created = []
        self.processing_c = None  # term of the object our function is processing
        self.processing_w = None
        self.bulk = v.bool("supports_bulk").t if bulk is None else z3.BoolVal(bulk)
        if inv:
            self.assume_inv()
        self._hooks()

    def owned(self, clause):
        return self.pid in OWNER[clause].split()

    def prove(self, clause, goal):
        if self.owned(clause):
            return self.v.prove(clause, goal)

    # ---------------------------------------------------------------- reading
    def cg(self, n, c, st=None):
        """First component of field n of cluster c."""
        return (st or self.cf)[n].comps(c)[0]

    def wg(self, n, w, st=None):
        return (st or self.wf)[n].comps(w)[0]

    def snap(self):
        return ({n: s.snapshot() for n, s in self.cf.items()}, {n: s.snapshot() for n, s in self.wf.items()})

    # -------------------------------------------------------------- invariant
    def inv_pair(self, s, t):
        """What the invariant says about a cluster's status and target."""
        return {
            "status-domain": z3.And(s >= 1, s <= 6),
            "target-domain": z3.Or(t == RUNNING, t == STOPPED, t == FAILED),
            "closing-is-stopping": z3.Implies(s == CLOSING, t >= STOPPED),
            "final-is-requested": z3.Implies(s >= STOPPED, s == t),
        }

    def inv_c(self, c, cf=None):
        g = lambda n: self.cg(n, c, cf)
        s, t = g("status"), g("target")
        out = {
            **self.inv_pair(s, t),
            "running-has-heartbeat": z3.Implies(s == RUNNING, z3.Not(g("last_heartbeat"))),
            "stopping-releases-waiters": z3.Implies(s >= CLOSING, g("g_ready")),
            "final-releases-shutdown": z3.Implies(s >= STOPPED, g("g_shutdown")),
            "final-has-stop-time": z3.Implies(s >= STOPPED, z3.Not(g("stop_time"))),
            "only-final-has-stop-time": z3.Implies(z3.Not(g("stop_time")), s >= STOPPED),
        }
        return out

    def inv_w(self, w, cf=None, wf=None):
        g = lambda n: self.wg(n, w, wf)
        s, t = g("status"), g("target")
        c = self.wg("cluster", w, wf)
        cs, ct = self.cg("status", c, cf), self.cg("target", c, cf)
        return {
            "w-status-domain": z3.And(s >= 1, s <= 6),
            "w-target-domain": z3.Or(t == RUNNING, t == CLOSING, t == STOPPED, t == FAILED),
            "w-final-is-requested": z3.Implies(s >= STOPPED, s == t),
            "w-closing-is-stopping": z3.Implies(s == CLOSING, t >= CLOSING),
            "w-closing-only-in-stopping-cluster": z3.Implies(t == CLOSING, z3.And(ct >= STOPPED, cs >= CLOSING, self.bulk)),
            "w-told-to-stop-before-cluster-closes": z3.Implies(cs >= CLOSING, z3.If(self.bulk, t >= CLOSING, t >= STOPPED)),
            "w-final-before-cluster": z3.Implies(cs >= STOPPED, s >= STOPPED),
        }

    def isC(self, c, cf=None):
        return self.cg("g_in", c, cf)

    def isW(self, w, wf=None):
        return self.wg("g_in", w, wf)

    def busy(self, kind, t):
        """Held by some reconciler other than the one under contract."""
        f = z3.Function(f"busy_{kind}@{self.busy_gen}", CS if kind == "c" else WS, z3.BoolSort())
        me = self.processing_c if kind == "c" else self.processing_w
        return f(t) if me is None else z3.And(f(t), t != me)

    def threshold(self):
        return z3.If(self.bulk, z3.IntVal(CLOSING), z3.IntVal(STOPPED))

    def todo_w(self, w, wf=None):
        s, t = self.wg("status", w, wf), self.wg("target", w, wf)
        return z3.And(self.isW(w, wf), z3.Or(z3.And(s == CREATED, t == RUNNING), z3.And(t == CLOSING, s < CLOSING), z3.And(t >= STOPPED, s < STOPPED)))

    def todo_c(self, c, cf=None):
        s, t = self.cg("status", c, cf), self.cg("target", c, cf)
        return z3.And(self.isC(c, cf), z3.Or(z3.And(s == CREATED, t == RUNNING), z3.And(t >= STOPPED, s < STOPPED)))

    def below(self, c, w, cf=None, wf=None):
        """w is a worker of the closing cluster c that has yet to close"""
        return z3.And(self.isW(w, wf), self.wg("cluster", w, wf) == c, self.cg("status", c, cf) == CLOSING, self.wg("status", w, wf) < self.threshold())

    def begin(self, c=None, w=None):
        """Start of a step: which object (if any) the function processes."""
        self.processing_c = c.t if c is not None else None
        self.processing_w = w.t if w is not None else None
        self.assume_inv()
        self.sync = self.snap()

    def assume_inv(self, label="inv"):
        """Invariant and progress of the state as it is now; other tasks keep
        their part, the object we process is exempt from being queued."""
        ctx = self.ctx
        scf, swf = self.snap()
        gen = self.busy_gen
        wit = z3.Function(f"wit@{gen}", CS, WS)
        busy_c = z3.Function(f"busy_c@{gen}", CS, z3.BoolSort())
        busy_w = z3.Function(f"busy_w@{gen}", WS, z3.BoolSort())
        mec, mew = self.processing_c, self.processing_w

        is_wit = lambda t: z3.is_app(t) and t.decl().name().startswith("wit@")

        def fc(c):
            dom = [d for s in scf.values() for d in s.ty.domain(s.comps(c))]
            return z3.Implies(self.isC(c, scf), z3.And(list(self.inv_c(c, scf).values()) + dom))

        def fw(w):
            dom = [d for s in swf.values() for d in s.ty.domain(s.comps(w))]
            return z3.Implies(self.isW(w, swf), z3.And(list(self.inv_w(w, scf, swf).values()) + dom + [self.isC(self.wg("cluster", w, swf), scf)]))

        ctx.forall_t(("Cluster",), fc, label + "-c")
        ctx.forall_t(("Worker",), fw, label + "-w", know=lambda w: [("Cluster", self.wg("cluster", w, swf))])
        if not self.owned("no-worker-is-forgotten"):
            return

        def pc(c):
            prog = [self.cg("g_queued", c, scf), busy_c(c), self.below(c, wit(c), scf, swf)]
            if mec is not None:
                prog.append(c == mec)
            return z3.Implies(self.todo_c(c, scf), z3.Or(prog))

        def pw(w):
            prog = [self.wg("g_queued", w, swf), busy_w(w)]
            if mew is not None:
                prog.append(w == mew)
            return z3.Implies(self.todo_w(w, swf), z3.Or(prog))

        ctx.forall_t(("Cluster",), pc, label + "-pc", know=lambda c: [("Worker", wit(c))], skip=lambda c: z3.is_app(c) and c.num_args() > 0 and is_wit(c.arg(0)))
        ctx.forall_t(("Worker",), pw, label + "-pw")

    def assume_names(self):
        """Names are unique (uuid4, unique column)."""
        ctx = self.ctx
        ctx.forall_t(("Cluster", "Cluster"), lambda a, b: z3.Implies(self.cg("name", a) == self.cg("name", b), a == b), "names")

    # ------------------------------------------------------------------ values
    def cluster(self, name="c"):
        t = z3.Const(name, CS)
        self.ctx.assume(self.isC(t))
        self.ctx.know("Cluster", t)
        return SRef(self.CC, t)

    def worker(self, name="w", cluster=None):
        t = z3.Const(name, WS)
        self.ctx.assume(self.isW(t))
        self.ctx.know("Worker", t)
        if cluster is not None:
            self.ctx.assume(self.wg("cluster", t) == cluster.t)
        self.ctx.know("Cluster", self.wg("cluster", t))
        return SRef(self.WC, t)

    def workers_of(self, c):
        d = VDict()
        wf = {n: self.wf[n].snapshot() for n in ("g_in", "cluster")}
        d.parts = [Part(("Worker",), lambda w: z3.And(self.isW(w, wf), self.wg("cluster", w, wf) == c.t), lambda w: (self.wf["name"].read(w), SRef(self.WC, w)))]
        d.level = self.it.level
        return d

    def all_clusters(self):
        cf = self.snap()[0]
        return Part(("Cluster",), lambda c: self.isC(c, cf), lambda c: SRef(self.CC, c))

    def active_clusters(self):
        cf = self.snap()[0]
        return VList([Part(("Cluster",), lambda c: z3.And(self.isC(c, cf), self.cg("target", c, cf) < STOPPED), lambda c: SRef(self.CC, c))], self.it.level)

    # ------------------------------------------------------------------- hooks
    def _failures(self, it, o, name):
        """Counter of start failures: inside a loop over any number of objects
        it is read and incremented once per iteration."""
        if self.ctx.sub:
            t = self.ctx.fresh("failures", z3.IntSort())
            self.ctx.assume(t >= 0)
            self.ctx.mut_dict(self.ctx.state, "failures", t)
            return SInt(t)
        if any(e[0] == "each" for e in self.ctx.events if e[0] == "each" and self.kind_of(e[1]) == "failure"):
            it.unsupported("counter read after a loop changed it")
        return self.cf[name].read(o.t)

    def _set_failures(self, it, o, v):
        if self.ctx.sub:
            r = self.ctx.state.get("failures")
            if r is None or not z3.simplify(it.sterm(v) == r + 1).eq(z3.BoolVal(True)):
                it.unsupported("counter of start failures changed by something else than one")
            self.ctx.event("failure", o)
            return
        self.ctx.event("failure", o)
        self.ghost_write("worker_start_failure_count", o, v)

    def kind_of(self, p):
        probe = p.val(*[z3.Const(f"pr{i}_{s}", generic.sort_of(s)) for i, s in enumerate(p.sorts)])
        return probe[0]

    def ghost_write(self, n, o, v):
        st = self.cf[n]
        st.write_comps((o.t,), st.ty.enc(v, self.ctx))

    def _hooks(self):
        it, ctx = self.it, self.ctx
        it.attr_hooks["Cluster.worker_start_failure_count"] = self._failures
        it.attr_hooks["set:Cluster.worker_start_failure_count"] = self._set_failures
        it.attr_hooks["Cluster.workers"] = lambda it, o, n: self.workers_of(o)
        it.attr_hooks["Cluster.ready"] = lambda it, o, n: self._flag(o, "g_ready")
        it.attr_hooks["Cluster.shutdown"] = lambda it, o, n: self._flag(o, "g_shutdown")
        it.attr_hooks["Cluster.config"] = lambda it, o, n: self._config(o)
        it.lib["asyncio.timeout"] = self._timeout
        it.overrides["dask_gateway_server.utils.timestamp"] = lambda it, a, k: self._now()
        ctx.state["determines"] = {("Worker", "Cluster"): lambda w: self.wg("cluster", w)}
        ctx.state["write_hook"] = self._write_hook
        ctx.state["suspend_hook"] = lambda it, why: self.suspend(why)
        D = DB + ".DataManager."
        ov = it.overrides
        ov[D + "update_cluster"] = lambda it, a, k: self._update(a[1], k)
        ov[D + "update_worker"] = lambda it, a, k: self._update(a[1], k)
        ov[D + "update_clusters"] = lambda it, a, k: self._updates(a[1])
        ov[D + "update_workers"] = lambda it, a, k: self._updates(a[1])
        ov[D + "create_worker"] = lambda it, a, k: self._create_worker(a[1])
        ov[D + "create_cluster"] = lambda it, a, k: self._create_cluster(a[1], a[2], a[3])
        ov[D + "get_cluster"] = lambda it, a, k: self._get_cluster(a[1])
        ov[D + "active_clusters"] = lambda it, a, k: self.active_clusters()

    def _now(self):
        t = self.ctx.fresh("now", z3.IntSort())
        last = self.ctx.state.get("now")
        self.ctx.assume(t >= (last if last is not None else 0))
        self.ctx.mut_dict(self.ctx.state, "now", t)
        return SInt(t)

    def _flag(self, o, g):
        def set_(it, a, k):
            self.ghost(o, g, True)
            return None

        def wait(it, a, k):
            return None

        return Obj(Fake("Flag"), {"set": Native("Flag.set", set_), "is_set": Native("is_set", lambda it, a, k: it.read_field(o, g)), "flag": g, "of": o}, self.it.level)

    def ghost(self, o, n, val):
        it = self.it
        st = it.field(o.cls, n)
        comps = st.ty.enc(val, self.ctx)
        it.log("wfield", st, (o.t,), comps)
        st.write_comps((o.t,), comps)

    def _config(self, o):
        def get(it, a, k):
            if a[0] != "cluster_max_workers":
                it.unsupported(f"config.get({a[0]!r})")
            return it.read_field(o, "g_maxw")

        return Obj(Fake("Config"), {"get": Native("config.get", get), "cluster_max_workers": it_read(self.it, o, "g_maxw")}, self.it.level)

    def _timeout(self, it, a, k):
        d = a[0]

        def enter(it):
            st = list(self.ctx.state.get("timeouts", ()))
            self.ctx.mut_dict(self.ctx.state, "timeouts", st + [d])

        def exit_(it):
            self.ctx.mut_dict(self.ctx.state, "timeouts", self.ctx.state["timeouts"][:-1])
            return False

        return simple_cm("timeout", enter, exit_)

    # ----------------------------------------------------- guarantee (writes)
    def _write_hook(self, it, ref, name, v):
        """Every single write to a cluster or worker record."""
        if ref.cls is self.CC:
            pers, pre, kind = PERSISTED_C, self.cf, "cluster"
        elif ref.cls is self.WC:
            pers, pre, kind = PERSISTED_W, self.wf, "worker"
        else:
            return
        if name in pers:
            self.prove("memory-only-changed-through-the-database", z3.BoolVal(bool(self.ctx.state.get("in_db"))))
        if name not in ("status", "target", "close_expected"):
            return
        st = pre[name]
        old = st.comps(ref.t)[0]
        new = st.ty.enc(v, self.ctx)[0]
        if name == "close_expected":
            self.prove("close-announcement-is-kept", z3.Implies(old, new))
        elif name == "status":
            self.prove(f"{kind}-status-never-goes-back", z3.Or(new >= old, z3.And(old >= STOPPED, new == old)))
            self.prove(f"{kind}-final-status-is-final", z3.Implies(old >= STOPPED, new == old))
            final = z3.And(new >= STOPPED, old < STOPPED)
            if kind == "cluster":
                self.prove("cluster-status-only-changed-by-its-reconciler", z3.BoolVal(False) if self.processing_c is None else ref.t == self.processing_c)
                tgt = pre["target"].comps(ref.t)[0]
                self.prove("told-to-stop-never-runs", z3.Implies(z3.And(new == RUNNING, old != RUNNING), tgt < STOPPED))
                self.prove("teardown-before-final", z3.Implies(final, z3.Or([old == CREATED] + [e[1].t == ref.t for e in self.ctx.events if e[0] == "do_stop_cluster-done" and e[2] != "cancelled"])))
                if self.owned("routes-removed-before-final"):
                    nm = it.read_field(ref, "name")
                    path = it.binop("+", "/clusters/", nm)
                    rp = [self.v.eq(e[2], path) for e in self.ctx.events if e[0] == "remove_route" and e[1] == "PATH"]
                    rs = [self.v.eq(e[2], nm) for e in self.ctx.events if e[0] == "remove_route" and e[1] == "SNI"]
                    self.prove("routes-removed-before-final", z3.Implies(z3.And(final, old > CREATED), z3.And(z3.Or(rp or [z3.BoolVal(False)]), z3.Or(rs or [z3.BoolVal(False)]))))
            else:
                c = self.wg("cluster", ref.t)
                self.prove("worker-was-asked-to-stop", z3.Implies(final, z3.Or(
                    [old == CREATED]
                    + [e[1].t == ref.t for e in self.ctx.events if e[0] == "do_stop_worker-done" and e[2] != "cancelled"]
                    + [z3.And(self.bulk, e[1].t == c) for e in self.ctx.events if e[0] == "do_stop_cluster-done" and e[2] != "cancelled"]
                )))
        else:
            s = pre["status"].comps(ref.t)[0]
            if kind == "cluster":
                self.prove("stop-request-is-never-undone", z3.Implies(old >= STOPPED, new >= STOPPED))
                # the outcome may only change when starting it fails meanwhile
                failed = any(e[0] == "start-outcome" and e[1] in ("error", "timeout") for e in self.ctx.events)
                self.prove("requested-outcome-is-kept", z3.Implies(old >= STOPPED, z3.Or(new == old, z3.And(new == FAILED, z3.BoolVal(failed)))))
            else:
                self.prove("worker-stop-request-is-never-undone", z3.Implies(old >= STOPPED, new >= STOPPED))
                self.prove("worker-closing-request-is-never-undone", z3.Implies(old >= CLOSING, new >= CLOSING))

    # --------------------------------------------------------- DataManager
    def _update(self, o, kw):
        it = self.it
        o = it.resolve(o)
        self.ctx.mut_dict(self.ctx.state, "in_db", True)
        try:
            for n, val in kw.items():
                it.setattr(o, n, val)
        finally:
            self.ctx.mut_dict(self.ctx.state, "in_db", False)
        self.ctx.event("db", o)

    def _updates(self, updates):
        it = self.it
        if self.owned("batch-has-uniform-keys") and not self.ctx.sub:
            ks = set()
            for x in it.iterate(updates):
                if isinstance(x, Part):
                    x = x.val(*[z3.Const(f"pr{i}_{s}", generic.sort_of(s)) for i, s in enumerate(x.sorts)])
                _, u = it.to_pylist(x)
                ks.add(frozenset(k for k, _ in u.d.values()))
            self.prove("batch-has-uniform-keys", z3.BoolVal(len(ks) <= 1))

        def one(pair):
            o, u = it.to_pylist(pair)
            kw = {k: val for k, val in u.d.values()}
            if u.parts:
                it.unsupported("generic update dict")
            self._update(o, kw)

        self.foreach(updates, one)

    def foreach(self, coll, fn):
        it = self.it
        env = Env(None, None, it.level)

        def body(e):
            fn(env.vars["x"] if "x" in env.vars else e.vars["x"])

        it.loop(it.iterate(coll), NAME_X, body, env, NAME_X)

    def _create_worker(self, c):
        ctx = self.ctx
        c = self.it.resolve(c)
        w = ctx.fresh("newworker", WS)
        n = ctx.fresh("newname", z3.StringSort())
        self.created.append(w)
        self.prove("told-to-stop-starts-no-worker", z3.And(self.cg("target", c.t) < STOPPED, self.cg("status", c.t) < CLOSING, z3.BoolVal(False) if self.processing_c is None else c.t == self.processing_c))
        ctx.assume(z3.And(z3.Not(self.isW(w)), self.wg("cluster", w) == c.t, self.wg("status", w) == CREATED, self.wg("target", w) == RUNNING, self.wg("name", w) == n))
        ref = SRef(self.WC, w)
        ctx.event("create_worker", c, ref)
        return ref

    def _create_cluster(self, user, options, config):
        o = Obj(Fake("Cluster"), {"name": self.v.str("new_name"), "username": user})
        self.ctx.event("create_cluster", o, user, options, config)
        return o

    def _index(self):
        return Obj(Fake("index"), {"values": Native("values", lambda it, a, k: VList([Part(("Cluster",), lambda c: self.isC(c), lambda c: SRef(self.CC, c))], it.level))})

    def _get_cluster(self, name):
        it, ctx = self.it, self.ctx
        self.assume_names()
        t = ctx.fresh("lookup", CS)
        found = ctx.fresh("found", z3.BoolSort())
        nm = it.sterm(name)
        if not ctx.branch(found):
            ctx.forall_t(("Cluster",), lambda c: z3.Implies(self.isC(c), self.cg("name", c) != nm), "lookup-none")
            return None
        ctx.assume(z3.And(self.isC(t), self.cg("name", t) == nm))
        ctx.know("Cluster", t)
        self.looked_up = SRef(self.CC, t)
        return self.looked_up

    # -------------------------------------------------------------- the backend
    def backend(self, **attrs):
        v, it = self.v, self.it
        q = Obj(Fake("WorkQueue"), {
            "put": Native("queue.put", lambda it, a, k: self._put(a[0])),
            "put_backoff": Native("queue.put_backoff", lambda it, a, k: self._put(a[0], "put_backoff")),
            "reset_backoff": Native("queue.reset_backoff", lambda it, a, k: self.ctx.event("reset_backoff", a[0])),
        })
        proxy = Obj(Fake("Proxy"), {
            "add_route": v.afn(lambda it, a, k: self.ctx.event("add_route", k.get("kind"), k.get("path", k.get("sni")), k.get("target"))),
            "remove_route": v.afn(lambda it, a, k: self.ctx.event("remove_route", k.get("kind"), k.get("path", k.get("sni")))),
        })
        self.db = Obj(it.get_class(DB + ".DataManager"), {"name_to_cluster": self._index()})
        a = dict(
            queue=q, proxy=proxy, db=self.db, log=noop_log(), supports_bulk_shutdown=SBool(self.bulk),
            cluster_start_timeout=v.real("cluster_start_timeout"), worker_start_timeout=v.real("worker_start_timeout"),
            cluster_heartbeat_timeout=v.real("cluster_heartbeat_timeout"), worker_start_failure_limit=v.int("worker_start_failure_limit"),
            cluster_status_period=v.real("cluster_status_period"), worker_status_period=v.real("worker_status_period"),
            check_timeouts_period=v.real("check_timeouts_period"), db_cleanup_period=v.real("db_cleanup_period"), db_cluster_max_age=v.real("db_cluster_max_age"),
            do_start_cluster=Native("do_start_cluster", lambda it, a, k: self._start(a[0], "cluster")),
            do_start_worker=Native("do_start_worker", lambda it, a, k: self._start(a[0], "worker")),
            do_stop_cluster=v.afn(lambda it, a, k: self._hook("do_stop_cluster", a[0])),
            do_stop_worker=v.afn(lambda it, a, k: self._hook("do_stop_worker", a[0])),
        )
        a.update(attrs)
        self.b = Obj(it.get_class(DB + ".DBBackendBase"), a)
        return self.b

    def _put(self, o, kind="put"):
        o = self.it.resolve(o)
        if isinstance(o, Obj):
            self.ctx.event(kind, o)
            return
        if not any(o.t.eq(w) for w in self.created):
            self.ghost(o, "g_queued", True)
        self.ctx.event(kind, o)

    def _hook(self, name, o):
        """Backend-specific stop hook: suspends, then succeeds or fails."""
        self.ctx.event(name, o)
        self.suspend(name)
        r = self.v.choose("ok", "error", "cancelled")
        self.ctx.event(name + "-done", o, r)
        if r == "error":
            self.it.raise_(RuntimeError, "hook failed")
        if r == "cancelled":
            self.it.raise_(asyncio.CancelledError)
        return None

    def _start(self, o, kind):
        """Backend-specific start hook: an async generator yielding any number
        of states, suspending between them, that may fail or time out at any
        point."""
        it, v = self.it, self.v

        def loop(it, a, k):
            node, env = a
            self.ctx.event(f"do_start_{kind}", o)
            tos = self.ctx.state.get("timeouts", [])
            want = self.b.attrs[f"{kind}_start_timeout"]
            self.prove(f"{kind}-start-is-bounded-by-its-timeout", z3.Or([self.v.eq(t, want) for t in tos] or [z3.BoolVal(False)]))
            self.suspend("start")
            for r in (0, 1):
                res = v.choose("end", "error", "timeout", "cancelled", *(["iterate"] if r == 0 else []))
                if res != "iterate":
                    break
                st = SOpaque("state", self.ctx.fresh("yielded", ref_sort("Val")))
                self.it.assign(node.target, st, env)
                n0 = len(self.ctx.events)
                self.it.ex_block(node.body, env)
                for e in self.ctx.events[n0:]:
                    if e[0] != "db":
                        it.unsupported("start loop does more than record the state")
                self.prove(f"{kind}-start-state-is-recorded", (self.cf if kind == "cluster" else self.wf)["state"].comps(o.t)[0] == st.t)
                # any number of further iterations
                self.suspend("start")
                (self.cf if kind == "cluster" else self.wf)["state"].write_comps((o.t,), [self.ctx.fresh("laststate", ref_sort("Val"))])
            self.ctx.event("start-outcome", res)
            if res == "error":
                it.raise_(RuntimeError, "start failed")
            if res == "timeout":
                it.raise_(TimeoutError)
            if res == "cancelled":
                it.raise_(asyncio.CancelledError)

        return Obj(Fake("agen"), {"__aloop__": Native("agen", loop)})

    # ----------------------------------------------------------- interference
    def suspend(self, why):
        """Everything other tasks may do while this one is suspended."""
        if self.ctx.sub:
            self.it.unsupported("suspension inside a generic iteration")
        if self.created or any(e[0] == "each" and self._has_create(e[1]) for e in self.ctx.events):
            self.it.unsupported("suspension after creating workers")
        self.check_step()
        ocf, owf = {}, {}
        fixed_c = ("id", "name", "username", "token", "tls_cert", "tls_key", "options", "start_time", "g_maxw")
        fixed_w = ("id", "name", "cluster", "start_time")
        for n, s in self.cf.items():
            ocf[n] = s.snapshot() if n in fixed_c else s.havoc()
        for n, s in self.wf.items():
            owf[n] = s.snapshot() if n in fixed_w else s.havoc()
        ncf, nwf = self.snap()
        self.busy_gen += 1
        pc, pw = self.processing_c, self.processing_w
        conj = lambda d: z3.And(list(d.values()))
        self.ctx.forall_t(("Cluster",), lambda c: conj(self.rely_c(c, ocf, ncf, pc)), "rely-c")
        self.ctx.forall_t(("Worker",), lambda w: conj(self.rely_w(w, owf, nwf, ocf, ncf, pc, pw)), "rely-w")
        self.assume_inv("inv@" + why)
        self.sync = self.snap()
        if self.ctx.check() == z3.unsat:
            raise Infeasible

    def _has_create(self, p):
        return self.kind_of(p) == "create_worker"

    def rely_c(self, c, o, n, pc):
        """What a step of one task may do to cluster c while a task processing
        cluster pc (or none) is suspended."""
        so, sn = self.cg("status", c, o), self.cg("status", c, n)
        to, tn = self.cg("target", c, o), self.cg("target", c, n)
        io, in_ = self.isC(c, o), self.isC(c, n)
        both = z3.And(io, in_)
        k = {
            "only-finished-clusters-are-forgotten": z3.Implies(z3.And(io, so < STOPPED), in_),
            "cluster-status-never-goes-back": z3.Implies(both, z3.And(sn >= so, z3.Implies(so >= STOPPED, sn == so))),
            "stop-request-is-never-undone": z3.Implies(z3.And(both, to >= STOPPED), tn >= STOPPED),
            "ready-stays-set": z3.Implies(both, z3.And(z3.Implies(self.cg("g_ready", c, o), self.cg("g_ready", c, n)), z3.Implies(self.cg("g_shutdown", c, o), self.cg("g_shutdown", c, n)))),
            "heartbeat-stays-set": z3.Implies(z3.And(both, z3.Not(self.cg("last_heartbeat", c, o))), z3.Not(self.cg("last_heartbeat", c, n))),
        }
        if pc is not None:
            same = [sn == so, in_]
            for f in ("stop_time", "state", "added_to_proxies"):
                same += [a == b for a, b in zip(o[f].comps(c), n[f].comps(c))]
            k["only-the-reconciler-touches-it"] = z3.Implies(z3.And(io, c == pc), z3.And(same))
            # nobody else takes it off the queue; changes of target come with a put
            k["changed-target-is-queued"] = z3.Implies(z3.And(both, c == pc), z3.And(z3.Implies(self.cg("g_queued", c, o), self.cg("g_queued", c, n)), z3.Implies(tn != to, self.cg("g_queued", c, n))))
        return k

    def rely_w(self, w, o, n, oc, nc, pc, pw):
        so, sn = self.wg("status", w, o), self.wg("status", w, n)
        to, tn = self.wg("target", w, o), self.wg("target", w, n)
        io, in_ = self.isW(w, o), self.isW(w, n)
        both = z3.And(io, in_)
        c = self.wg("cluster", w, n)
        cst = self.cg("status", c, nc)
        k = {
            "only-finished-clusters-are-forgotten": z3.Implies(z3.And(io, self.isC(c, nc)), in_),
            "worker-status-never-goes-back": z3.Implies(both, z3.And(sn >= so, z3.Implies(so >= STOPPED, sn == so))),
            "worker-stop-request-is-never-undone": z3.Implies(both, z3.And(z3.Implies(to >= STOPPED, tn >= STOPPED), z3.Implies(to >= CLOSING, tn >= CLOSING))),
            "close-announcement-is-kept": z3.Implies(z3.And(both, self.wg("close_expected", w, o)), self.wg("close_expected", w, n)),
        }
        if pw is not None:
            # only the reconciler holding it, or its finished cluster, moves a
            # worker past RUNNING
            k["worker-only-moved-by-its-reconciler"] = z3.Implies(z3.And(both, w == pw), z3.And(
                z3.Or(sn <= RUNNING, sn == so, z3.And(cst >= STOPPED, sn == STOPPED, so >= CLOSING)),
                *[a == b for a, b in zip(o["state"].comps(w), n["state"].comps(w))],
            ))
            k["changed-target-is-queued"] = z3.Implies(z3.And(both, w == pw), z3.And(
                z3.Implies(self.wg("g_queued", w, o), self.wg("g_queued", w, n)),
                z3.Implies(z3.And(tn != to, sn < STOPPED), self.wg("g_queued", w, n)),
            ))
        if pc is not None:
            # only the reconciler of a cluster creates workers for it
            k["told-to-stop-starts-no-worker"] = z3.Implies(z3.And(c == pc, in_), io)
        return k

    def _check_guarantee(self):
        """What we did since the last suspension is what others rely on."""
        ctx = self.ctx
        if not any(self.owned(n) for n in GUARANTEES):
            return
        ocf, owf = self.sync
        c, w = ctx.fresh("gc", CS), ctx.fresh("gw", WS)
        qc, qw = ctx.fresh("otherc", CS), ctx.fresh("otherw", WS)
        if self.processing_c is not None:
            ctx.assume(qc != self.processing_c)
        if self.processing_w is not None:
            ctx.assume(qw != self.processing_w)
        for x in (c, qc):
            ctx.know("Cluster", x)
        for x in (w, qw):
            ctx.know("Worker", x)
        for x in (w, qw):
            ctx.know("Cluster", self.wg("cluster", x))
        ncf, nwf = self.snap()
        for d in (self.rely_c(c, ocf, ncf, qc), self.rely_w(w, owf, nwf, ocf, ncf, qc, qw)):
            for n, f in d.items():
                self.prove(n, f)

    # ------------------------------------------------------------- obligations
    def check_step(self):
        self.check_inv()
        self.check_guarantee()
        self.check_progress()

    def scoped(self, fn):
        """Runs fn; the witnesses it introduces are forgotten afterwards."""
        ctx = self.ctx
        m = ctx.mark()
        ctx.solver.push()
        try:
            fn()
        finally:
            ctx.solver.pop()
            ctx.undo_to(m)

    def check_inv(self):
        if not self.ctx.replaying():
            self.scoped(self._check_inv)

    def check_guarantee(self):
        if not self.ctx.replaying():
            self.scoped(self._check_guarantee)

    def check_progress(self):
        if not self.ctx.replaying():
            self.scoped(self._check_progress)

    def _check_inv(self):
        """The invariant holds of every object (skolem witnesses)."""
        ctx = self.ctx
        c = ctx.fresh("anyc", CS)
        w = ctx.fresh("anyw", WS)
        ctx.know("Cluster", c)
        ctx.know("Worker", w)
        ctx.know("Cluster", self.wg("cluster", w))
        for n, f in self.inv_c(c).items():
            self.prove(f"inv-{n}", z3.Implies(self.isC(c), f))
        for n, f in self.inv_w(w).items():
            self.prove(f"inv-{n}", z3.Implies(self.isW(w), f))

    def check_created(self):
        """Every created worker is put in the queue."""
        v, ctx = self.v, self.ctx
        if not self.owned("created-workers-are-queued"):
            return
        for p in v.event_parts("create_worker"):
            xs = [ctx.fresh(f"cr_{s}", generic.sort_of(s)) for s in p.sorts]
            e = p.val(*xs)
            puts = []
            for q in v.event_parts("put"):
                if q.sorts == p.sorts:
                    pe = q.val(*xs)
                    if isinstance(pe[1], SRef) and pe[1].t.sort() == e[2].t.sort():
                        puts.append(z3.And(q.guard(*xs), pe[1].t == e[2].t))
            self.prove("created-workers-are-queued", z3.Implies(p.guard(*xs), z3.Or(puts or [z3.BoolVal(False)])))

    def _check_progress(self):
        """Everything with something left to do is queued, held by a
        reconciler, or a closing cluster waiting for a worker that is."""
        v, ctx = self.v, self.ctx
        self.check_created()
        if not self.owned("no-worker-is-forgotten"):
            return
        w = ctx.fresh("anyw", WS)
        ctx.know("Worker", w)
        held = [w == self.processing_w] if self.processing_w is not None and self.holding else []
        self.prove("no-worker-is-forgotten", z3.Implies(self.todo_w(w), z3.Or([self.wg("g_queued", w), self.busy("w", w)] + held)))
        c = ctx.fresh("anyc", CS)
        ctx.know("Cluster", c)
        m = ctx.mark()
        ctx.solver.push()
        try:
            ctx.assume(z3.And(self.todo_c(c), z3.Not(self.cg("g_queued", c)), z3.Not(self.busy("c", c))))
            if self.processing_c is not None and self.holding:
                ctx.assume(c != self.processing_c)
            scf, swf = self.snap()
            ctx.forall(("Worker",), lambda w: z3.Not(self.below(c, w, scf, swf)), "nobody-to-wait-for")
            self.prove("no-cluster-is-forgotten", z3.BoolVal(False))
        except Infeasible:
            self.prove("no-cluster-is-forgotten", z3.BoolVal(True))
        finally:
            ctx.solver.pop()
            ctx.undo_to(m)

    holding = True

    def finish(self, out):
        """End of the step of a reconciler (or of another function): what it
        held is released unless an exception will put it back."""
        self.check_inv()
        self.check_guarantee()
        if out.kind == "return":
            self.holding = False
        self.check_progress()


def it_read(it, o, n):
    return it.read_field(o, n)


import ast as _ast

from pyvc.interp import Env

NAME_X = _ast.Name(id="x", ctx=_ast.Store(), lineno=0, col_offset=0)
