"""C17: worker pods follow the requested replicas (Kubernetes controller)."""
import asyncio

import z3

from pyvc import generic
from pyvc.libs import noop_log
from pyvc.verify import *
from . import k8s
from .c25 import at, same
from .loops import StopBody, WhileInv, run

M = "dask_gateway_server.backends.kubernetes.controller."
KC, CI = M + "KubeController", M + "ClusterInfo"
STR = z3.StringSort()
KINDS = ("pending", "running", "succeeded", "failed")
B = lambda r: z3.BoolVal(r) if isinstance(r, bool) else (r.t if isinstance(r, SBool) else r)
A_INV = ["between events a cluster's pod records satisfy their invariant, which every ClusterInfo method under contract keeps"]
A_FOREIGN = ["worker pods are created and deleted by the controller, or end or vanish on their own; nobody else creates pods labelled as a cluster's workers"]


class Info:
    """What is known of a cluster's worker pods: any number of them."""

    def __init__(self, v):
        self.v, self.it, self.ctx = v, v.it, v.ctx
        it = v.it
        self.f = {n: z3.Function("is_" + n, STR, z3.BoolSort()) for n in KINDS}
        self.all = z3.Function("is_known", STR, z3.BoolSort())
        S = lambda f: VSet([Part(("Str",), lambda x: f(x), lambda x: SStr(x))])
        self.creates, self.deletes = v.int("creates"), v.int("deletes")
        self.stamp, self.now = v.real("stamp"), v.real("now")
        v.assume(self.now.t >= self.stamp.t)
        it.lib["time.monotonic"] = lambda it2, a, k: self.now
        self.o = v.obj(CI, all_pods=S(self.all), creates=self.creates, deletes=self.deletes, timestamp=self.stamp, **{n: S(f) for n, f in self.f.items()})
        self.ctx.forall(("Str",), self.inv, "pod records")

    def inv(self, x):
        """Of each pod, at first: known iff it is in one of the sets, in one only."""
        f = self.f
        one = [z3.Not(z3.And(f[a](x), f[b](x))) for i, a in enumerate(KINDS) for b in KINDS[i + 1 :]]
        return z3.And(self.all(x) == z3.Or([f[n](x) for n in KINDS]), *one)

    def mem(self, n, x):
        return B(self.it.contains(self.it.resolve(self.o.attrs[n]), SStr(x)))

    def attr(self, n):
        return self.it.resolve(self.o.attrs[n])

    def num(self, n):
        return self.it._nt(self.it.num_or_none(self.attr(n)), False)

    def trigger(self):
        return z3.Or(z3.And(self.creates.t <= 0, self.deletes.t <= 0), self.now.t - self.stamp.t > 600)

    def check(self, pod, kind):
        """The record has become kind (None: forgotten; "same": unchanged)."""
        v, ctx = self.v, self.ctx
        x = z3.String("any_pod")
        ctx.know("Str", x)
        ctx.know("Str", pod)
        before = lambda n: self.f[n](x) if n in self.f else self.all(x)
        for n in KINDS + ("all_pods",):
            v.prove("other-pods-are-unaffected", z3.Implies(x != pod, self.mem(n, x) == before(n)))
            if kind == "same":
                v.prove("each-pod-is-counted-as-what-it-is", z3.Implies(x == pod, self.mem(n, x) == before(n)))
            else:
                want = z3.BoolVal(kind is not None and n in (kind, "all_pods"))
                v.prove("each-pod-is-counted-as-what-it-is", z3.Implies(x == pod, self.mem(n, x) == want))
        seen = z3.If(z3.And(z3.Not(self.all(pod)), z3.BoolVal(kind in KINDS)), 1, 0)
        gone = z3.If(z3.And(self.all(pod), z3.BoolVal(kind is None)), 1, 0)
        v.prove("each-creation-is-seen-once", self.num("creates") == self.creates.t - seen)
        v.prove("each-deletion-is-seen-once", self.num("deletes") == self.deletes.t - gone)


def moves(v, kind):
    s = Info(v)
    p = v.str("pod")
    v.ctx.know("Str", p.t)
    v.case(lambda ev: {"kind": "podinfo"})
    out = v.run(CI + (".on_worker_" + (kind or "deleted")), s.o, p)
    if not v.ok_or(out, "recorded"):
        return
    if kind == "failed":
        v.prove("a-new-failure-is-reported", B(v.truth(out.val)) == z3.Not(s.f[kind](p.t)))
    s.check(p.t, kind)


for _k in KINDS + (None,):
    contract("C17", CI + ".on_worker_" + (_k or "deleted"), "pod_" + (_k or "deleted"), assumes=A_INV)(lambda v, k=_k: moves(v, k))


@contract("C17", CI + ".set_expectations", "expectations")
def expectations(v):
    it = v.it
    s = Info(v)
    c, d = v.int("n_creates", 0), v.int("n_deletes", 0)
    v.case(lambda ev: {"kind": "podinfo"})
    which = v.choose("none", "creates", "deletes", "both")
    kw = {k: x for k, x in (("creates", c), ("deletes", d)) if which in (k, "both")}
    out = v.attempt(lambda: it.call(it.getattr(s.o, "set_expectations"), [], kw))
    if not v.ok_or(out, "expected"):
        return
    v.prove("waits-for-what-was-requested", s.num("creates") == (c.t if "creates" in kw else 0))
    v.prove("waits-for-what-was-requested", s.num("deletes") == (d.t if "deletes" in kw else 0))
    later = v.real("later")
    v.assume(later.t >= s.now.t)
    t0 = s.now.t
    it.lib["time.monotonic"] = lambda it2, a, k: later
    out = v.attempt(lambda: it.call(it.getattr(s.o, "should_trigger"), []))
    if v.ok_or(out, "expected"):
        done = z3.And(s.num("creates") <= 0, s.num("deletes") <= 0)
        v.prove("waits-until-seen-or-ten-minutes", B(v.truth(out.val)) == z3.Or(done, later.t - t0 > 600))
    x = z3.String("any_pod")
    v.ctx.know("Str", x)
    for n in KINDS:
        v.prove("pods-are-unaffected", s.mem(n, x) == s.f[n](x))


@contract("C17", CI + ".__init__", "new_info")
def new_info(v):
    it = v.it
    now = v.real("now")
    it.lib["time.monotonic"] = lambda it2, a, k: now
    v.case(lambda ev: {"kind": "podinfo"})
    o = v.attempt(lambda: it.call(v.cls(CI), []))
    if not v.ok_or(o, "recorded"):
        return
    a = it.resolve(o.val).attrs
    v.prove("nothing-known-at-first", z3.BoolVal(all(isinstance(it.resolve(a[n]), VSet) and not it.resolve(a[n]).items for n in KINDS + ("all_pods",))))
    v.prove("nothing-known-at-first", z3.BoolVal(len({id(it.resolve(a[n])) for n in KINDS + ("all_pods",)}) == 5))
    r = v.attempt(lambda: it.call(it.getattr(o.val, "should_trigger"), []))
    v.prove("nothing-is-waited-for-at-first", B(v.truth(r.val)) if r.ok else z3.BoolVal(False))


# ------------------------------------------------------------------ events
@contract("C17", M + "get_container_status", "container_status")
def container_status(v):
    """Over any number of containers."""
    it, ctx = v.it, v.ctx
    n = v.int("n_containers", 0)
    nm = z3.Function("container_name", z3.IntSort(), STR)
    CS = ref_sort("ContainerStatus")
    st = z3.Function("container_status", z3.IntSort(), CS)
    of = z3.Function("name_of", CS, STR)
    it.attr_hooks["getitem:ContainerStatus"] = lambda it2, o, k: SStr(of(o.t)) if k == "name" else it.unsupported("field of a container status")
    has = v.choose("listed", "absent")
    status = v.pydict({})
    cls = Fake("ContainerStatus")
    if has == "listed":
        status = v.pydict({"containerStatuses": VList([SSeq(n.t, lambda i: SRef(cls, st(i)))])})
    name = v.str("name")
    v.case(lambda ev: {"kind": "podinfo"})
    out = v.run(M + "get_container_status", v.pydict({"status": status}), name)
    if not v.ok_or(out, "looked-up"):
        return
    r = it.resolve(out.val)
    i = z3.Int("any_index")
    ctx.know("Int", i)
    inside = z3.And(i >= 0, i < n.t, z3.BoolVal(has == "listed"))
    if r is None:
        v.prove("finds-the-named-container", z3.Implies(inside, of(st(i)) != name.t))
    else:
        v.prove("finds-the-named-container", of(r.t) == name.t)


class Ctl:
    """The controller, its queue and one cluster's pods."""

    def __init__(self, v):
        self.v, self.it, self.ctx = v, v.it, v.ctx
        it = v.it
        self.info = Info(v)
        self.ns, self.cname = v.str("namespace"), v.str("cluster_name")
        self.key = z3.Concat(self.ns.t, z3.StringVal("."), self.cname.t)
        self.stopping = z3.Function("is_stopped", STR, z3.BoolSort())
        self.puts = []
        stopped = VDict()
        stopped.parts = [Part(("Str",), lambda x: self.stopping(x), lambda x: (SStr(x), v.real("stop_time")))]
        self.ctx.know("Str", self.key)

        def info(it2, a, k):
            v.prove("only-its-own-cluster", it.sterm(it.resolve(a[0])) == self.key)
            return self.info.o

        queue = v.fake("WorkQueue", put=v.native(lambda it2, a, k: self.ctx.mut_append(self.puts, it.sterm(it.resolve(a[0])))))
        self.o = v.obj(KC, cluster_info=v.fake("cluster_info", __getitem__=v.native(info)), queue=queue, stopped_clusters=stopped, log=noop_log())

    def labels(self, component):
        """(labels, whether the cluster can be told from the object)"""
        v = self.v
        d = {"app.kubernetes.io/component": component}
        have = v.choose("labelled", "unlabelled", "bare")
        if have == "labelled":
            d["gateway.dask.org/cluster"] = self.cname
        meta = {"namespace": self.ns, "name": v.str("pod")}
        if have != "bare":
            meta["labels"] = v.pydict(d)
        return v.pydict(meta), have == "labelled"

    def queued(self):
        return z3.BoolVal(bool(self.puts))

    def own(self):
        for t in self.puts:
            self.v.prove("only-its-own-cluster", t == self.key)


@contract("C17", KC + ".on_pod_update", "pod_event", assumes=A_INV)
def pod_event(v):
    it, ctx = v.it, v.ctx
    s = Ctl(v)
    f = s.info
    pod = z3.String("pod")
    ctx.know("Str", pod)
    meta, mine = s.labels("dask-worker")
    phase = v.choose("Pending", "Running", "Succeeded", "Failed", "Unknown", None)
    status = {} if phase is None else {"phase": phase}
    state = None
    exit_code = v.int("exit_code")
    if mine:
        have = v.choose("worker", "worker-and-others", "others", "none", "absent")
        if have in ("worker", "worker-and-others"):
            state = v.choose("running", "waiting", "terminated")
        w = v.pydict({"name": "dask-worker", "state": v.pydict({state or "waiting": v.pydict({"exitCode": exit_code} if state == "terminated" else {})})})
        other = v.pydict({"name": "sidecar", "state": v.pydict({"running": v.pydict({})})})
        if have != "absent":
            status["containerStatuses"] = VList({"worker": [w], "worker-and-others": [other, w], "others": [other], "none": []}[have])
    o = v.pydict({"metadata": meta, "status": v.pydict(status)})
    v.case(lambda ev: {"kind": "podinfo"})
    out = v.run(KC + ".on_pod_update", s.o, o, None)
    if not v.ok_or(out, "handled"):
        return
    s.own()
    known = ctx.branch(f.all(pod))
    if not mine or phase in ("Unknown", None):
        want = "same"
    elif phase != "Running":
        want = phase.lower()
    elif state is None:
        want = "same"
    elif state == "running":
        want = "running"
    elif state == "terminated" and ctx.branch(exit_code.t == 0):
        want = "succeeded"
    else:
        want = "same" if known else "pending"
    f.check(pod, want)
    if not mine:
        v.prove("only-its-own-cluster", z3.Not(s.queued()))
    elif want != "same":
        new = z3.And(z3.BoolVal(want == "failed"), z3.Not(f.f["failed"](pod)))
        left = z3.And(f.num("creates") <= 0, f.num("deletes") <= 0)
        wake = z3.Or(new, left, f.now.t - f.stamp.t > 600)
        v.prove("a-failure-or-the-last-awaited-pod-wakes-the-cluster", z3.Implies(z3.And(wake, z3.Not(s.stopping(s.key))), s.queued()))


@contract("C17", KC + ".on_pod_delete", "pod_gone", assumes=A_INV)
def pod_gone(v):
    it, ctx = v.it, v.ctx
    s = Ctl(v)
    f = s.info
    pod = z3.String("pod")
    ctx.know("Str", pod)
    meta, mine = s.labels("dask-worker")
    o = v.pydict({"metadata": meta, "status": v.pydict({"phase": "Running"})})
    v.case(lambda ev: {"kind": "podinfo"})
    out = v.run(KC + ".on_pod_delete", s.o, o)
    if not v.ok_or(out, "handled"):
        return
    s.own()
    f.check(pod, None if mine else "same")
    if mine:
        left = z3.And(f.num("creates") <= 0, f.num("deletes") <= 0)
        v.prove("a-failure-or-the-last-awaited-pod-wakes-the-cluster", z3.Implies(z3.And(z3.Or(left, f.now.t - f.stamp.t > 600), z3.Not(s.stopping(s.key))), s.queued()))


# ---------------------------------------------------------------- requests
class Api:
    """One request to the API server: accepted, refused, failing, cancelled;
    meanwhile pod events go on."""

    def __init__(self, v, info, method, want):
        self.v, self.it, self.ctx = v, v.it, v.ctx
        it, ctx = v.it, v.ctx
        self.calls = 0
        self.outcome = None
        self.error = None
        self.result = v.fake("Pod", metadata=v.fake("Meta", name=v.str("new_pod")))

        def api(it2, a, k):
            ctx.mut_attr(self, "calls", self.calls + 1)
            if k or len(a) != len(want) or not all(x is y or z3.is_true(z3.simplify(B(v.eq(x, y)))) for x, y in zip(a, want)):
                v.prove("requests-exactly-this-pod", z3.BoolVal(False))
            if info is not None:
                ctx.mut_dict(info.o.attrs, "creates", SInt(ctx.fresh("creates_then", z3.IntSort())))
                ctx.mut_dict(info.o.attrs, "deletes", SInt(ctx.fresh("deletes_then", z3.IntSort())))
                self.then = (info.num("creates"), info.num("deletes"))
            o = v.choose("ok", "refused", "error", "cancelled")
            ctx.mut_attr(self, "outcome", o)
            if o == "ok":
                return self.result
            if o == "cancelled":
                it.raise_(asyncio.CancelledError)
            if o == "error":
                e = PyRaise(it.make_exc(OSError, "no connection"))
            else:
                self.status = v.int("http_status")
                e = k8s.api_error(it, self.status)
                e.val.attrs["body"] = v.choose(SStr(z3.String("body")), None)
            ctx.mut_attr(self, "error", e.val)
            raise e

        self.client = v.fake("CoreV1Api", **{method: v.afn(api)})
        k8s.setup(it)

        def loads(it2, a, k):
            x = it.resolve(a[0])
            if x is None:
                it.raise_(TypeError, "the JSON object must be str")
            w = v.choose("message", "no message", "not an object", "not JSON")
            if w == "not JSON":
                it.raise_(ValueError, "Expecting value")
            return VList([]) if w == "not an object" else v.pydict({"message": v.str("message")} if w == "message" else {})

        it.lib["json.loads"] = loads


@contract("C17", KC + ".create_pod", "create_pod")
def create_pod(v):
    it = v.it
    k8s.setup(it)
    with_info = v.choose("counted", "plain")
    f = Info(v) if with_info == "counted" else None
    ns, pod = v.str("namespace"), v.pydict({"kind": "Pod"})
    api = Api(v, f, "create_namespaced_pod", [ns, pod])
    o = v.obj(KC, core_client=api.client, log=noop_log())
    v.case(lambda ev: {"kind": "requests"})
    out = v.run(KC + ".create_pod", o, ns, pod, *([f.o] if f else []))
    v.prove("one-request", z3.BoolVal(api.calls == 1))
    if api.outcome == "ok":
        v.prove("an-accepted-creation-is-waited-for", z3.BoolVal(out.ok))
    elif api.outcome == "cancelled":
        v.prove("cancellation-is-not-an-error", z3.BoolVal(out.exc_name() == "CancelledError"))
    else:
        v.prove("a-failed-creation-is-reported", z3.BoolVal(not out.ok and it.resolve(out.val) is api.error))
    if f is not None and api.outcome != "cancelled":
        c, d = api.then
        v.prove("a-failed-request-is-not-waited-for", f.num("creates") == c - (0 if api.outcome == "ok" else 1))
        v.prove("a-failed-request-is-not-waited-for", f.num("deletes") == d)


@contract("C17", KC + ".delete_pod", "delete_pod")
def delete_pod(v):
    it = v.it
    k8s.setup(it)
    with_info = v.choose("counted", "plain")
    f = Info(v) if with_info == "counted" else None
    ns, pod = v.str("namespace"), v.str("pod")
    api = Api(v, f, "delete_namespaced_pod", [pod, ns])
    o = v.obj(KC, core_client=api.client, log=noop_log())
    v.case(lambda ev: {"kind": "requests"})
    out = v.run(KC + ".delete_pod", o, ns, pod, *([f.o] if f else []))
    v.prove("one-request", z3.BoolVal(api.calls == 1))
    if api.outcome == "ok":
        v.prove("an-accepted-deletion-is-waited-for", z3.BoolVal(out.ok))
    elif api.outcome == "cancelled":
        v.prove("cancellation-is-not-an-error", z3.BoolVal(out.exc_name() == "CancelledError"))
    elif api.outcome == "refused":
        v.prove("a-pod-already-gone-is-no-error", B(api.status.t == 404) == z3.BoolVal(out.ok))
    else:
        v.prove("a-failed-deletion-is-reported", z3.BoolVal(not out.ok))
    if f is not None and api.outcome != "cancelled":
        c, d = api.then
        v.prove("a-failed-request-is-not-waited-for", f.num("deletes") == d - (0 if api.outcome == "ok" else 1))
        v.prove("a-failed-request-is-not-waited-for", f.num("creates") == c)


class Gather:
    """asyncio.gather(..., return_exceptions=True) of requests: each succeeds
    or fails on its own."""

    def __init__(self, v, on=None):
        self.v, self.it, self.ctx = v, v.it, v.ctx
        self.on = on
        self.calls = []
        v.it.lib["asyncio.gather"] = lambda it2, a, k: Coro(lambda: self.run(list(a), k), "gather")

    def run(self, items, k):
        v, it, ctx = self.v, self.it, self.ctx
        keep = it.resolve(k.get("return_exceptions", False))
        v.prove("one-failure-does-not-hide-the-others", z3.BoolVal(keep is True))
        n = length(it, items)
        bad = ctx.fresh("n_failed", z3.IntSort())
        v.assume(z3.And(bad >= 0, bad <= n))
        ctx.mut_append(self.calls, (items, n, bad))
        if self.on:
            self.on(items, n, bad)
        i = ctx.fresh_fn("failed_at", z3.IntSort(), z3.BoolSort())
        w = ctx.fresh("a_failure", z3.IntSort())
        ctx.assume(z3.Implies(bad >= 1, z3.And(w >= 0, w < n, i(w))))
        ctx.know("Int", w)
        ctx.forall(("Int",), lambda x: z3.Implies(z3.And(x >= 0, x < n, i(x)), bad >= 1), "failures")
        rng = lambda x: z3.And(x >= 0, x < n)
        err, ok = it.make_exc(OSError, "request failed"), VDict()
        return VList([Part(("Int",), lambda x: z3.And(rng(x), i(x)), lambda x: err), Part(("Int",), lambda x: z3.And(rng(x), z3.Not(i(x))), lambda x: ok)])


def length(it, items):
    from pyvc.models import seq_len_term

    return seq_len_term(it, VList(items))


@contract("C17", KC + ".batch_create_pods", "batches", assumes=["create_pod makes one request, and gives up one expected creation if it fails (under contract)"])
def batches(v):
    it, ctx = v.it, v.ctx
    f = Info(v)
    ns, pod = v.str("namespace"), v.pydict({"kind": "Pod"})
    count = v.int("count", 0)
    c0 = f.num("creates")
    g = {"sent": z3.IntVal(0), "failed": z3.IntVal(0), "seen": z3.IntVal(0)}
    tok = v.opaque("request", "Request")

    def create(it2, a, k):
        a = [it.resolve(x) for x in a] + [it.resolve(k[x]) for x in ("namespace", "pod", "info") if x in k]
        ok = len(a) == 3 and a[1] is pod and a[2] is f.o
        v.prove("creates-this-pod-for-this-cluster", z3.And(z3.BoolVal(ok), B(v.eq(a[0], ns))) if ok else z3.BoolVal(False))
        return tok

    def on(items, n, bad):
        v.aux("each-batch-makes-progress", n >= 1)
        seen = ctx.fresh("seen_now", z3.IntSort())
        v.assume(z3.And(seen >= 0, seen <= g["sent"] + n - g["failed"] - bad - g["seen"]))
        new = {"sent": g["sent"] + n, "failed": g["failed"] + bad, "seen": g["seen"] + seen}
        ctx.mut_dict(f.o.attrs, "creates", SInt(f.num("creates") - bad - seen))
        for k_, x in new.items():
            ctx.mut_dict(g, k_, x)

    Gather(v, on)

    def inv(init, cur):
        t = lambda x: it._nt(it.num_or_none(x), False)
        out = {
            "none-has-failed-so-far": g["failed"] == 0,
            "sends-no-more-than-missing": z3.And(g["sent"] >= 0, g["sent"] <= count.t),
            "sees-only-what-was-sent": z3.And(g["seen"] >= 0, g["seen"] <= g["sent"]),
            "waits-for-what-was-sent": f.num("creates") == c0 - g["seen"],
        }
        for x, i0 in init.items():
            if it.num_or_none(i0) is None:
                continue
            if isinstance(i0, SInt) and i0.t.eq(count.t):
                out["counts-what-is-left"] = t(cur[x]) == count.t - g["sent"]
            elif isinstance(i0, int) and i0 == 0:
                out["counts-what-was-sent"] = t(cur[x]) == g["sent"]
            elif isinstance(i0, int):
                out["batches-do-not-shrink"] = t(cur[x]) >= i0
        return out

    def havoc():
        for k_ in g:
            ctx.mut_dict(g, k_, ctx.fresh("g_" + k_, z3.IntSort()))
        ctx.mut_dict(f.o.attrs, "creates", SInt(ctx.fresh("creates_then", z3.IntSort())))

    WhileInv(v, inv, havoc=havoc)
    o = v.obj(KC, log=noop_log(), create_pod=v.native(create))
    v.case(lambda ev: {"kind": "requests"})
    out = run(v, KC + ".batch_create_pods", o, f.o, ns, pod, count)
    if out is None or not v.ok_or(out, "failures-are-reported"):
        return
    failed = B(v.truth(out.val))
    v.prove("creates-exactly-the-missing-workers", z3.Implies(g["failed"] == 0, g["sent"] == count.t))
    v.prove("creates-exactly-the-missing-workers", g["sent"] <= count.t)
    v.prove("failures-are-reported", failed == (g["failed"] > 0))
    # what is still waited for: the requests accepted but not seen yet
    v.prove("waits-for-exactly-what-was-accepted", f.num("creates") == c0 - count.t + (g["sent"] - g["failed"] - g["seen"]))


# ----------------------------------------------------------------- scaling
class Scale:
    def __init__(self, v):
        self.v, self.it, self.ctx = v, v.it, v.ctx
        it, ctx = v.it, v.ctx
        self.f = Info(v)
        self.ns, self.name = v.str("namespace"), v.str("cluster_name")
        self.config = v.pydict({"image": "img"})
        self.cluster = v.pydict({"metadata": v.pydict({"namespace": self.ns, "name": self.name}), "spec": v.pydict({"config": self.config, "replicas": v.int("replicas", 0)})})
        self.sched = v.pydict({"metadata": v.pydict({"name": v.str("sched_name"), "uid": v.str("sched_uid")})})
        self.sets = {n: self.f.attr(n) for n in KINDS}

        def delete(it2, a, k):
            a = [it.resolve(x) for x in a]
            info = a[2] if len(a) > 2 else it.resolve(k.get("info"))
            ctx.event("delete", a[1], a[0], SInt(self.f.num("creates")), SInt(self.f.num("deletes")), info is self.f.o)
            return SOpaque("Request", z3.Const("request", v.opaque("request", "Request").t.sort()))

        self.delete = v.native(delete)
        self.gather = Gather(v)

    def deleted(self, x):
        """Whether the pod x is told to go."""
        return z3.Or([z3.BoolVal(False)] + [self.hit(p, x) for p in self.v.event_parts("delete")])

    def hit(self, p, x):
        from pyvc.models import part_member

        return part_member(self.it, Part(p.sorts, p.guard, lambda *xs: p.val(*xs)[1], None), SStr(x))

    def checks(self, creates):
        v, it, ctx, f = self.v, self.it, self.ctx, self.f
        x = z3.String("any_pod")
        ctx.know("Str", x)
        d = self.deleted(x)
        v.prove("stopped-workers-are-removed", z3.Implies(z3.Or(f.f["succeeded"](x), f.f["failed"](x)), d))
        v.prove("never-deletes-a-running-worker", z3.Implies(d, z3.Not(f.f["running"](x))))
        v.prove("deletes-only-its-own-pods", z3.Implies(d, f.all(x)))
        n = generic.count_union(it, Part(("Str",), lambda y: self.deleted(y), None), [Part(("Str",), lambda y, k=k: z3.And(self.deleted(y), f.f[k](y)), None) for k in KINDS])
        generic.equate_counts(it)
        for p in v.event_parts("delete"):
            xs = [ctx.fresh("d", generic.sort_of(y)) for y in p.sorts]
            for y, t in zip(p.sorts, xs):
                ctx.know(y, t)
            _, pod, ns, c, dl, info = p.val(*xs)
            g = p.guard(*xs)
            v.prove("deletes-in-its-own-namespace", z3.Implies(g, B(v.eq(ns, self.ns))))
            v.prove("deletions-are-waited-for", z3.Implies(g, z3.And(z3.BoolVal(info is True), it._nt(dl, False) == n if not isinstance(dl, SInt) else dl.t == n)))
            if creates is not None:
                v.prove("creations-are-waited-for", z3.Implies(g, c.t == creates))
        return x, d, n


@contract("C17", KC + ".handle_scale_up", "scale_up", assumes=A_INV + ["make_pod's result is under contract in C20/C25", "batch_create_pods and delete_pod under their contracts"])
def scale_up(v):
    it, ctx = v.it, v.ctx
    s = Scale(v)
    f = s.f
    delta = v.int("delta", 1)
    made, batches = [], []
    failed = v.bool("a_creation_failed")

    def make(it2, a, k):
        p = v.pydict({"metadata": v.pydict({"labels": v.pydict({})}), "spec": v.pydict({})})
        ctx.mut_append(made, (p, a, k))
        return p

    def batch(it2, a, k):
        a = [it.resolve(x) for x in a] + [it.resolve(k[n]) for n in ("info", "namespace", "pod", "count") if n in k]
        ctx.mut_append(batches, (a, f.num("creates"), f.num("deletes")))
        return failed

    o = v.obj(KC, log=noop_log(), make_pod=v.native(make), batch_create_pods=v.afn(batch), delete_pod=s.delete)
    it.overrides["dask_gateway_server.utils.FrozenAttrDict"] = lambda it2, a, k: v.fake("Config", of=a[0])
    v.case(lambda ev: {"kind": "pods"})
    out = v.run(KC + ".handle_scale_up", o, s.cluster, s.sched, f.o, v.int("replicas", 0), delta)
    if not v.ok_or(out, "failures-are-retried"):
        return
    ok = len(made) == 1 and len(batches) == 1
    v.prove("creates-exactly-the-missing-workers", z3.BoolVal(ok))
    x, d, n = s.checks(delta.t)
    v.prove("replaces-only-stopped-workers", z3.Implies(d, z3.Or(f.f["succeeded"](x), f.f["failed"](x))))
    if not ok:
        return
    (info, ns, pod, count), c, dl = batches[0]
    v.prove("creates-exactly-the-missing-workers", z3.And(z3.BoolVal(info is f.o and pod is made[0][0]), B(v.eq(count, delta)), B(v.eq(ns, s.ns))))
    v.prove("creations-are-waited-for", c == delta.t)
    v.prove("deletions-are-waited-for", dl == n)
    _, a, k = made[0]
    a = [it.resolve(y) for y in a]
    v.prove("creates-workers-of-its-own-cluster", z3.And(B(v.eq(a[0], s.ns)), B(v.eq(a[1], s.name)), z3.BoolVal((k.get("is_worker") if "is_worker" in k else a[3] if len(a) > 3 else None) is True and getattr(a[2], "attrs", {}).get("of") is s.config)))
    owners = at(it, pod, "metadata", "ownerReferences")
    own = isinstance(owners, VList) and len(owners.items) == 1
    v.prove("workers-belong-to-the-scheduler-pod", z3.BoolVal(own))
    if own:
        w = owners.items[0]
        for key, want in (("kind", "Pod"), ("apiVersion", "v1"), ("name", at(it, s.sched, "metadata", "name")), ("uid", at(it, s.sched, "metadata", "uid"))):
            v.prove("workers-belong-to-the-scheduler-pod", same(v, at(it, w, key), want))
    bad = z3.Or([b > 0 for _, _, b in s.gather.calls] + [z3.BoolVal(False)])
    v.prove("failures-are-retried", B(v.truth(out.val)) == z3.Or(failed.t, bad))


@contract("C17", KC + ".handle_scale_down", "scale_down", assumes=A_INV + ["delete_pod under its contract"])
def scale_down(v):
    it, ctx = v.it, v.ctx
    s = Scale(v)
    f = s.f
    delta = v.int("delta")
    v.assume(delta.t <= 0)
    o = v.obj(KC, log=noop_log(), delete_pod=s.delete)
    v.case(lambda ev: {"kind": "pods"})
    out = v.run(KC + ".handle_scale_down", o, s.cluster, s.sched, f.o, v.int("replicas", 0), delta)
    if not v.ok_or(out, "failures-are-retried"):
        return
    x, d, n = s.checks(None)
    pend = generic.count_part(it, Part(("Str",), lambda y: z3.And(s.deleted(y), f.f["pending"](y)), None))
    allp = generic.count_part(it, Part(("Str",), lambda y: f.f["pending"](y), None))
    generic.equate_counts(it)
    v.prove("deletes-no-more-than-the-excess", pend <= -delta.t)
    v.prove("deletes-the-excess-if-it-is-pending", z3.Or(pend == -delta.t, z3.And(pend == allp, allp <= -delta.t)))
    bad = z3.Or([b > 0 for _, _, b in s.gather.calls] + [z3.BoolVal(False)])
    v.prove("failures-are-retried", B(v.truth(out.val)) == bad)
    v.prove("creates-nothing", z3.Implies(n == 0, z3.Or(f.num("creates") == f.creates.t, f.num("creates") == 0)))


@contract("C17", KC + ".handle_running_cluster", "count_workers", assumes=A_INV)
def count_workers(v):
    """A running cluster with a running scheduler."""
    it, ctx = v.it, v.ctx
    f = Info(v)
    ns, name = v.str("namespace"), v.str("cluster_name")
    key = z3.Concat(ns.t, z3.StringVal("."), name.t)
    has = v.choose("replicas", "default")
    replicas = v.int("replicas", 0)
    spec = v.pydict({"replicas": replicas} if has == "replicas" else {})
    want = replicas.t if has == "replicas" else z3.IntVal(0)
    cluster = v.pydict({"metadata": v.pydict({"namespace": ns, "name": name}), "spec": spec, "status": v.pydict({"phase": "Running", "schedulerPod": v.str("sched_pod")})})
    sched = v.fake("SchedPod")
    it.overrides[M + "get_container_state"] = lambda it2, a, k: "running"
    v.assume(z3.Length(z3.String("sched_pod")) > 0)
    calls = []

    def scale(way):
        def fn(it2, a, k):
            ctx.mut_append(calls, (way, [it.resolve(x) for x in a]))
            return v.bool("again")

        return v.afn(fn)

    def info(it2, a, k):
        v.prove("only-its-own-cluster", it.sterm(it.resolve(a[0])) == key)
        return f.o

    o = v.obj(KC, log=noop_log(), cluster_info=v.fake("cluster_info", __getitem__=v.native(info)), informers=v.pydict({"pod": v.fake("Informer", get=v.native(lambda it2, a, k: sched))}), handle_scale_up=scale("up"), handle_scale_down=scale("down"))
    v.case(lambda ev: {"kind": "pods"})
    out = v.run(KC + ".handle_running_cluster", o, cluster)
    if not v.ok_or(out, "handled"):
        return
    if not calls:
        v.prove("acts-once-all-awaited-pods-were-seen", z3.Not(f.trigger()))
        v.prove("failures-are-retried", z3.Not(B(v.truth(it.resolve(out.val)[1]))))
        return
    v.prove("acts-once-all-awaited-pods-were-seen", f.trigger())
    live = generic.count_part(it, Part(("Str",), lambda x: z3.Or(f.f["running"](x), f.f["pending"](x)), None))
    r, p = (generic.count_part(it, Part(("Str",), lambda x, n=n: f.f[n](x), None)) for n in ("running", "pending"))
    generic.count_union(it, Part(("Str",), lambda x: z3.Or(f.f["running"](x), f.f["pending"](x)), None), [Part(("Str",), lambda x, n=n: f.f[n](x), None) for n in ("running", "pending")])
    generic.equate_counts(it)
    v.prove("scales-once", z3.BoolVal(len(calls) == 1))
    way, (c, sp, i, rep, delta) = calls[0]
    d = it._nt(it.num_or_none(delta), False)
    v.prove("creates-exactly-the-missing-workers", z3.And(d == want - live, z3.BoolVal(way == "up") == (want > live)))
    v.prove("scales-its-own-cluster", z3.BoolVal(c is cluster and sp is sched and i is f.o))
    v.prove("failures-are-retried", B(v.truth(it.resolve(out.val)[1])) == z3.Bool("again"))
