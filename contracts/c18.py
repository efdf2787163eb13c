"""C18: phases move forward, finished resources go (Kubernetes controller)."""
import asyncio

import z3

from pyvc.libs import noop_log
from pyvc.verify import *
from . import k8s
from .c17 import B, KC, M, Ctl, Gather, STR
from .c25 import MISS, at, same
from .loops import StopBody, WhileInv, run

FIELDS = ("credentials", "schedulerPod", "service", "ingressroute", "ingressroutetcp")
A_QUEUE = ["WorkQueue meets its contract (C12): one reconciliation per cluster at a time"]
A_NAMES = ["recorded names are never empty"]
A_GC = ["Kubernetes removes what belongs (ownerReferences) to a removed object: service, routes and worker pods belong to the scheduler pod"]
COMPLETION = "2024-01-01T00:00:00Z"


def ser(it, x):
    """A JSON-like value, as it is now."""
    x = it.resolve(x)
    if isinstance(x, VDict):
        return {k: ser(it, y) for k, y in x.d.values()}
    if isinstance(x, VList):
        return [ser(it, y) for y in x.items]
    return x


def put(v, d, key, x):
    from pyvc.vals import hk

    v.ctx.mut_dict(d.d, hk(key), (key, x))


class Cluster:
    """A cluster resource: its record holds any of the names."""

    def __init__(self, v, phase=None, fields=True, spec=None):
        self.v, self.it, self.ctx = v, v.it, v.ctx
        self.ns, self.name = v.str("namespace"), v.str("cluster_name")
        self.key = z3.Concat(self.ns.t, z3.StringVal("."), self.name.t)
        st = {}
        if phase:
            st["phase"] = phase
        for f in FIELDS if fields is True else fields:
            if v.choose("has " + f, "no " + f).startswith("has"):
                st[f] = v.str(f)
                v.assume(z3.Length(st[f].t) > 0)
        self.st = st
        self.status = v.pydict(dict(st))
        self.spec = v.pydict(spec or {})
        self.uid = v.str("cluster_uid")
        d = {"apiVersion": "gateway.dask.org/v1alpha1", "kind": "DaskCluster", "metadata": v.pydict({"namespace": self.ns, "name": self.name, "uid": self.uid}), "spec": self.spec}
        if st or v.choose("recorded", "fresh") == "recorded":
            d["status"] = self.status
        self.o = v.pydict(d)

    def unchanged(self):
        """The known record is shared: it must not change in place."""
        now = ser(self.it, self.status)
        self.v.prove("the-known-record-is-not-modified", z3.BoolVal(set(now) == set(self.st) and all(now[k] is self.st[k] for k in now)))

    def mine(self, c):
        self.v.prove("only-its-own-cluster", z3.BoolVal(self.it.resolve(c) is self.o))


STATES = ("running", "waiting", "terminated", "failed", "evicted", "succeeded", "pending", "other", "bare")


def sched_pod(v, states=STATES):
    """(scheduler pod, "running"/"ended"/"waiting")"""
    s = v.choose(*states)
    status = {"phase": {"failed": "Failed", "evicted": "Failed", "succeeded": "Succeeded", "pending": "Pending"}.get(s, "Running")}
    mk = lambda name, state: v.pydict({"name": name, "state": v.pydict({state: v.pydict({})})})
    if s in ("running", "waiting", "terminated"):
        status["containerStatuses"] = VList([mk("sidecar", "running"), mk("dask-scheduler", s)])
    elif s in ("failed", "succeeded"):
        status["containerStatuses"] = VList([mk("dask-scheduler", "terminated")])
    elif s == "other":
        status["containerStatuses"] = VList([mk("sidecar", "terminated")])
    pod = v.pydict({"metadata": v.pydict({"name": v.str("sched_name"), "uid": v.str("sched_uid")}), "status": v.pydict(status)})
    return pod, "running" if s == "running" else "ended" if s in ("terminated", "failed", "evicted", "succeeded") else "waiting"


class Cleanup:
    """cleanup_cluster_resources by its contract."""

    def __init__(self, v):
        self.calls = []
        self.failed = False

        def clean(it, a, k):
            a = [it.resolve(x) for x in a] + [it.resolve(k[x]) for x in ("status", "namespace") if x in k]
            v.ctx.mut_append(self.calls, (ser(it, a[-2]), a[-1]))
            if v.choose("cleaned", "failing") == "failing":
                v.ctx.mut_attr(self, "failed", True)
                it.raise_(OSError, "request failed")

        v.it.overrides[KC + ".cleanup_cluster_resources"] = clean

    def check(self, v, c, names):
        ok = len(self.calls) == 1
        v.prove("its-resources-are-deleted-first", z3.BoolVal(ok))
        if ok:
            got, ns = self.calls[0]
            v.prove("its-resources-are-deleted-first", same(v, ns, c.ns))
            for f, want in names.items():
                v.prove("its-resources-are-deleted-first", same(v, got.get(f, MISS), want) if f in got else z3.BoolVal(False))


def completed(v, it, got, phase, now):
    v.prove("the-end-is-recorded", z3.BoolVal(got.get("phase") == phase))
    v.prove("the-end-is-dated", z3.BoolVal(it.resolve(got.get("completionTime")) is now))


def clock(v):
    it = v.it
    now, ms = v.str("now_text"), v.real("now_ms")
    it.overrides["dask_gateway_server.backends.kubernetes.utils.k8s_timestamp"] = lambda it2, a, k: now
    it.overrides["dask_gateway_server.utils.timestamp"] = lambda it2, a, k: ms
    return now, ms


# ----------------------------------------------------------------- phases
@contract("C18", M + "get_container_state", "scheduler_state")
def scheduler_state(v):
    it = v.it
    phase = v.choose("Pending", "Running", "Succeeded", "Failed", "Unknown", None)
    listed = v.choose("named", "others", "none", "absent")
    state = v.choose("waiting", "running", "terminated") if listed == "named" else None
    status = {} if phase is None else {"phase": phase}
    mk = lambda name, state: v.pydict({"name": name, "state": v.pydict({state: v.pydict({})})})
    other = mk("sidecar", "running")
    if listed != "absent":
        status["containerStatuses"] = VList({"named": [other, mk("dask-scheduler", state)], "others": [other], "none": []}[listed])
    v.case(lambda ev: {"kind": "controller"})
    out = v.run(M + "get_container_state", v.pydict({"status": v.pydict(status)}), "dask-scheduler")
    if not v.ok_or(out, "looked-up"):
        return
    want = "waiting" if phase == "Pending" else "terminated" if phase in ("Succeeded", "Failed") else state or "unknown"
    v.prove("a-pod-that-ended-has-terminated", z3.BoolVal(it.resolve(out.val) == want))


@contract("C18", KC + ".handle_cluster", "dispatch", assumes=A_QUEUE + A_NAMES + ["handle_pending_cluster, handle_running_cluster and cleanup_cluster_resources under their contracts"])
def dispatch(v):
    it, ctx = v.it, v.ctx
    phase = v.choose("Pending", "Running", "Stopped", "Failed", None)
    done = phase in ("Stopped", "Failed")
    active = True if done else v.choose(True, False, "default")
    c = Cluster(v, phase, FIELDS[:2] if not active else (), {} if active == "default" else {"active": active})
    parsed = v.real("parsed_time")
    dated = done and v.choose("dated", "undated") == "dated"
    if dated:
        put(v, c.status, "completionTime", COMPLETION)
        c.st["completionTime"] = COMPLETION

    def parse(it2, a, k):
        v.prove("the-recorded-end-is-kept", z3.BoolVal(it.resolve(a[0]) == COMPLETION))
        return parsed

    now, ms = clock(v)
    it.overrides["dask_gateway_server.backends.kubernetes.utils.parse_k8s_timestamp"] = parse
    clean = Cleanup(v)
    calls, result = [], (v.pydict({}), v.bool("again"))

    def handler(way):
        def fn(it2, a, k):
            ctx.mut_append(calls, way)
            c.mine(a[-1])
            return result

        return fn

    for w in ("pending", "running"):
        it.overrides[f"{KC}.handle_{w}_cluster"] = handler(w)
    stopped = VDict()
    o = v.obj(KC, log=noop_log(), stopped_clusters=stopped)
    v.case(lambda ev: {"kind": "controller"})
    out = v.run(KC + ".handle_cluster", o, c.o)
    c.unchanged()
    r = [it.resolve(x) for x in it.iterate(out.val)] if out.ok and out.val is not None else None
    known = [(k, it.resolve(x)) for k, x in stopped.d.values()] + [p.val() for p in getattr(stopped, "parts", ())]
    if done:
        v.prove("a-finished-cluster-stays-as-it-is", z3.BoolVal(r is not None and r[0] is None and r[1] is False and not calls and not clean.calls))
        v.prove("a-finished-cluster-is-remembered", z3.BoolVal(len(known) == 1))
        if len(known) == 1:
            k, t = known[0]
            v.prove("a-finished-cluster-is-remembered", it.sterm(it.resolve(k)) == c.key)
            v.prove("the-recorded-end-is-kept", same(v, it.resolve(t), parsed if dated else ms))
        return
    v.prove("only-finished-clusters-are-remembered-as-such", z3.BoolVal(not known))
    if active is False:
        v.prove("a-cluster-told-to-stop-does-nothing-else", z3.BoolVal(not calls))
        names = {"credentials": SStr(z3.Concat(z3.StringVal("dask-credentials-"), c.name.t)), "schedulerPod": SStr(z3.Concat(z3.StringVal("dask-scheduler-"), c.name.t))}
        clean.check(v, c, {f: c.st.get(f, names[f]) for f in names})
        if clean.failed:
            v.prove("nothing-is-recorded-if-cleaning-up-fails", z3.BoolVal(not out.ok))
        elif v.ok_or(out, "a-cluster-told-to-stop-is-stopped"):
            got = ser(it, r[0])
            completed(v, it, got, "Stopped", now)
            v.prove("recorded-resources-stay-recorded", z3.BoolVal(all(got.get(f) is c.st[f] for f in FIELDS if f in c.st)))
        return
    v.prove("an-active-cluster-keeps-its-resources", z3.BoolVal(not clean.calls))
    want = "running" if phase == "Running" else "pending"
    v.prove("each-phase-has-its-handler", z3.BoolVal(calls == [want]))
    if v.ok_or(out, "each-phase-has-its-handler"):
        v.prove("each-phase-has-its-handler", z3.BoolVal(r is not None and len(r) == 2 and r[0] is result[0] and r[1] is result[1]))


@contract("C18", KC + ".handle_pending_cluster", "pending", max_paths=9000, assumes=A_QUEUE + A_NAMES + ["the create_*_if_not_exists functions under their contracts"])
def pending(v):
    it, ctx = v.it, v.ctx
    phase = v.choose("Pending", None)
    c = Cluster(v, phase, FIELDS[:2] if phase else ())
    pod, state = (None, "unseen")
    made_pod = "schedulerPod" not in c.st
    more = True
    if v.choose("seen", "unseen") == "seen":
        pod, state = sched_pod(v, ("running", "waiting", "terminated", "evicted", "pending", "bare"))
    if state == "running" and phase:
        # routes and service are only looked at then
        for f in FIELDS[2:]:
            if v.choose("has " + f, "no " + f).startswith("has"):
                c.st[f] = v.str(f)
                v.assume(z3.Length(c.st[f].t) > 0)
                put(v, c.status, f, c.st[f])
        if c.st and at(it, c.o, "status") is MISS:
            put(v, c.o, "status", c.status)
    created, failed = [], []
    names = {f: v.str("new_" + f) for f in FIELDS}

    def create(f):
        def fn(it2, a, k):
            args = [it.resolve(x) for x in list(a) + list(k.values())]
            ctx.mut_append(created, f)
            v.prove("creates-its-own-resources", z3.BoolVal(c.o in args))
            if f not in ("credentials", "schedulerPod"):
                v.prove("creates-its-own-resources", z3.BoolVal(pod is not None and pod in args))
            if v.choose("created", "failing") == "failing":
                ctx.mut_append(failed, f)
                it.raise_(OSError, "request failed")
            return (names[f], pod) if f == "schedulerPod" else names[f]

        return fn

    for f, n in zip(FIELDS, ("secret", "scheduler_pod", "service", "ingressroute", "ingressroutetcp")):
        it.overrides[f"{KC}.create_{n}_if_not_exists"] = create(f)
    now, ms = clock(v)
    clean = Cleanup(v)
    ep = None
    if state == "running":
        ep = v.choose("all-ready", "some-ready", "none-ready", "no-subsets", "unknown")
    ready = v.pydict({"addresses": VList([v.str("ip")])})
    part = v.pydict({"addresses": VList([v.str("ip")]), "notReadyAddresses": VList([v.str("ip2")])})
    subsets = {"all-ready": [ready], "some-ready": [ready, part], "none-ready": [v.pydict({"notReadyAddresses": VList([v.str("ip")])})]}.get(ep)
    eps = None if ep in (None, "unknown") else v.pydict({} if subsets is None else {"subsets": VList(subsets)})
    service = c.st.get("service", names["service"])

    def look(kind, want, val):
        def get(it2, a, k):
            v.prove("looks-at-its-own-resources", it.sterm(it.resolve(a[0])) == z3.Concat(c.ns.t, z3.StringVal("."), want.t))
            return val

        return v.fake("Informer", get=v.native(get))

    sched_name = c.st.get("schedulerPod", names["schedulerPod"])
    o = v.obj(KC, log=noop_log(), informers=v.pydict({"pod": look("pod", sched_name, pod), "endpoints": look("endpoints", service, eps)}))
    v.case(lambda ev: {"kind": "controller"})
    out = v.run(KC + ".handle_pending_cluster", o, c.o)
    c.unchanged()
    v.prove("each-resource-is-created-once", z3.BoolVal(len(set(created)) == len(created) and not any(f in c.st for f in created)))
    if failed:
        v.prove("a-failed-creation-is-retried", z3.BoolVal(not out.ok))
        v.prove("a-failed-creation-is-retried", z3.BoolVal(created[-1] == failed[0]))
        return
    if clean.failed:
        v.prove("nothing-is-recorded-if-cleaning-up-fails", z3.BoolVal(not out.ok))
        return
    if not v.ok_or(out, "progresses"):
        return
    r = [it.resolve(x) for x in it.iterate(out.val)]
    got = ser(it, r[0])
    for f in FIELDS:
        want = c.st.get(f, names[f] if f in created else None)
        v.prove("what-exists-is-recorded", z3.BoolVal(got.get(f) is want))
    v.prove("credentials-and-scheduler-come-first", z3.BoolVal("credentials" in got and "schedulerPod" in got and [f for f in created if f in FIELDS[:2]] == sorted(set(created) & set(FIELDS[:2]))))
    ph = got.get("phase", "Pending")
    if state == "ended":
        clean.check(v, c, {f: got.get(f) for f in FIELDS[:2]})
        completed(v, it, got, "Failed", now)
        return
    v.prove("an-active-cluster-keeps-its-resources", z3.BoolVal(not clean.calls))
    v.prove("its-end-is-not-recorded-early", z3.BoolVal("completionTime" not in got))
    everything = all(got.get(f) is not None for f in FIELDS)
    if ph == "Running":
        v.prove("running-once-the-scheduler-is-ready", z3.BoolVal(state == "running" and ep == "all-ready"))
        v.prove("running-once-everything-exists", z3.BoolVal(everything))
    else:
        v.prove("phases-move-forward", z3.BoolVal(ph == "Pending"))
        v.prove("runs-once-it-can", z3.BoolVal(not (state == "running" and ep == "all-ready")))
    if state == "running":
        v.prove("a-running-scheduler-gets-its-service", z3.BoolVal(got.get("service") is not None))


@contract("C18", KC + ".handle_running_cluster", "running", assumes=A_QUEUE + A_NAMES + ["scaling is under contract in C17"])
def running(v):
    it, ctx = v.it, v.ctx
    c = Cluster(v, "Running", FIELDS[:3], {"replicas": v.int("replicas", 0)})
    pod, state = None, "ended"
    if "schedulerPod" in c.st and v.choose("seen", "gone") == "seen":
        pod, state = sched_pod(v)
    now, ms = clock(v)
    clean = Cleanup(v)
    scaled = []

    def scale(it2, a, k):
        ctx.mut_append(scaled, [it.resolve(x) for x in a])
        return v.bool("again")

    def get(it2, a, k):
        v.prove("looks-at-its-own-resources", it.sterm(it.resolve(a[0])) == z3.Concat(c.ns.t, z3.StringVal("."), c.st["schedulerPod"].t) if "schedulerPod" in c.st else z3.BoolVal(False))
        return pod

    for w in ("up", "down"):
        it.overrides[f"{KC}.handle_scale_{w}"] = scale
    info = v.fake("ClusterInfo", should_trigger=v.native(lambda it2, a, k: v.bool("trigger")), running=VSet([Part((), lambda: z3.BoolVal(True), lambda: v.str("w1"))]), pending=VSet([]), succeeded=VSet([]), failed=VSet([]))
    o = v.obj(KC, log=noop_log(), informers=v.pydict({"pod": v.fake("Informer", get=v.native(get))}), cluster_info=v.fake("cluster_info", __getitem__=v.native(lambda it2, a, k: info)))
    v.case(lambda ev: {"kind": "controller"})
    out = v.run(KC + ".handle_running_cluster", o, c.o)
    c.unchanged()
    if clean.failed:
        v.prove("nothing-is-recorded-if-cleaning-up-fails", z3.BoolVal(not out.ok))
        v.prove("only-a-scheduler-that-ended-ends-the-cluster", z3.BoolVal(state == "ended"))
        return
    if not v.ok_or(out, "handled"):
        return
    r = [it.resolve(x) for x in it.iterate(out.val)]
    got = ser(it, r[0]) if r[0] is not None else dict(c.st)
    v.prove("recorded-resources-stay-recorded", z3.BoolVal(all(got.get(f) is c.st.get(f) for f in FIELDS)))
    if state == "ended":
        clean.check(v, c, {f: c.st[f] for f in FIELDS[:2] if f in c.st})
        completed(v, it, got, "Failed", now)
        v.prove("a-finished-cluster-is-not-scaled", z3.BoolVal(not scaled))
    else:
        v.prove("only-a-scheduler-that-ended-ends-the-cluster", z3.BoolVal(not clean.calls and got.get("phase") == "Running" and "completionTime" not in got))
        if state != "running":
            v.prove("workers-wait-for-the-scheduler", z3.BoolVal(not scaled))


# --------------------------------------------------------------- requests
class Calls:
    """API requests: accepted, refused (any status), failing."""

    def __init__(self, v, methods):
        self.v, self.it = v, v.it
        k8s.setup(v.it)
        self.calls = []
        self.out = []
        self.client = v.fake("Api", **{m: v.afn(lambda it, a, k, m=m: self.go(m, a, k)) for m in methods})

    def go(self, m, a, k):
        v, it = self.v, self.it
        v.ctx.mut_append(self.calls, (m, [it.resolve(x) for x in a] + [it.resolve(x) for x in k.values()]))
        o = v.choose("ok", "refused", "error", "cancelled")
        n = len(self.calls)
        st = v.int("http_status%d" % n) if o == "refused" else None
        res = v.fake("Reply%d" % n)
        v.ctx.mut_append(self.out, (m, o, st, res))
        if o == "cancelled":
            it.raise_(asyncio.CancelledError)
        if o == "error":
            it.raise_(OSError, "no connection")
        if o == "refused":
            e = k8s.api_error(it, st)
            e.val.attrs["body"] = v.str("body")
            raise e
        return res

    def passed(self, i, code):
        """Whether request i was accepted, or refused with that code."""
        m, o, st, _ = self.out[i]
        return z3.BoolVal(True) if o == "ok" else st.t == code if o == "refused" else z3.BoolVal(False)


@contract("C18", KC + ".cleanup_cluster_resources", "cleanup", assumes=A_NAMES + A_GC)
def cleanup(v):
    it, ctx = v.it, v.ctx
    ns = v.str("namespace")
    names = {"schedulerPod": "delete_namespaced_pod", "credentials": "delete_namespaced_secret"}
    st = {f: v.str(f) for f in names if v.choose("has " + f, "no " + f).startswith("has")}
    for x in st.values():
        v.assume(z3.Length(x.t) > 0)
    api = Calls(v, names.values())
    o = v.obj(KC, core_client=api.client, log=noop_log())
    v.case(lambda ev: {"kind": "controller"})
    out = v.run(KC + ".cleanup_cluster_resources", o, v.pydict(dict(st)), ns)
    todo = [(names[f], x) for f, x in st.items()]
    done = z3.And([z3.BoolVal(True)] + [api.passed(i, 404) for i in range(len(api.out))])
    v.prove("a-failed-deletion-is-retried", z3.BoolVal(out.ok) == done)
    for m, a in api.calls:
        hit = [x for n, x in todo if n == m]
        v.prove("deletes-its-own-resources", z3.And(z3.BoolVal(len(a) == 2 and len(hit) == 1), same(v, a[0], hit[0]), same(v, a[1], ns)) if len(a) == 2 and hit else z3.BoolVal(False))
    if out.ok:
        v.prove("its-resources-are-deleted-first", z3.BoolVal(sorted(m for m, _ in api.calls) == sorted(m for m, _ in todo)))


def owners(v, obj):
    """The single ownerReference of an object."""
    it = v.it
    o = at(it, obj, "metadata", "ownerReferences")
    ok = isinstance(o, VList) and len(o.items) == 1
    v.prove("each-resource-belongs-to-its-owner", z3.BoolVal(ok))
    return o.items[0] if ok else None


def creates(v, what, client, method, lead, owner):
    it, ctx = v.it, v.ctx
    c = Cluster(v, "Pending", (), {"config": v.pydict({"image": "img"})})
    pod = v.pydict({"metadata": v.pydict({"name": v.str("sched_name"), "uid": v.str("sched_uid")}), "status": v.pydict({"phase": "Running"})})
    name = v.str("resource_name")
    api = Calls(v, [method])
    made = []

    def make(it2, a, k):
        a = [it.resolve(x) for x in list(a)[1:] + list(k.values())]
        d = v.pydict({"metadata": v.pydict({"name": name}), "spec": v.pydict({})})
        ctx.mut_append(made, (d, a))
        return d

    maker = {"secret": "make_secret", "scheduler_pod": "make_pod", "service": "make_service"}.get(what, "make_" + what)
    it.overrides[f"{KC}.{maker}"] = make
    it.overrides["dask_gateway_server.utils.FrozenAttrDict"] = lambda it2, a, k: v.fake("Config", of=a[0])
    raw = v.pydict({"status": v.pydict({"phase": "Pending"})})
    plain = []

    def sanitize(it2, a, k):
        ctx.mut_append(plain, it.resolve(a[0]))
        return raw

    o = v.obj(KC, log=noop_log(), **{client: api.client}, api_client=v.fake("ApiClient", sanitize_for_serialization=v.native(sanitize)))
    v.case(lambda ev: {"kind": "controller"})
    out = v.run(f"{KC}.create_{what}_if_not_exists", o, c.o, *([pod] if owner == "scheduler" else []))
    v.prove("each-resource-is-created-once", z3.BoolVal(len(made) == 1 and len(api.calls) == 1))
    if len(made) != 1 or len(api.calls) != 1:
        return
    d, args = made[0]
    for x in args:
        if isinstance(x, SStr):
            v.prove("creates-its-own-resources", z3.Or(x.t == c.ns.t, x.t == c.name.t))
    v.prove("creates-its-own-resources", z3.Or([same(v, x, c.name) for x in args if isinstance(x, SStr)] + [z3.BoolVal(False)]))
    _, a = api.calls[0]
    want = [*lead(c), d] if lead else [c.ns, d]
    v.prove("creates-its-own-resources", z3.And([z3.BoolVal(len(a) == len(want))] + [z3.BoolVal(x is y) if y is d else same(v, x, y) for x, y in zip(a, want)]))
    w = owners(v, d)
    if w is not None:
        src = c.o if owner == "cluster" else pod
        for key, val in (("kind", "DaskCluster" if owner == "cluster" else "Pod"), ("apiVersion", "gateway.dask.org/v1alpha1" if owner == "cluster" else "v1"), ("name", at(it, src, "metadata", "name")), ("uid", at(it, src, "metadata", "uid"))):
            v.prove("each-resource-belongs-to-its-owner", same(v, at(it, w, key), val))
    v.prove("a-failed-creation-is-retried", z3.BoolVal(out.ok) == api.passed(0, 409))
    if not out.ok:
        return
    if what == "scheduler_pod":
        r = [it.resolve(x) for x in it.iterate(out.val)]
        v.prove("what-exists-is-recorded", same(v, r[0], name))
        accepted = api.out[0][1] == "ok"
        v.prove("an-existing-scheduler-is-looked-up", z3.BoolVal((r[1] is raw and plain == [api.out[0][3]]) if accepted else r[1] is None))
    else:
        v.prove("what-exists-is-recorded", same(v, it.resolve(out.val), name))


for _w, _c, _m, _lead, _own in [
    ("secret", "core_client", "create_namespaced_secret", None, "cluster"),
    ("scheduler_pod", "core_client", "create_namespaced_pod", None, "cluster"),
    ("service", "core_client", "create_namespaced_service", None, "scheduler"),
    ("ingressroute", "custom_client", "create_namespaced_custom_object", lambda c: ["traefik.io", "v1alpha1", c.ns, "ingressroutes"], "scheduler"),
    ("ingressroutetcp", "custom_client", "create_namespaced_custom_object", lambda c: ["traefik.io", "v1alpha1", c.ns, "ingressroutetcps"], "scheduler"),
]:
    contract("C18", f"{KC}.create_{_w}_if_not_exists", "create_" + _w, assumes=["the make_* functions under their contracts (make_pod: C20, C25)"])(lambda v, a=(_w, _c, _m, _lead, _own): creates(v, *a))


# -------------------------------------------------------------- templates
class Names:
    def __init__(self, v):
        self.v, self.it = v, v.it
        self.ns, self.name, self.inst = v.str("namespace"), v.str("cluster_name"), v.str("instance")
        self.prefix = v.str("proxy_prefix")
        self.web, self.tcp = v.str("web_entrypoint"), v.str("tcp_entrypoint")
        self.mid = VList([v.pydict({"name": v.str("middleware")})])
        self.o = v.obj(KC, gateway_instance=self.inst, proxy_prefix=self.prefix, proxy_web_entrypoint=self.web, proxy_tcp_entrypoint=self.tcp, proxy_web_middlewares=self.mid, common_labels=v.pydict({}), common_annotations=v.pydict({}), label_selector=v.str("selector"))
        self.cat = lambda *a: SStr(z3.Concat([z3.StringVal(x) if isinstance(x, str) else x.t for x in a]))
        self.service = self.cat("dask-", self.name)


def labelled(v, s, d, component):
    it = v.it
    for k, w in (("gateway.dask.org/cluster", s.name), ("gateway.dask.org/instance", s.inst), ("app.kubernetes.io/component", component)):
        v.prove("resources-are-labelled-with-their-cluster", same(v, at(it, d, "metadata", "labels", k), w))


@contract("C18", KC + ".make_service", "make_service")
def make_service(v):
    it, s = v.it, Names(v)
    v.case(lambda ev: {"kind": "controller"})
    out = v.run(KC + ".make_service", s.o, s.name)
    if not v.ok_or(out, "made"):
        return
    d = it.resolve(out.val)
    labelled(v, s, d, "dask-scheduler")
    v.prove("routes-lead-to-its-own-scheduler", same(v, at(it, d, "metadata", "name"), s.service))
    sel = ser(it, at(it, d, "spec", "selector"))
    want = {"gateway.dask.org/cluster": s.name, "gateway.dask.org/instance": s.inst, "app.kubernetes.io/component": "dask-scheduler"}
    v.prove("routes-lead-to-its-own-scheduler", z3.And([z3.BoolVal(set(sel) == set(want))] + [same(v, sel[k], want[k]) for k in want if k in sel]))
    ports = {p["name"]: p for p in ser(it, at(it, d, "spec", "ports"))}
    v.prove("routes-lead-to-its-own-scheduler", z3.BoolVal(all(ports.get(n, {}).get("port") == p for n, p in (("scheduler", 8786), ("dashboard", 8787), ("api", 8788)))))


def route(v, kind, run_, match, port, entry):
    it = v.it
    d = it.resolve(run_.val)
    r = ser(it, at(it, d, "spec", "routes"))
    v.prove("routes-lead-to-its-own-scheduler", z3.BoolVal(isinstance(r, list) and len(r) == 1 and len(r[0].get("services", ())) == 1))
    v.prove("routes-lead-to-its-own-scheduler", same(v, at(it, d, "kind"), kind))
    v.prove("routes-lead-to-its-own-scheduler", same(v, r[0]["match"], match))
    e = ser(it, at(it, d, "spec", "entryPoints"))
    v.prove("routes-lead-to-its-own-scheduler", z3.And(z3.BoolVal(len(e) == 1), same(v, e[0], entry)))
    return d, r[0], r[0]["services"][0]


@contract("C18", KC + ".make_ingressroute", "make_ingressroute")
def make_ingressroute(v):
    it, s = v.it, Names(v)
    v.case(lambda ev: {"kind": "controller"})
    out = v.run(KC + ".make_ingressroute", s.o, s.name, s.ns)
    if not v.ok_or(out, "made"):
        return
    d, r, svc = route(v, "IngressRoute", out, s.cat("PathPrefix(`", s.prefix, "/clusters/", s.ns, ".", s.name, "/`)"), 8787, s.web)
    labelled(v, s, d, "dask-scheduler")
    for k, w in (("name", s.service), ("namespace", s.ns), ("port", 8787)):
        v.prove("routes-lead-to-its-own-scheduler", same(v, svc.get(k), w))
    v.prove("routes-lead-to-its-own-scheduler", z3.BoolVal(at(it, it.resolve(out.val), "spec", "routes").items and it.resolve(at(it, at(it, it.resolve(out.val), "spec", "routes").items[0], "middlewares")) is s.mid))


@contract("C18", KC + ".make_ingressroutetcp", "make_ingressroutetcp")
def make_ingressroutetcp(v):
    it, s = v.it, Names(v)
    v.case(lambda ev: {"kind": "controller"})
    out = v.run(KC + ".make_ingressroutetcp", s.o, s.name, s.ns)
    if not v.ok_or(out, "made"):
        return
    d, r, svc = route(v, "IngressRouteTCP", out, s.cat("HostSNI(`daskgateway-", s.ns, ".", s.name, "`)"), 8786, s.tcp)
    labelled(v, s, d, "dask-scheduler")
    for k, w in (("name", s.service), ("namespace", s.ns), ("port", 8786)):
        v.prove("routes-lead-to-its-own-scheduler", same(v, svc.get(k), w))
    v.prove("tls-ends-at-the-scheduler", z3.BoolVal(ser(it, at(it, d, "spec", "tls")) == {"passthrough": True}))


@contract("C18", KC + ".make_secret", "make_secret", assumes=["uuid4 and new_keypair yield fresh secrets (C20 for their use)"])
def make_secret(v):
    it, s = v.it, Names(v)
    v.case(lambda ev: {"kind": "controller"})
    hexed = v.str("uuid_hex")
    crt, key = v.opaque("crt", "Bytes"), v.opaque("key", "Bytes")
    it.lib["uuid.uuid4"] = lambda it2, a, k: v.fake("UUID", hex=hexed)

    def pair(it2, a, k):
        v.prove("its-own-credentials", same(v, it.resolve(a[0]), s.name))
        return (crt, key)

    it.overrides["dask_gateway_server.tls.new_keypair"] = pair
    enc = lambda x: v.fake("Encoded", of=x, decode=v.native(lambda it2, a, k: v.fake("Text", of=x)))
    it.lib["base64.b64encode"] = lambda it2, a, k: enc(it.resolve(a[0]))
    out = v.run(KC + ".make_secret", s.o, s.name)
    if not v.ok_or(out, "made"):
        return
    d = it.resolve(out.val)
    labelled(v, s, d, "credentials")
    v.prove("its-own-credentials", same(v, at(it, d, "metadata", "name"), s.cat("dask-credentials-", s.name)))
    data = ser(it, at(it, d, "data"))
    of = lambda k: getattr(data.get(k), "attrs", {}).get("of")
    v.prove("its-own-credentials", z3.BoolVal(set(data) == {"dask.crt", "dask.pem", "api-token"} and of("dask.crt") is crt and of("dask.pem") is key))


# ------------------------------------------------------------- reconciling
@contract("C18", KC + ".reconcile_cluster", "reconcile", assumes=A_QUEUE + ["handle_cluster and patch_cluster_status under their contracts"])
def reconcile(v):
    it, ctx = v.it, v.ctx
    c = Cluster(v, v.choose("Pending", None), ("credentials",))
    known = v.choose("known", "gone") == "known"
    key = SStr(c.key)
    new = v.choose("none", "same", "more", "other")
    again = v.bool("again")
    fails = v.choose("handled", "failing") == "failing"
    handled, patched = [], []
    cred = v.str("other_credentials")
    upd = None
    if new == "same":
        upd = v.pydict(dict(c.st))
    elif new == "more":
        upd = v.pydict({**c.st, "service": v.str("service")})
    elif new == "other":
        upd = v.pydict({**c.st, "phase": "Running"})

    def handle(it2, a, k):
        ctx.mut_append(handled, it.resolve(a[-1]))
        if fails:
            it.raise_(OSError, "request failed")
        return (upd, again)

    broken = []

    def patch(it2, a, k):
        ctx.mut_append(patched, [it.resolve(x) for x in list(a)[-3 + len(k):] + list(k.values())])
        if v.choose("patched", "refused") == "refused":
            ctx.mut_append(broken, 1)
            it.raise_(OSError, "request failed")

    it.overrides[KC + ".handle_cluster"] = handle
    it.overrides[KC + ".patch_cluster_status"] = patch

    def get(it2, a, k):
        v.prove("only-its-own-cluster", it.sterm(it.resolve(a[0])) == c.key)
        return c.o if known else None

    o = v.obj(KC, log=noop_log(), informers=v.pydict({"cluster": v.fake("Informer", get=v.native(get))}))
    v.case(lambda ev: {"kind": "controller"})
    out = v.run(KC + ".reconcile_cluster", o, key)
    if not known:
        v.prove("a-deleted-cluster-is-left-alone", z3.BoolVal(out.ok and not handled and not patched))
        if out.ok:
            v.prove("a-deleted-cluster-is-left-alone", z3.Not(B(v.truth(out.val))))
        return
    v.prove("only-its-own-cluster", z3.BoolVal(len(handled) == 1 and handled[0] is c.o))
    if fails:
        v.prove("a-failure-is-retried", z3.BoolVal(not out.ok and not patched))
        return
    recorded = at(it, c.o, "status") is not MISS
    change = new in ("more", "other") or (new == "same" and not recorded)
    if new == "same" and not c.st:
        change = False  # nothing to record either way
        v.prove("changes-are-recorded", z3.BoolVal(len(patched) <= 1))
    else:
        v.prove("changes-are-recorded", z3.BoolVal(len(patched) == (1 if change else 0)))
    if patched:
        ns, name, status = patched[0]
        v.prove("only-its-own-cluster", z3.And(same(v, ns, c.ns), same(v, name, c.name)))
        v.prove("changes-are-recorded", z3.BoolVal(status is upd))
    if broken:
        v.prove("a-failure-is-retried", z3.BoolVal(not out.ok))
    elif v.ok_or(out, "handled"):
        v.prove("a-failure-is-retried", B(v.truth(out.val)) == again.t)


@contract("C18", KC + ".patch_cluster_status", "patch_status")
def patch_status(v):
    it = v.it
    api = Calls(v, ["patch_namespaced_custom_object_status"])
    ns, name, ver = v.str("namespace"), v.str("cluster_name"), v.str("crd_version")
    st = v.pydict({"phase": "Running"})
    o = v.obj(KC, custom_client=api.client, crd_version=ver, log=noop_log())
    v.case(lambda ev: {"kind": "controller"})
    out = v.run(KC + ".patch_cluster_status", o, ns, name, st)
    v.prove("changes-are-recorded", z3.BoolVal(len(api.calls) == 1))
    v.prove("a-failure-is-retried", z3.BoolVal(out.ok == (api.out[0][1] == "ok")))
    _, a = api.calls[0]
    want = ["gateway.dask.org", ver, ns, "daskclusters", name]
    v.prove("only-its-own-cluster", z3.And([z3.BoolVal(len(a) == 6)] + [same(v, x, y) for x, y in zip(a, want)]))
    body = it.resolve(a[-1])
    ok = isinstance(body, VList) and len(body.items) == 1
    v.prove("patches-only-the-status", z3.BoolVal(ok))
    if ok:
        op = ser(it, at(it, body.items[0], "op"))
        v.prove("patches-only-the-status", z3.BoolVal(op in ("add", "replace") and op == "add"))
        v.prove("patches-only-the-status", same(v, at(it, body.items[0], "path"), "/status"))
        v.prove("patches-only-the-status", z3.BoolVal(at(it, body.items[0], "value") is st))


@contract("C18", KC + ".delete_cluster", "delete_record")
def delete_record(v):
    it = v.it
    api = Calls(v, ["delete_namespaced_custom_object"])
    ns, name, ver = v.str("namespace"), v.str("cluster_name"), v.str("crd_version")
    o = v.obj(KC, custom_client=api.client, crd_version=ver, log=noop_log())
    v.case(lambda ev: {"kind": "controller"})
    out = v.run(KC + ".delete_cluster", o, ns, name)
    v.prove("deletes-exactly-this-record", z3.BoolVal(len(api.calls) == 1))
    want = ["gateway.dask.org", ver, ns, "daskclusters", name]
    a = api.calls[0][1]
    v.prove("deletes-exactly-this-record", z3.And([z3.BoolVal(len(a) == 5)] + [same(v, x, y) for x, y in zip(a, want)]))


@contract("C18", KC + ".reconciler_loop", "reconciling", assumes=A_QUEUE)
def reconciling(v):
    it, ctx = v.it, v.ctx
    WC = it.get_class("dask_gateway_server.workqueue.WorkQueueClosed")
    name = v.str("cluster_name")
    again = v.bool("again")

    def get(it2, a, k):
        def go():
            w = v.choose("item", "closed", "cancelled")
            ctx.event("get", w)
            if w == "closed":
                it.raise_(WC)
            if w == "cancelled":
                it.raise_(asyncio.CancelledError)
            return name

        return Coro(go, "get")

    def rec(it2, a, k):
        w = v.choose("ok", "fails", "cancelled")
        ctx.event("reconcile", it.resolve(a[-1]), w)
        if w == "fails":
            it.raise_(RuntimeError, "reconcile")
        if w == "cancelled":
            it.raise_(asyncio.CancelledError)
        return again

    q = v.fake("queue", get=v.native(get), **{f: v.native(lambda it2, a, k, f=f: ctx.event(f, it.resolve(a[0]))) for f in ("put", "put_backoff", "reset_backoff", "task_done")})
    it.overrides[KC + ".reconcile_cluster"] = rec
    WhileInv(v, lambda init, cur: {})
    v.case(lambda ev: {"kind": "controller"})
    out = run(v, KC + ".reconciler_loop", v.obj(KC, queue=q, log=noop_log()))
    evs = v.events()
    got = [e for e in evs if e[0] == "get"]
    if got and got[0][1] == "item":
        sy = [e for e in evs if e[0] == "reconcile"]
        v.prove("each-queued-cluster-is-reconciled", z3.BoolVal(len(sy) == 1 and sy[0][1] is name))
        done = [e for e in evs if e[0] == "task_done"]
        v.prove("each-item-is-finished-once", z3.BoolVal(len(done) == 1 and evs[-1][0] == "task_done" and done[0][1] is name))
        if sy and sy[0][2] != "cancelled":
            marks = [e[:2] for e in evs if e[0] in ("put_backoff", "reset_backoff", "put")]
            v.prove("a-failure-is-retried", z3.BoolVal(len(marks) == 1 and marks[0][1] is name))
            retry = z3.BoolVal(True) if sy[0][2] == "fails" else again.t
            v.prove("a-failure-is-retried", z3.BoolVal(marks == [("put_backoff", name)]) == retry)
            v.prove("a-failure-does-not-end-it", z3.BoolVal(out is None))
    if out is not None:
        v.prove("only-closing-or-cancellation-ends-it", z3.BoolVal((out.ok and got[-1][1] == "closed") or (not out.ok and out.exc_name() == "CancelledError")))


# ----------------------------------------------------------------- events
@contract("C18", KC + ".on_pod_update", "scheduler_event")
def scheduler_event(v):
    it = v.it
    s = Ctl(v)
    meta, mine = s.labels("dask-scheduler")
    pod, state = sched_pod(v)
    put(v, pod, "metadata", meta)
    v.case(lambda ev: {"kind": "controller"})
    out = v.run(KC + ".on_pod_update", s.o, pod, v.choose(None, pod))
    if not v.ok_or(out, "handled"):
        return
    s.own()
    if mine and state in ("running", "ended"):
        v.prove("the-scheduler-wakes-its-cluster", z3.Or(s.queued(), s.stopping(s.key)))
    elif not mine:
        v.prove("only-its-own-cluster", z3.Not(s.queued()))


@contract("C18", KC + ".on_pod_delete", "scheduler_gone")
def scheduler_gone(v):
    it = v.it
    s = Ctl(v)
    meta, mine = s.labels("dask-scheduler")
    pod, state = sched_pod(v, ("running", "failed", "pending"))
    put(v, pod, "metadata", meta)
    v.case(lambda ev: {"kind": "controller"})
    out = v.run(KC + ".on_pod_delete", s.o, pod)
    if not v.ok_or(out, "handled"):
        return
    s.own()
    v.prove("the-scheduler-wakes-its-cluster" if mine else "only-its-own-cluster", z3.Or(s.queued(), s.stopping(s.key)) if mine else z3.Not(s.queued()))


def subsets(v):
    """(endpoints' subsets, whether there is one and all of it is ready)"""
    it, ctx = v.it, v.ctx
    w = v.choose("absent", "listed")
    if w == "absent":
        return {}, z3.BoolVal(False)
    n = v.int("n_subsets", 0)
    S = ref_sort("Subset")
    at_ = z3.Function("subset", z3.IntSort(), S)
    waiting = z3.Function("has_waiting", S, z3.BoolSort())
    cls = Fake("Subset")

    def field(it2, o, k):
        if it.resolve(k) != "notReadyAddresses":
            it.unsupported("field of a subset")
        return it.mkbool(waiting(o.t))

    it.attr_hooks["Subset.get"] = lambda it2, o, *r: Native("get", lambda it3, a, k: field(it3, o, a[0]))
    i = z3.Int("some_index")
    ctx.know("Int", i)
    # the two cases, each with its witness
    if v.choose("ready", "not ready") == "ready":
        v.assume(n.t > 0)
        ctx.forall(("Int",), lambda x: z3.Implies(z3.And(x >= 0, x < n.t), z3.Not(waiting(at_(x)))), "all ready")
        ok = z3.BoolVal(True)
    else:
        v.assume(z3.Or(n.t == 0, z3.And(i >= 0, i < n.t, waiting(at_(i)))))
        ok = z3.BoolVal(False)
    return {"subsets": VList([SSeq(n.t, lambda x: SRef(cls, at_(x)))])}, ok


@contract("C18", KC + ".endpoints_all_ready", "endpoints_ready")
def endpoints_ready(v):
    d, ok = subsets(v)
    v.case(lambda ev: {"kind": "controller"})
    out = v.run(KC + ".endpoints_all_ready", v.obj(KC, log=noop_log()), v.pydict(d))
    if v.ok_or(out, "handled"):
        v.prove("ready-once-every-address-is", B(v.truth(out.val)) == ok)


@contract("C18", KC + ".on_endpoints_update", "endpoints_event", assumes=["endpoints_all_ready under its contract"])
def endpoints_event(v):
    it = v.it
    s = Ctl(v)
    meta, mine = s.labels("dask-scheduler")
    ready = v.bool("all_ready")
    it.overrides[KC + ".endpoints_all_ready"] = lambda it2, a, k: ready
    v.case(lambda ev: {"kind": "controller"})
    out = v.run(KC + ".on_endpoints_update", s.o, v.pydict({"metadata": meta}))
    if not v.ok_or(out, "handled"):
        return
    s.own()
    v.prove("ready-endpoints-wake-their-cluster" if mine else "only-its-own-cluster", z3.Or(s.queued(), s.stopping(s.key), z3.Not(ready.t)) if mine else z3.Not(s.queued()))


@contract("C18", KC + ".on_cluster_update", "cluster_event")
def cluster_event(v):
    s = Ctl(v)
    o = v.pydict({"metadata": v.pydict({"namespace": s.ns, "name": s.cname}), "spec": v.pydict({})})
    v.case(lambda ev: {"kind": "controller"})
    out = v.run(KC + ".on_cluster_update", s.o, o, v.choose(None, o))
    if v.ok_or(out, "handled"):
        s.own()
        v.prove("each-change-is-reconciled", s.queued())


@contract("C18", KC + ".on_cluster_delete", "cluster_gone")
def cluster_gone(v):
    it, ctx = v.it, v.ctx
    s = Ctl(v)
    popped = []

    def pop(it2, a, k):
        ctx.mut_append(popped, it.sterm(it.resolve(a[0])))
        if v.choose("known", "unknown") == "unknown":
            if len(a) < 2:
                it.raise_(KeyError, a[0])
            return a[1]
        return v.real("stop_time")

    ctx.mut_dict(s.o.attrs, "cluster_info", v.fake("cluster_info", pop=v.native(lambda it2, a, k: None)))
    ctx.mut_dict(s.o.attrs, "stopped_clusters", v.fake("stopped", pop=v.native(pop), __delitem__=v.native(lambda it2, a, k: pop(it2, a, k)), __contains__=v.native(lambda it2, a, k: it.mkbool(s.stopping(it.sterm(it.resolve(a[0])))))))
    o = v.pydict({"metadata": v.pydict({"namespace": s.ns, "name": s.cname}), "spec": v.pydict({})})
    v.case(lambda ev: {"kind": "controller"})
    out = v.run(KC + ".on_cluster_delete", s.o, o)
    if not v.ok_or(out, "handled"):
        return
    for t in popped:
        v.prove("only-its-own-cluster", t == s.key)
    v.prove("a-deleted-cluster-is-forgotten", z3.BoolVal(len(popped) == 1))


# ---------------------------------------------------------------- records
@contract("C18", KC + ".cleanup_expired_cluster_records_loop", "expiry", assumes=["namespaces and names contain no dots", "delete_cluster under its contract"])
def expiry(v):
    it, ctx = v.it, v.ctx
    now, ms = clock(v)
    age, period = v.real("max_age"), v.real("period")
    stopped = z3.Function("is_stopped", STR, STR, z3.BoolSort())
    when = z3.Function("stopped_at", STR, STR, z3.RealSort())
    dot = z3.StringVal(".")
    ctx.forall(("Str", "Str"), lambda a, b: z3.Implies(stopped(a, b), z3.And(z3.Not(z3.Contains(a, dot)), z3.Not(z3.Contains(b, dot)))), "names")
    d = VDict()
    d.parts = [Part(("Str", "Str"), lambda a, b: stopped(a, b), lambda a, b: (SStr(z3.Concat(a, dot, b)), SReal(when(a, b))))]
    slept = []

    def sleep(it2, a, k):
        def go():
            ctx.mut_append(slept, it.resolve(a[0]))
            if v.choose("woken", "cancelled") == "cancelled":
                ctx.event("cancelled", 1)
                it.raise_(asyncio.CancelledError)

        return Coro(go, "sleep")

    it.lib["asyncio.sleep"] = sleep

    def delete(it2, a, k):
        a = [it.resolve(x) for x in a]
        ctx.event("delete", a[-2], a[-1])
        return SOpaque("Request", z3.Const("request", v.opaque("request", "Request").t.sort()))

    it.overrides[KC + ".delete_cluster"] = delete
    gathers = []

    def gather(it2, a, k):
        def go():
            w = v.choose("done", "fails", "cancelled")
            keep = it.resolve(k.get("return_exceptions", False))
            v.prove("one-failure-does-not-hide-the-others", z3.BoolVal(keep is True))
            ctx.mut_append(gathers, list(a))
            if w == "cancelled":
                ctx.event("cancelled", 1)
                it.raise_(asyncio.CancelledError)
            if w == "fails":
                it.raise_(RuntimeError, "gather")
            return VList([])

        return Coro(go, "gather")

    it.lib["asyncio.gather"] = gather
    WhileInv(v, lambda init, cur: {})
    o = v.obj(KC, log=noop_log(), stopped_clusters=d, completed_cluster_max_age=age, completed_cluster_cleanup_period=period)
    v.case(lambda ev: {"kind": "controller"})
    out = run(v, KC + ".cleanup_expired_cluster_records_loop", o)
    from pyvc.models import part_member

    cancelled = any(e[0] == "cancelled" for e in v.events())
    v.prove("a-failure-does-not-end-it", z3.BoolVal(out is None or (cancelled and not out.ok and out.exc_name() == "CancelledError")))
    a, b = z3.String("any_ns"), z3.String("any_name")
    ctx.know("Str", a)
    ctx.know("Str", b)
    old = z3.And(stopped(a, b), when(a, b) <= ms.t - age.t * 1000)
    for p in v.event_parts("delete"):
        xs = [ctx.fresh("d", STR if y == "Str" else z3.IntSort()) for y in p.sorts]
        for y, t in zip(p.sorts, xs):
            ctx.know(y, t)
        _, ns, name = p.val(*xs)
        g = p.guard(*xs)
        ns, name = it.sterm(ns), it.sterm(name)
        v.prove("completed-clusters-are-kept-long-enough", z3.Implies(g, z3.And(stopped(ns, name), when(ns, name) <= ms.t - age.t * 1000)))
    hit = z3.Or([z3.BoolVal(False)] + [part_member(it, Part(p.sorts, p.guard, lambda *xs, p=p: SStr(z3.Concat(it.sterm(p.val(*xs)[1]), dot, it.sterm(p.val(*xs)[2]))), None), SStr(z3.Concat(a, dot, b))) for p in v.event_parts("delete")])
    if slept:
        v.prove("old-records-are-deleted", z3.Implies(old, hit))
        v.prove("looks-again-after-the-period", z3.And(z3.BoolVal(len(slept) == 1), same(v, slept[0], period)))
