"""C04: the worker limit, and every place that must respect it."""
import z3

from pyvc.verify import *
from . import api, k8s
from .dbfuncs import register
from .traits import A_TRAITS, Traits, trait_node

register("C04")
api.register("C04", [(m, p) for m, p in api.KNOWN if p.endswith(("/scale", "/adapt"))])

BASE = "dask_gateway_server.backends.base.ClusterConfig"
CONFIGS = {
    "base": BASE,
    "local": "dask_gateway_server.backends.local.LocalClusterConfig",
    "yarn": "dask_gateway_server.backends.yarn.YarnClusterConfig",
    "pbs": "dask_gateway_server.backends.jobqueue.pbs.PBSClusterConfig",
    "slurm": "dask_gateway_server.backends.jobqueue.slurm.SlurmClusterConfig",
    "kube": "dask_gateway_server.backends.kubernetes.backend.KubeClusterConfig",
}
LIMITS = ["scheduler_memory", "worker_memory", "scheduler_cores", "worker_cores", "cluster_max_memory", "cluster_max_cores", "cluster_max_workers"]
A_CFG = A_TRAITS + ["memory and cores of workers and scheduler are positive (an administrator's or an option's value)", "fractional core counts are treated as exact"]


def mk(v, ci):
    """The values the traits were given."""
    it = v.it
    isf = {}
    for n in ("worker_cores", "scheduler_cores", "cluster_max_cores"):
        node, _ = trait_node(it, ci, n)
        isf[n] = ast_name(node) == "Float"
    vals = {}
    for n in ("worker_memory", "scheduler_memory"):
        vals[n] = v.int(n)
        v.assume(vals[n].t > 0)
    for n in ("worker_cores", "scheduler_cores"):
        vals[n] = v.real(n) if isf[n] else v.int(n)
        v.assume(vals[n].t > 0)
    vals["cluster_max_memory"] = it.resolve(v.dyn("cluster_max_memory", [("none", None), ("set", v.int("max_memory"))]))
    vals["cluster_max_cores"] = it.resolve(v.dyn("cluster_max_cores", [("none", None), ("set", v.real("max_cores") if isf["cluster_max_cores"] else v.int("max_cores"))]))
    given = v.choose("unset", "none", "given")
    if given == "none":
        vals["cluster_max_workers"] = None
    elif given == "given":
        vals["cluster_max_workers"] = v.int("max_workers")
        v.assume(vals["cluster_max_workers"].t >= 0)
    v.assume(z3.Int("max_memory") >= 0)
    v.assume(z3.Real("max_cores") >= 0)
    return vals


def ast_name(node):
    f = node.func
    return getattr(f, "id", None) or f.attr


def config(v, label, qual):
    it, ctx = v.it, v.ctx
    v.expect_covers("limited", "refused", "unlimited")
    ci = v.cls(qual)
    vals = mk(v, ci)
    given = dict(vals)
    tr = Traits(v, ci, vals)

    def base_init(it2, a, k):
        tr.passive(LIMITS)

    it.overrides["super:traitlets.config.Configurable.__init__"] = base_init
    it.overrides["super:traitlets.config.Configurable.trait_names"] = lambda it2, a, k: VList(list(LIMITS))
    fmt = v.native(lambda it2, a, k: SStr(z3.String("formatted")))
    it.overrides["dask_gateway_server.utils.format_bytes"] = lambda it2, a, k: SStr(z3.String("formatted"))

    def case(ev):
        return {"kind": "config", "cls": label, **{n: (ev(given[n]) if n in given else "unset") for n in LIMITS}}

    v.case(case)
    init = ci.lookup("__init__")[0]
    r = v.attempt(lambda: it.call(init, [tr.o], {}))
    R = lambda x: None if x is None else z3.ToReal(x.t) if isinstance(x, (SInt, SBool)) else x.t if is_sym(x) else z3.RealVal(x)
    sm, wm, cm = R(given["scheduler_memory"]), R(given["worker_memory"]), R(given["cluster_max_memory"])
    sc, wc, cc = R(given["scheduler_cores"]), R(given["worker_cores"]), R(given["cluster_max_cores"])
    over = z3.Or(([sm > cm] if cm is not None else []) + ([sc > cc] if cc is not None else []) + [z3.BoolVal(False)])
    if r.kind == "raise":
        v.cover("refused")
        v.prove("refused-only-when-the-scheduler-exceeds-a-limit", over)
        return
    v.prove("refused-when-the-scheduler-exceeds-a-limit", z3.Not(over))
    d = v.attempt(lambda: it.call(ci.lookup("to_dict")[0], [tr.o], {}))
    if not v.ok_or(d, "recorded"):
        return
    x = it.resolve(it.getitem(d.val, "cluster_max_workers"))
    explicit = given.get("cluster_max_workers")
    if cm is None and cc is None and explicit is None:
        v.cover("unlimited")
        v.prove("no-limit-unless-configured", z3.BoolVal(x is None))
        return
    if x is None or not isinstance(x, (int, SInt)):
        v.prove("limited", z3.BoolVal(False))
        return
    n = z3.IntVal(x) if isinstance(x, int) else x.t
    v.cover("limited")
    v.prove("limit-not-negative", n >= 0)
    nr = z3.ToReal(n)
    fits = lambda k: z3.And(([sm + k * wm <= cm] if cm is not None else []) + ([sc + k * wc <= cc] if cc is not None else []) + [z3.BoolVal(True)])
    v.prove("scheduler-and-workers-fit", fits(nr))
    capped = z3.BoolVal(True) if explicit is None else n <= explicit.t
    v.prove("capped-by-the-explicit-limit", capped)
    v.prove("largest-number-of-workers", z3.Or(z3.Not(fits(nr + 1)), z3.BoolVal(False) if explicit is None else n >= explicit.t))
    # the record is what the cluster is created with
    for f in LIMITS:
        g = it.resolve(it.getitem(d.val, f))
        if f != "cluster_max_workers":
            v.prove("recorded-as-given", z3.BoolVal(g is given[f]) if g is given[f] or not is_sym(g) else v.eq(g, given[f]))


for _label, _qual in CONFIGS.items():

    def _f(v, label=_label, qual=_qual):
        return config(v, label, qual)

    contract("C04", _qual, "limit_" + _label, weight=3, assumes=A_CFG)(_f)


# ------------------------------------------------------------- memory limits
ML = "dask_gateway_server.traitlets.MemoryLimit"


@contract("C04", ML + ".validate", "memory_limit", assumes=["float() of a text is an arbitrary number or fails; machine floats treated as exact"])
def memory_limit(v):
    it = v.it
    text = v.str("text")
    x = v.dyn("value", [("int", v.int("i")), ("float", v.real("f")), ("text", text)])
    head = z3.SubString(text.t, 0, z3.Length(text.t) - 1)
    ok = z3.Function("float_parses", z3.StringSort(), z3.BoolSort())(head)
    num = z3.Function("float_parse", z3.StringSort(), z3.RealSort())(head)
    v.assume(z3.Not(z3.Function("float_parses", z3.StringSort(), z3.BoolSort())(z3.StringVal(""))))
    it.lib["traitlets.TraitError"] = lambda it2, a, k: it.make_exc(ExtV("traitlets.TraitError"), *a)
    v.case(lambda ev: {"kind": "memory", "value": ev(x)})
    r = v.attempt(lambda: it.call(v.cls(ML).lookup("validate")[0], [v.obj(ML), v.opaque("owner"), x]))
    val = it.resolve(x)
    if isinstance(val, SInt):
        if v.ok_or(r, "number-of-bytes-accepted"):
            v.prove("number-of-bytes-unchanged", v.eq(r.val, val))
        return
    if isinstance(val, SReal):
        if v.ok_or(r, "number-of-bytes-accepted"):
            got = it.resolve(r.val)
            v.prove("whole-number", z3.BoolVal(isinstance(got, (int, SInt))))
            v.prove("truncated", z3.And(z3.ToReal(got.t) <= z3.If(val.t >= 0, val.t, val.t + 1), z3.ToReal(got.t) >= z3.If(val.t >= 0, val.t - 1, val.t)))
        return
    n = z3.Length(text.t)
    suffix = z3.SubString(text.t, n - 1, 1)
    if r.kind == "raise":
        v.prove("units-accepted", z3.Or(z3.Not(ok), z3.Not(z3.Or([suffix == z3.StringVal(c) for c in "KMGT"]))))
        return
    v.prove("only-known-units", z3.Or([suffix == z3.StringVal(c) for c in "KMGT"]))
    v.prove("number-before-the-unit", ok)
    got = it.resolve(r.val)
    mult = z3.If(suffix == "K", z3.RealVal(2**10), z3.If(suffix == "M", z3.RealVal(2**20), z3.If(suffix == "G", z3.RealVal(2**30), z3.RealVal(2**40))))
    want = num * mult
    gt = z3.ToReal(got.t)
    v.prove("value-in-bytes", z3.And(gt <= z3.If(want >= 0, want, want + 1), gt >= z3.If(want >= 0, want - 1, want), z3.Or(want < 0, gt > want - 1), z3.Or(want >= 0, gt < want + 1)))


# ----------------------------------------------------- kubernetes heartbeats
KB = "dask_gateway_server.backends.kubernetes.backend.KubeBackend"


def kube_heartbeat(v):
    it, ctx = v.it, v.ctx
    k8s.setup(it)
    ns, nm = v.str("namespace"), v.str("name")
    for s in (ns, nm):
        v.assume(z3.Not(z3.Contains(s.t, z3.StringVal("."))))
    cname = SStr(z3.Concat(ns.t, z3.StringVal("."), nm.t))
    lim = v.dyn("max_workers", [("none", None), ("int", v.int("limit"))])
    v.assume(z3.Int("limit") >= 0)
    absent = v.choose("known", "unknown") == "unknown"
    cluster = v.fake("Cluster", config=v.mdict(cluster_max_workers=lim))
    patches = []

    def patch(it2, a, k):
        patches.append(a)
        if v.choose("ok", "error") != "ok":
            raise k8s.api_error(it, SInt(z3.Int("http_status")))

    clusters = v.fake("Clusters", get=v.native(lambda it2, a, k: (None if absent else cluster) if v.ctx.branch(v.eq(a[0], cname)) else it.unsupported("another cluster")))
    from pyvc.libs import noop_log

    be = v.obj(KB, clusters=clusters, log=noop_log(), crd_version=v.str("crd_version"), custom_client=v.fake("Custom", patch_namespaced_custom_object=v.afn(patch)))
    count = v.int("count", 0)
    msg = v.pydict({"count": count, "active_workers": VList([]), "closing_workers": VList([]), "closed_workers": VList([])})
    v.case(lambda ev: {"kind": "kube_heartbeat", "count": ev(count), "limit": ev(lim), "known": not absent})
    r = v.attempt(lambda: it.await_(it.call(it.getattr(be, "on_cluster_heartbeat"), [cname, msg])))
    if r.kind == "raise":
        v.prove("fails-only-when-kubernetes-does", z3.BoolVal(bool(patches)))
        v.prove("deleted-meanwhile-is-no-error", z3.Int("http_status") != 404)
    v.prove("one-update", z3.BoolVal(len(patches) == (0 if absent else 1)))
    if patches:
        a = patches[0]
        v.prove("updates-that-cluster", z3.And(v.eq(a[2], ns), v.eq(a[4], nm), v.eq(a[3], "daskclusters")))
        ops = it.to_pylist(a[5])
        v.prove("sets-the-replicas-only", z3.BoolVal(len(ops) == 1 and it.resolve(it.getitem(ops[0], "path")) == "/spec/replicas"))
        n = it.resolve(it.getitem(ops[0], "value"))
        L = it.resolve(lim)
        if L is not None:
            v.prove("replicas-within-limit", v.cmp("<=", n, L))
            v.prove("allowed-count-unchanged", z3.Implies(count.t <= L.t, v.eq(n, count)))
        else:
            v.prove("allowed-count-unchanged", v.eq(n, count))


contract("C04", KB + ".on_cluster_heartbeat", "kube_heartbeat", assumes=["the Kubernetes API applies a patch or answers an error status"])(kube_heartbeat)
