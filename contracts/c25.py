"""C25: merging of pod templates, and the generated pods."""
import ast

import z3

from pyvc.verify import *
from .loops import StopBody, run

KU = "dask_gateway_server.backends.kubernetes.utils"
KC = "dask_gateway_server.backends.kubernetes.controller.KubeController"
STR = z3.StringSort()
J = z3.DeclareSort("value")
BOOLA = z3.ArraySort(STR, z3.BoolSort())
ISD, ISL = z3.Function("is_dict", J, z3.BoolSort()), z3.Function("is_list", J, z3.BoolSort())
M, CAT = z3.Function("merged", J, J, J), z3.Function("appended", J, J, J)
A_JSON = ["documents are JSON values with string keys, of finite depth"]


class Docs:
    """JSON objects with an unbounded number of members."""

    def __init__(self, v):
        self.v, self.it, self.ctx = v, v.it, v.ctx
        it = v.it
        self.sort = v.opaque("probe", "Json").t.sort()
        S = self.sort
        self.isd, self.isl = z3.Function("is_dict", S, z3.BoolSort()), z3.Function("is_list", S, z3.BoolSort())
        self.m, self.cat = z3.Function("merged", S, S, S), z3.Function("appended", S, S, S)
        it.attr_hooks["isinstance:Json"] = self.isinstance
        it.attr_hooks["binop:Json"] = self.binop
        it.overrides[KU + ".merge_json_objects"] = self.merge
        v.ctx.state["for_hook"] = self.for_hook
        self.copies, self.inputs = [], []

    def j(self, t):
        return SOpaque("Json", t)

    def isinstance(self, it, x, c):
        if c is dict:
            return it.ctx.branch(self.isd(x.t))
        if c is list:
            return it.ctx.branch(z3.And(self.isl(x.t), z3.Not(self.isd(x.t))))
        it.unsupported("isinstance of a document")

    def binop(self, it, op, a, b):
        if op == "+" and isinstance(a, SOpaque) and isinstance(b, SOpaque):
            self.v.prove("only-lists-are-appended", z3.And(self.isl(a.t), self.isl(b.t), z3.Not(self.isd(a.t)), z3.Not(self.isd(b.t))))
            return self.j(self.cat(a.t, b.t))
        it.unsupported("operation on documents")

    def merge(self, it, a, k):
        a = [it.resolve(x) for x in list(a) + [k[x] for x in ("a", "b") if x in k]]
        if not all(isinstance(x, SOpaque) for x in a):
            it.unsupported("nested merge of a changed document")
        self.v.prove("only-documents-are-merged-recursively", z3.And(self.isd(a[0].t), self.isd(a[1].t)))
        return self.j(self.m(a[0].t, a[1].t))

    def doc(self, P, V, mutable):
        it, ctx = self.it, self.ctx
        o = Obj(Fake("document"), {"__pytype__": dict})
        o.attrs["g"] = {"P": P, "V": V}
        st = lambda: o.attrs["g"]

        def upd(**kw):
            if not mutable:
                self.v.prove("inputs-are-not-modified", z3.BoolVal(False))
            ctx.mut_dict(o.attrs, "g", {**st(), **kw})

        key = lambda x: it.sterm(it.resolve(x))

        def get(it2, a, k):
            t = key(a[0])
            if not ctx.branch(z3.Select(st()["P"], t)):
                raise PyRaise(it.make_exc(KeyError, a[0]))
            return self.j(z3.Select(st()["V"], t))

        def get_default(it2, a, k):
            t = key(a[0])
            if not ctx.branch(z3.Select(st()["P"], t)):
                return a[1] if len(a) > 1 else None
            return self.j(z3.Select(st()["V"], t))

        def put(it2, a, k):
            t, x = key(a[0]), it.resolve(a[1])
            if not isinstance(x, SOpaque):
                it.unsupported("value of a document")
            upd(P=z3.Store(st()["P"], t, z3.BoolVal(True)), V=z3.Store(st()["V"], t, x.t))

        def pop(it2, a, k):
            r = get_default(it2, a, k) if len(a) > 1 else get(it2, a, k)
            upd(P=z3.Store(st()["P"], key(a[0]), z3.BoolVal(False)))
            return r

        def copy(it2, a, k):
            c = self.doc(st()["P"], st()["V"], True)
            ctx.mut_append(self.copies, c)
            return c

        def truth(it2, a, k):
            g = st()
            if "nonempty" not in g:
                ne = z3.Bool("nonempty")
                w = z3.String("some_key")
                self.ctx.assume(z3.If(ne, z3.Select(g["P"], w), g["P"] == z3.K(STR, z3.BoolVal(False))))
                ctx.mut_dict(o.attrs, "g", {**g, "nonempty": ne})
                g = st()
            return it.mkbool(g["nonempty"])

        for n, f in [("__getitem__", get), ("get", get_default), ("__setitem__", put), ("pop", pop), ("copy", copy), ("__copy__", copy), ("__bool__", truth),
                     ("__contains__", lambda it2, a, k: it.mkbool(z3.Select(st()["P"], key(a[0])))),
                     ("items", lambda it2, a, k: Obj(Fake("items"), {"of": o, "what": "items"})), ("keys", lambda it2, a, k: Obj(Fake("items"), {"of": o, "what": "keys"}))]:
            o.attrs[n] = self.v.native(f)
        return o

    def spec(self, k, S):
        """Member k once the keys of b in S were merged."""
        a, b = self.a, self.b
        has_b = z3.And(z3.Select(S, k), z3.Select(b["P"], k))
        av, bv = z3.Select(a["V"], k), z3.Select(b["V"], k)
        both = z3.If(z3.And(self.isd(av), self.isd(bv)), self.m(av, bv), z3.If(z3.And(self.isl(av), self.isl(bv), z3.Not(self.isd(av)), z3.Not(self.isd(bv))), self.cat(av, bv), bv))
        return z3.Or(z3.Select(a["P"], k), has_b), z3.If(has_b, z3.If(z3.Select(a["P"], k), both, bv), av)

    def holds(self, o, k, S):
        p, x = self.spec(k, S)
        g = o.attrs["g"]
        return z3.And(z3.Select(g["P"], k) == p, z3.Implies(p, z3.Select(g["V"], k) == x))

    def for_hook(self, it, n, env, is_async):
        """Invariant: after the members S of b were visited, the copy holds
        exactly the members of a and those of S, merged."""
        v, ctx = self.v, self.ctx
        src = it.resolve(it.ev(n.iter, env))
        if isinstance(src, Obj) and src.attrs.get("__pytype__") is dict:
            src = Obj(Fake("items"), {"of": src, "what": "keys"})
        if not (isinstance(src, Obj) and "what" in src.attrs):
            it.unsupported("loop", n)
        if src.attrs["of"] is not self.bo or len(self.copies) > 1:
            it.unsupported("loop over another document", n)
        out = self.copies[0] if self.copies else self.ao
        y = z3.String("any_key")
        none = z3.K(STR, z3.BoolVal(False))
        v.aux("entry", self.holds(out, y, none))
        if v.choose("iteration", "exit") == "exit":
            out2 = {"P": z3.Const("P_end", BOOLA), "V": z3.Const("V_end", z3.ArraySort(STR, self.sort))}
            ctx.mut_dict(out.attrs, "g", out2)
            self.everywhere(out, z3.K(STR, z3.BoolVal(True)))
            return True
        S = z3.Const("visited", BOOLA)
        ctx.mut_dict(out.attrs, "g", {"P": z3.Const("P_now", BOOLA), "V": z3.Const("V_now", z3.ArraySort(STR, self.sort))})
        k = z3.String("next_key")
        v.assume(z3.And(z3.Select(self.b["P"], k), z3.Not(z3.Select(S, k))))
        v.assume(self.holds(out, k, S))
        v.assume(self.holds(out, y, S))
        if ctx.check() == z3.unsat:
            raise Infeasible
        item = SStr(k) if src.attrs["what"] == "keys" else (SStr(k), self.j(z3.Select(self.b["V"], k)))
        it.assign(n.target, item, env)
        try:
            it.ex_block(n.body, env)
        except ContinueEx:
            pass
        except BreakEx:
            it.unsupported("break", n)
        v.cover("member-merged")
        v.prove("override-value-wins-and-nothing-else-changes", z3.And(self.holds(out, k, z3.Store(S, k, z3.BoolVal(True))), self.holds(out, y, z3.Store(S, k, z3.BoolVal(True)))))
        v.rep.paths += 1
        raise StopBody

    def everywhere(self, o, S):
        for k in (z3.String("goal_key"),):
            self.v.assume(self.holds(o, k, S))


@contract("C25", KU + ".merge_json_objects", assumes=A_JSON + ["the recursive call obeys the same contract (induction on the depth of the documents)"])
def merge(v):
    fn = v.func(KU + ".merge_json_objects")
    d = Docs(v)
    v.expect_covers("merged", "member-merged")
    mk = lambda n: {"P": z3.Const("P_" + n, BOOLA), "V": z3.Const("V_" + n, z3.ArraySort(STR, d.sort))}
    d.a, d.b = mk("a"), mk("b")
    d.ao, d.bo = d.doc(d.a["P"], d.a["V"], False), d.doc(d.b["P"], d.b["V"], False)
    x = z3.Const("xj", d.sort)
    v.case(lambda ev: {"kind": "merge"})
    out = run(v, fn, d.ao, d.bo)
    if out is None:
        return
    if not v.ok_or(out, "merge-succeeds"):
        return
    r = v.it.resolve(out.val)
    if not (isinstance(r, Obj) and r.attrs.get("__pytype__") is dict):
        v.prove("merges-to-a-document", z3.BoolVal(False))
        return
    v.cover("merged")
    v.prove("exactly-the-recursive-merge", d.holds(r, z3.String("goal_key"), z3.K(STR, z3.BoolVal(True))))


# ---------------------------------------------------------------- pods

class PodWorld:
    def __init__(self, v):
        self.v, self.it = v, v.it
        it = v.it
        self.calls = []

        def merge(it2, a, k):
            a = list(a) + [k[x] for x in ("a", "b") if x in k]
            r = Obj(Fake("merged"), {"base": it.resolve(a[0]), "extra": it.resolve(a[1])})
            return r

        it.overrides[KU + ".merge_json_objects"] = merge
        it.overrides["dask_gateway_server.backends.kubernetes.controller.merge_json_objects"] = merge
        g = z3.Function("is_user_env", STR, z3.BoolSort())
        val = z3.Function("user_env", STR, STR)
        self.user_has, self.user_env = g, val
        env = VDict()
        env.parts = [Part(["Str"], lambda x: g(x), lambda x: (SStr(x), SStr(val(x))))]
        self.env = env
        self.labels, self.annots = v.pydict({"common-label": v.str("common_label")}), v.pydict({"common-annotation": v.str("common_annotation")})
        self.o = v.obj(KC, api_url=v.str("api_url"), gateway_instance=v.str("instance"), common_labels=self.labels, common_annotations=self.annots,
                       proxy_prefix=v.str("prefix"), log=v.it.noop_log if hasattr(v.it, "noop_log") else None)
        self.extra = {}
        c = {"environment": env, "image": v.str("image"), "image_pull_policy": v.str("pull_policy")}
        for who in ("scheduler", "worker"):
            c[who + "_memory"], c[who + "_memory_limit"] = v.int(who + "_memory"), v.int(who + "_memory_limit")
            c[who + "_cores"], c[who + "_cores_limit"] = v.real(who + "_cores"), v.real(who + "_cores_limit")
            c[who + "_cmd"] = VList([v.str(who + "_cmd")])
        c["worker_threads"] = v.int("worker_threads")
        for n in ("idle_timeout", "adaptive_period"):
            c[n] = v.real(n)
        self.c = c

    def config(self, who):
        v = self.v
        c = self.c
        secrets = v.choose("no-secrets", "secrets") == "secrets"
        c["image_pull_secrets"] = VList([v.opaque("pull_secret")]) if secrets else VList([])
        both = v.choose("plain", "extra-container", "extra-pod", "extra-both")
        for w in ("scheduler", "worker"):
            c[w + "_extra_pod_config"] = v.pydict({"k": v.opaque(w + "_pod")} if both in ("extra-pod", "extra-both") else {})
            c[w + "_extra_container_config"] = v.pydict({"k": v.opaque(w + "_container")} if both in ("extra-container", "extra-both") else {})
            c[w + "_extra_pod_labels"] = v.pydict({"extra-label": v.str(w + "_label")})
            c[w + "_extra_pod_annotations"] = v.pydict({"extra-annotation": v.str(w + "_annotation")})
        return v.fake("Config", **c)

    def unmerge(self, x, extra, clause):
        """The document before the administrator's overrides."""
        v, it = self.v, self.it
        x = it.resolve(x)
        if isinstance(x, Obj) and "base" in x.attrs:
            v.prove(clause, z3.BoolVal(x.attrs["extra"] is extra))
            return it.resolve(x.attrs["base"])
        v.prove(clause, z3.BoolVal(not extra.d))
        return x


def at(it, d, *path):
    for p in path:
        d = it.resolve(d)
        try:
            d = it.getitem(d, p)
        except PyRaise:
            return MISS
    return it.resolve(d)


MISS = Obj(Fake("missing"), {})


def same(v, a, b):
    """Structural equality; b is built from the specification."""
    it = v.it
    a = it.resolve(a)
    if isinstance(b, dict):
        if not isinstance(a, VDict) or a.parts or {k for k, _ in a.d.values()} != set(b):
            return z3.BoolVal(False)
        return z3.And([same(v, it.getitem(a, k), x) for k, x in b.items()] or [z3.BoolVal(True)])
    if isinstance(b, list):
        if not isinstance(a, VList) or len(a.items) != len(b):
            return z3.BoolVal(False)
        return z3.And([same(v, x, y) for x, y in zip(a.items, b)] or [z3.BoolVal(True)])
    if a is MISS:
        return z3.BoolVal(False)
    if a is b:
        return z3.BoolVal(True)
    if isinstance(a, (VDict, VList, Obj)) or isinstance(b, (VDict, VList, Obj)):
        return z3.BoolVal(False)
    e = it.eq(a, b)
    return z3.BoolVal(e) if isinstance(e, bool) else e


GATEWAY_LABELS = {"gateway.dask.org/instance", "gateway.dask.org/cluster", "app.kubernetes.io/component"}


def pod(v, who, pid="C25"):
    from pyvc.models import to_str

    it, ctx = v.it, v.ctx
    w = PodWorld(v)
    c = w.config(who)
    ns, name = v.str("namespace"), v.str("name")
    sch = who == "scheduler"
    cmd = VList([v.opaque("cmd")])
    asked = []

    def command(kind):
        def fn(it2, a, k):
            a = list(a) + list(k.values())
            v.prove("command-of-its-own-cluster", z3.And(v.eq(a[0], ns), v.eq(a[1], name), z3.BoolVal(a[2] is c)))
            ctx.mut_append(asked, kind)
            return cmd
        return v.native(fn)

    w.o.attrs["get_scheduler_command"], w.o.attrs["get_worker_command"] = command("scheduler"), command("worker")
    env = VList([v.opaque("env")])

    def get_env(it2, a, k):
        a = list(a) + list(k.values())
        v.prove("environment-of-its-own-cluster", z3.And(v.eq(a[0], ns), v.eq(a[1], name), z3.BoolVal(a[2] is c)))
        return VList(list(env.items))

    w.o.attrs["get_env"] = v.native(get_env)
    v.case(lambda ev: {"kind": "pod", "who": who})
    out = v.run(KC + ".make_pod", w.o, ns, name, c, **({} if sch else {"is_worker": True}))
    if not v.ok_or(out, "pod-made"):
        return
    v.cover("made")
    p = out.val
    f = lambda n: w.c[who + "_" + n]
    spec = w.unmerge(at(it, p, "spec"), f("extra_pod_config"), "pod-overrides-are-merged")
    cs = at(it, spec, "containers")
    if not (isinstance(cs, VList) and len(cs.items) == 1):
        v.prove("one-container", z3.BoolVal(False))
        return
    con = w.unmerge(cs.items[0], f("extra_container_config"), "container-overrides-are-merged")
    v.prove("configured-image", same(v, at(it, con, "image"), w.c["image"]))
    v.prove("own-command", z3.And(same(v, at(it, con, "args"), cmd), z3.BoolVal(asked == [who])))
    R = lambda x: to_str(it, x, -1, ".3f")
    T = lambda x: to_str(it, x)
    v.prove("requested-resources", same(v, at(it, con, "resources", "requests"), {"cpu": R(f("cores")), "memory": T(f("memory"))}))
    v.prove("resource-limits", same(v, at(it, con, "resources", "limits"), {"cpu": R(f("cores_limit")), "memory": T(f("memory_limit"))}))
    v.prove("mounts-the-credentials", same(v, at(it, con, "volumeMounts"), [{"name": "dask-credentials", "mountPath": "/etc/dask-credentials/", "readOnly": True}]))
    secret = v.attempt(lambda: it.call(it.getattr(w.o, "make_secret_name"), [name])).val
    v.prove("credentials-of-its-own-cluster", same(v, at(it, spec, "volumes"), [{"name": "dask-credentials", "secret": {"secretName": secret}}]))
    v.prove("no-access-to-the-kubernetes-api", same(v, at(it, spec, "automountServiceAccountToken"), False))
    v.prove("restart-policy", same(v, at(it, spec, "restartPolicy"), "Never" if sch else "OnFailure"))
    wenv = [env.items[0]] if sch else [env.items[0], {"name": "DASK_GATEWAY_WORKER_NAME", "valueFrom": {"fieldRef": {"fieldPath": "metadata.name"}}}]
    v.prove("environment", same(v, at(it, con, "env"), wenv))
    if w.c["image_pull_secrets"].items:
        v.prove("pull-secrets", same(v, at(it, spec, "imagePullSecrets"), w.c["image_pull_secrets"]))
    labels = {"common-label": it.getitem(w.labels, "common-label"), "extra-label": it.getitem(f("extra_pod_labels"), "extra-label"),
              "gateway.dask.org/instance": w.o.attrs["gateway_instance"], "gateway.dask.org/cluster": name, "app.kubernetes.io/component": "dask-" + who}
    v.prove("labels-identify-the-cluster", same(v, at(it, p, "metadata", "labels"), labels))
    v.prove("annotations", same(v, at(it, p, "metadata", "annotations"), {"common-annotation": it.getitem(w.annots, "common-annotation"), "extra-annotation": it.getitem(f("extra_pod_annotations"), "extra-annotation")}))
    v.prove("shared-labels-not-modified", z3.BoolVal(len(w.labels.d) == 1 and len(w.annots.d) == 1 and len(f("extra_pod_labels").d) == 1))
    nm = at(it, p, "metadata", "name" if sch else "generateName")
    want = it.binop("+", it.binop("+", f"dask-{who}-", name), "" if sch else "-")
    v.prove("named-after-its-cluster", same(v, nm, want))


for _w in ("scheduler", "worker"):

    @contract("C25", KC + ".make_pod", "make_pod_" + _w)
    def _f(v, w=_w):
        pod(v, w)
