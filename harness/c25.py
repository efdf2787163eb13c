"""Random documents and pod configurations on the real code."""
import copy
import logging
import random

from dask_gateway_server.backends.kubernetes import controller as KC
from dask_gateway_server.backends.kubernetes import utils as KU
from dask_gateway_server.backends.kubernetes.backend import KubeClusterConfig
from dask_gateway_server.utils import FrozenAttrDict


def cases(tier, seed):
    rng = random.Random(seed)
    n = {"quick": 6000, "deep": 40000, "thorough": 300000}[tier]
    for i in range(n):
        yield {"kind": "merge" if i % 3 else "pod", "seed": rng.randrange(1 << 30)}


def run(case):
    if case["kind"] not in ("merge", "pod"):
        return []
    fn = merge if case["kind"] == "merge" else pod
    for s in [case["seed"]] if "seed" in case else range(600):
        out = []
        fn(random.Random(s), lambda c, m: out.append((c, m)))
        if out:
            return out
    return []


def doc(rng, depth=3):
    return {k: value(rng, depth - 1) for k in rng.sample(["a", "b", "c", "d", "name", ""], rng.randint(0, 4))}


def value(rng, depth):
    r = rng.random()
    if depth > 0 and r < 0.35:
        return doc(rng, depth)
    if depth > 0 and r < 0.6:
        return [value(rng, depth - 1) for _ in range(rng.randint(0, 3))]
    return rng.choice([None, 0, 1, False, True, "", "x", "y", 1.5, [], {}])


def oracle(a, b):
    out = {}
    for k in list(a) + [k for k in b if k not in a]:
        if k not in b:
            out[k] = a[k]
        elif k not in a:
            out[k] = b[k]
        elif isinstance(a[k], dict) and isinstance(b[k], dict):
            out[k] = oracle(a[k], b[k])
        elif isinstance(a[k], list) and isinstance(b[k], list):
            out[k] = list(a[k]) + list(b[k])
        else:
            out[k] = b[k]
    return out


def eq(x, y):
    """Equality that tells 0, False and 0.0 apart."""
    if type(x) is not type(y):
        return False
    if isinstance(x, dict):
        return x.keys() == y.keys() and all(eq(x[k], y[k]) for k in x)
    if isinstance(x, list):
        return len(x) == len(y) and all(map(eq, x, y))
    return x == y


def merge(rng, bad):
    a, b = doc(rng), doc(rng)
    if rng.random() < 0.3:
        b = {**copy.deepcopy(a), **b}
    ca, cb = copy.deepcopy(a), copy.deepcopy(b)
    try:
        r = KU.merge_json_objects(a, b)
    except Exception as e:
        bad("merge_json_objects::merge-succeeds", f"{ca} with {cb}: {e!r}")
        return
    if not (eq(a, ca) and eq(b, cb)):
        bad("merge_json_objects::inputs-are-not-modified", f"{ca} with {cb} became {a} and {b}")
    want = oracle(ca, cb)
    if not eq(r, want):
        bad("merge_json_objects::exactly-the-recursive-merge", f"{ca} with {cb} gave {r} instead of {want}")


def plain(x):
    if isinstance(x, dict) or hasattr(x, "items"):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    return x


USERENV = ["MY_VAR", "PATH", "DASK_GATEWAY_API_URL", "DASK_GATEWAY_CLUSTER_NAME", "DASK_GATEWAY_API_TOKEN", "DASK_DISTRIBUTED__COMM__TLS__CA_FILE",
           "DASK_DISTRIBUTED__COMM__TLS__SCHEDULER__CERT", "DASK_DISTRIBUTED__COMM__TLS__SCHEDULER__KEY", "DASK_DISTRIBUTED__COMM__TLS__WORKER__CERT",
           "DASK_DISTRIBUTED__COMM__TLS__WORKER__KEY", "DASK_DISTRIBUTED__COMM__REQUIRE_ENCRYPTION"]


def make(rng):
    kw = {"image": f"img{rng.randint(0, 9)}", "image_pull_policy": rng.choice(["", "Always"]), "image_pull_secrets": rng.choice([[], [{"name": "s"}]]),
          "environment": {k: rng.choice([f"user{i}", f"user{i}", "", "0", "a b"]) for i, k in enumerate(rng.sample(USERENV, rng.randint(0, 6)))},
          "idle_timeout": rng.choice([0, 1.5, 60]), "adaptive_period": rng.choice([1, 3.5]), "worker_threads": rng.choice([1, 2, 7]),
          "scheduler_cmd": rng.choice([["sched"], ["run", "sched"]]), "worker_cmd": rng.choice([["work"], ["run", "work"]])}
    for w in ("scheduler", "worker"):
        kw[w + "_cores"] = rng.choice([1, 0.5, 2.25, 3.1415])
        kw[w + "_memory"] = rng.choice([1, 2**30, 3 * 2**29])
        if rng.random() < 0.6:
            kw[w + "_cores_limit"] = kw[w + "_cores"] * rng.choice([1, 2, 1.5])
            kw[w + "_memory_limit"] = kw[w + "_memory"] * rng.choice([1, 2])
        if rng.random() < 0.5:
            kw[w + "_extra_pod_config"] = rng.choice([{"tolerations": [{"key": "a"}]}, {"containers": [{"name": "side"}]}, {"restartPolicy": "Always"}, {"volumes": [{"name": "v"}], "hostIPC": True}])
        if rng.random() < 0.5:
            kw[w + "_extra_container_config"] = rng.choice([{"env": [{"name": "A", "value": "1"}]}, {"resources": {"limits": {"gpu": "1"}}}, {"workingDir": "/x", "volumeMounts": [{"name": "v"}]}, {"ports": [{"name": "x"}]}])
        kw[w + "_extra_pod_labels"] = rng.choice([{}, {"team": "t"}])
        kw[w + "_extra_pod_annotations"] = rng.choice([{}, {"note": "n"}])
    return kw


def controller(rng):
    c = KC.KubeController.__new__(KC.KubeController)
    KC.KubeController.__init__(c, config=None)
    c.log.setLevel(logging.CRITICAL)
    c.api_url = f"http://gw{rng.randint(0, 9)}/api"
    c.gateway_instance = f"inst{rng.randint(0, 9)}"
    c.common_labels = {"cl": "1"}
    c.common_annotations = {"ca": "1"}
    return c


def pod(rng, bad):
    c = controller(rng)
    kw = make(rng)
    cfg = FrozenAttrDict(KubeClusterConfig(**kw).to_dict())
    before = copy.deepcopy(plain(cfg._mapping if hasattr(cfg, "_mapping") else dict(cfg)))
    labels0 = dict(c.common_labels), dict(c.common_annotations)
    ns, name = rng.choice(["ns", "prod"]), f"c{rng.randint(0, 99)}"
    who = rng.choice(["scheduler", "worker"])
    p = c.make_pod(ns, name, cfg, is_worker=who == "worker") if who == "worker" else c.make_pod(ns, name, cfg)
    p2 = c.make_pod(ns, name, cfg, is_worker=who == "worker")
    p, p2 = plain(p), plain(p2)
    if p != p2 or (dict(c.common_labels), dict(c.common_annotations)) != labels0:
        bad("make_pod::inputs-are-not-modified", "a second pod of the same configuration differs")
    cmd = plain(c.get_worker_command(ns, name, cfg) if who == "worker" else c.get_scheduler_command(ns, name, cfg))
    env = plain(c.get_env(ns, name, cfg))
    f = lambda n: getattr(cfg, who + "_" + n)
    if who == "worker":
        env = env + [{"name": "DASK_GATEWAY_WORKER_NAME", "valueFrom": {"fieldRef": {"fieldPath": "metadata.name"}}}]
    con = {
        "image": cfg.image, "args": cmd, "env": env,
        "resources": {"requests": {"cpu": "%.3f" % f("cores"), "memory": str(f("memory"))}, "limits": {"cpu": "%.3f" % f("cores_limit"), "memory": str(f("memory_limit"))}},
        "volumeMounts": [{"name": "dask-credentials", "mountPath": "/etc/dask-credentials/", "readOnly": True}],
    }
    if "_cores_limit" and who + "_cores_limit" in kw:
        con["resources"]["limits"] = {"cpu": "%.3f" % kw[who + "_cores_limit"], "memory": str(kw[who + "_memory_limit"])}
    con["resources"]["requests"] = {"cpu": "%.3f" % kw[who + "_cores"], "memory": str(kw[who + "_memory"])}
    con = oracle(con, kw.get(who + "_extra_container_config", {}))
    got = p["spec"]["containers"][0]
    for k in con:
        if k in ("ports",):
            continue
        if got.get(k) != con[k]:
            bad(f"make_pod::container-{k}", f"{got.get(k)} instead of {con[k]} for {kw}")
    if "ports" in kw.get(who + "_extra_container_config", {}) and len(got["ports"]) < 2:
        bad("make_pod::container-overrides-are-merged", f"{got['ports']}")
    spec = oracle({"volumes": [{"name": "dask-credentials", "secret": {"secretName": c.make_secret_name(name)}}], "restartPolicy": "OnFailure" if who == "worker" else "Never",
                   "automountServiceAccountToken": False}, {k: v for k, v in kw.get(who + "_extra_pod_config", {}).items() if k != "containers"})
    if kw["image_pull_secrets"]:
        spec["imagePullSecrets"] = kw["image_pull_secrets"]
    for k in spec:
        if p["spec"].get(k) != spec[k]:
            bad(f"make_pod::pod-{k}", f"{p['spec'].get(k)} instead of {spec[k]} for {kw}")
    n = 1 + len(kw.get(who + "_extra_pod_config", {}).get("containers", []))
    if len(p["spec"]["containers"]) != n:
        bad("make_pod::pod-overrides-are-merged", f"{len(p['spec']['containers'])} containers")
    lab = {"cl": "1", "gateway.dask.org/instance": c.gateway_instance, "gateway.dask.org/cluster": name, "app.kubernetes.io/component": "dask-" + who, **kw[who + "_extra_pod_labels"]}
    if p["metadata"]["labels"] != lab:
        bad("make_pod::labels-identify-the-cluster", f"{p['metadata']['labels']} instead of {lab}")
    if p["metadata"]["annotations"] != {"ca": "1", **kw[who + "_extra_pod_annotations"]}:
        bad("make_pod::annotations", f"{p['metadata']['annotations']}")
    nm = p["metadata"].get("generateName" if who == "worker" else "name")
    if nm != (f"dask-worker-{name}-" if who == "worker" else f"dask-scheduler-{name}"):
        bad("make_pod::named-after-its-cluster", f"{nm}")
    if c.make_secret_name(name) == c.make_secret_name(name + "x"):
        bad("make_pod::credentials-of-its-own-cluster", "shared secret name")
    if before != plain(cfg._mapping if hasattr(cfg, "_mapping") else dict(cfg)):
        bad("make_pod::inputs-are-not-modified", "the configuration was changed")
