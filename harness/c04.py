"""Worker limits: of configurations, of requests, and of heartbeats."""
import asyncio
import logging
import random

from traitlets.config import Config, Configurable

from harness import apisim, dbsim

_api = apisim.harness("C04")
_db = dbsim.harness("C04")
PARALLEL = 4

G = 2**30
INF = float("inf")


def classes():
    from dask_gateway_server.backends.base import ClusterConfig
    from dask_gateway_server.backends.jobqueue.pbs import PBSClusterConfig
    from dask_gateway_server.backends.jobqueue.slurm import SlurmClusterConfig
    from dask_gateway_server.backends.kubernetes.backend import KubeClusterConfig
    from dask_gateway_server.backends.local import LocalClusterConfig

    return {"base": ClusterConfig, "local": LocalClusterConfig, "pbs": PBSClusterConfig, "slurm": SlurmClusterConfig, "kube": KubeClusterConfig}


class Parent(Configurable):
    pass


def cases(tier, seed):
    rng = random.Random(seed)
    for _ in range({"quick": 60, "deep": 400, "thorough": 4000}[tier]):
        yield {"kind": "configs", "seed": rng.randrange(1 << 30), "n": 100}
    yield {"kind": "memories"}
    for n in (0, 1, 3, 4, 5, 1000):
        for lim in (None, 0, 1, 4):
            for known in (True, False):
                yield {"kind": "kube_heartbeat", "count": n, "limit": lim, "known": known}
    api = apisim.cases(tier, seed)
    for c in dbsim.cases(tier, seed):
        yield c
        for _ in range(20):
            yield next(api)


def run(case):
    k = case["kind"]
    out = []
    bad = lambda c, m: out.append((c, m))
    if k == "configs":
        rng = random.Random(case["seed"])
        for _ in range(case["n"]):
            cfg, kw, cls = random_config(rng)
            config(bad, cls, cfg, kw)
            if out:
                return out
        return out
    if k == "config":
        vals = {n: x for n, x in case.items() if n not in ("kind", "cls") and x != "unset"}
        for split in (0, 1, 2):
            cfg = {n: x for i, (n, x) in enumerate(vals.items()) if split == 0 or (split == 2 and i % 2)}
            kw = {n: x for n, x in vals.items() if n not in cfg}
            config(bad, case["cls"], cfg, kw)
        return out
    if k in ("memories", "memory"):
        memories(bad, case.get("value"))
        return out
    if k == "kube_heartbeat":
        kube_heartbeat(bad, case["count"], case["limit"], case["known"])
        return out
    if k in ("sim", "db", "any"):
        return _db(case)
    return _api(case)


def random_config(rng):
    cls = rng.choice(["base", "base", "local", "pbs", "slurm", "kube"])
    fl = [0.5, 1.5] if cls == "kube" else []
    names = dict(
        cluster_max_workers=[None, 0, 1, 3, 100], cluster_max_cores=[None, 1.0, 4.5, 10.0, 33.0], cluster_max_memory=[None, 2 * G, 8 * G, "64 G", 7 * G],
        worker_cores=[1, 2, 4] + fl, worker_memory=[G, 3 * G, "1 G"], scheduler_cores=[1, 2] + fl, scheduler_memory=[G, 2 * G],
    )
    ks = list(names)
    rng.shuffle(ks)
    cfg = {k: rng.choice(names[k]) for k in ks if rng.random() < 0.5}
    rng.shuffle(ks)
    kw = {k: rng.choice(names[k]) for k in ks if rng.random() < 0.4}
    return cfg, kw, cls


def bytes_of(x):
    return int(x[:-1]) * G if isinstance(x, str) else x


def config(bad, cls, cfg, kw):
    C = classes().get(cls) or classes()["base"]
    c = Config()
    for k, val in cfg.items():
        setattr(c[C.__name__], k, val)
    f = dict(cluster_max_workers=None, cluster_max_cores=None, cluster_max_memory=None, worker_cores=1, worker_memory=2 * G, scheduler_cores=1, scheduler_memory=2 * G)
    f.update(cfg)
    f.update(kw)
    for k in ("cluster_max_memory", "worker_memory", "scheduler_memory"):
        f[k] = bytes_of(f[k])
    over = (f["cluster_max_memory"] is not None and f["scheduler_memory"] > f["cluster_max_memory"]) or (f["cluster_max_cores"] is not None and f["scheduler_cores"] > f["cluster_max_cores"])
    what = f"{C.__name__} configured with {cfg} and options {kw}"
    try:
        o = C(parent=Parent(config=c), **kw)
        d = o.to_dict()
    except Exception as e:
        if not over:
            bad("ClusterConfig::refused-only-when-the-scheduler-exceeds-a-limit", f"{what}: {e!r}")
        return
    if over:
        bad("ClusterConfig::refused-when-the-scheduler-exceeds-a-limit", what)
        return
    lim = INF if f["cluster_max_workers"] is None else f["cluster_max_workers"]
    if f["cluster_max_cores"] is not None:
        lim = min(lim, (f["cluster_max_cores"] - f["scheduler_cores"]) // f["worker_cores"])
    if f["cluster_max_memory"] is not None:
        lim = min(lim, (f["cluster_max_memory"] - f["scheduler_memory"]) // f["worker_memory"])
    lim = None if lim == INF else int(lim)
    if d["cluster_max_workers"] != lim:
        bad("ClusterConfig::largest-number-of-workers", f"{what}: limit {d['cluster_max_workers']} instead of {lim}")
    for k in f:
        if k != "cluster_max_workers" and d[k] != f[k]:
            bad("ClusterConfig::recorded-as-given", f"{what}: {k} is {d[k]}")


def memories(bad, value=None):
    from dask_gateway_server.traitlets import MemoryLimit

    class H(Configurable):
        m = MemoryLimit(0)

    units = {"K": 2**10, "M": 2**20, "G": 2**30, "T": 2**40}
    tries = [0, 1, 10.7, 2**40]
    for n in ("1", "2.5", "0.001", " 3 ", "1e3", "x", "", "1.", "0"):
        for u in ("K", "M", "G", "T", " K", "k", "B", "", "KB", "P", "1"):
            tries.append(n + u)
    if value is not None:
        tries = [value]
    for t in tries:
        want = None
        if isinstance(t, str):
            try:
                want = int(float(t[:-1]) * units[t[-1]])
            except (ValueError, KeyError, IndexError):
                pass
        else:
            want = int(t)
        try:
            got = H(m=t).m
        except Exception:
            got = None
        if got != want:
            bad("MemoryLimit.validate::value-in-bytes", f"{t!r} means {got}, not {want}")


def kube_heartbeat(bad, count, limit, known):
    from dask_gateway_server.backends.kubernetes.backend import KubeBackend

    patches = []

    class Custom:
        async def patch_namespaced_custom_object(self, *a, **k):
            patches.append(a)

    class Cl:
        config = {"cluster_max_workers": limit}

    be = KubeBackend.__new__(KubeBackend)
    o = type("B", (), {"on_cluster_heartbeat": KubeBackend.on_cluster_heartbeat, "log": logging.getLogger("x"), "clusters": {"ns.c": Cl()} if known else {}, "crd_version": "v1", "custom_client": Custom()})()
    asyncio.run(o.on_cluster_heartbeat("ns.c", {"count": count, "active_workers": [], "closing_workers": [], "closed_workers": []}))
    want = count if limit is None else min(count, limit)
    if not known:
        if patches:
            bad("KubeBackend.on_cluster_heartbeat::one-update", "unknown cluster updated")
        return
    if len(patches) != 1 or patches[0][2] != "ns" or patches[0][4] != "c":
        bad("KubeBackend.on_cluster_heartbeat::updates-that-cluster", f"{patches}")
    elif [o["value"] for o in patches[0][5]] != [want]:
        bad("KubeBackend.on_cluster_heartbeat::replicas-within-limit", f"heartbeat {count}, limit {limit}: {patches[0][5]}")
