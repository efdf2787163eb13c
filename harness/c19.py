"""The real informer and Kubernetes backend against a simulated API server
whose watches break in every way, under virtual time."""
import asyncio
import base64
import copy
import logging
import random
import types

from . import k8ssim, vloop

logging.disable(logging.CRITICAL)
PARALLEL = 4
PHASES = [None, "Pending", "Running", "Stopping", "Stopped", "Failed"]
HOW = ["end", "broken", "garbage", "error", "410", "bare-error", "bookmark", "bookmark"]


def cases(tier, seed):
    rng = random.Random(seed)
    n = {"quick": 1600, "deep": 6000, "thorough": 30000}[tier]
    yield {"kind": "watchline"}
    for k in range(n):
        ops = [rng.choice(OPS)(rng) for _ in range(rng.randrange(3, 25))]
        yield {"kind": "informer" if k % 2 else "kubeback", "ops": ops, "rng": rng.randrange(1 << 30), "start": rng.randrange(4)}


OPS = [
    lambda r: ["put", r.randrange(4)],
    lambda r: ["put", r.randrange(4)],
    lambda r: ["put", r.randrange(4)],
    lambda r: ["remove", r.randrange(4)],
    lambda r: ["recreate", r.randrange(4)],
    lambda r: ["burst", r.randrange(2, 6)],
    lambda r: ["disturb", r.choice(HOW)],
    lambda r: ["disturb", r.choice(HOW)],
    lambda r: ["disturb-and", r.choice(["end", "broken", "error"]), r.randrange(4), r.choice(["put", "remove"])],
    lambda r: ["compact"],
    lambda r: ["fail-list", r.randrange(1, 3)],
    lambda r: ["fail-watch", r.randrange(1, 3)],
    lambda r: ["fail-handler", r.randrange(1, 3)],
    lambda r: ["fail-secret", r.choice([404, 500, "down"])],
    lambda r: ["sleep", r.choice([0, 0.005, 0.3, 2.0, 11.0])],
    lambda r: ["sleep", r.choice([0, 0.005, 0.3, 2.0, 11.0])],
    lambda r: ["settle"],
    lambda r: ["wait", r.randrange(4)],
    lambda r: ["wait", r.randrange(4)],
    lambda r: ["stop", r.randrange(4)],
    lambda r: ["create", r.randrange(3)],
]
OWNERS = ["alice", "bob", "alice", "carol", "bob"]


def run(case):
    fn = {"informer": informer, "kubeback": kubeback, "watchline": watchline}.get(case.get("kind"))
    if fn is None or ("ops" not in case and fn is not watchline):
        return []
    try:
        return vloop.run(fn, case)
    except vloop.Deadlock:
        return [("watching::only-cancellation-ends-it", "nothing is watched any more")]


async def watchline(case):
    from dask_gateway_server.backends.kubernetes.utils import watch

    out = []
    docs = [b'{"type": "A"}\n', b"\n", b'{"type": "B"}\n']
    seen = {}

    class R:
        content = property(lambda self: self)

        async def __aenter__(self):
            return self

        async def __aexit__(self, *e):
            seen["closed"] = True

        async def readline(self):
            return lines.pop(0) if lines else b""

    async def method(*a, **k):
        seen["kw"] = k
        return R()

    lines = [docs[0], docs[2]]
    got = [e async for e in watch(method, resource_version="7")]
    if [e["type"] for e in got] != ["A", "B"]:
        out.append(("lines::passes-on-each-line", f"{got}"))
    if seen["kw"] != {"resource_version": "7", "watch": True, "_preload_content": False}:
        out.append(("lines::asks-for-a-watch", f"{seen['kw']}"))
    return out


def make(server, i, rng, old=None):
    """The next state of a cluster resource."""
    phase = rng.choice(PHASES)
    ns = "ns" if i < 3 else "other"
    o = {
        "metadata": {"name": f"c{i}", "namespace": ns, "labels": {"gateway.dask.org/instance": "gw"}, "creationTimestamp": "2024-01-02T03:04:05Z"},
        "spec": {"username": OWNERS[i], "options": {"o": i}, "config": {"c": rng.randrange(3)}},
    }
    if rng.random() < 0.1:
        del o["spec"]["options"]
    st = {}
    if phase:
        st["phase"] = phase
    if rng.random() < 0.7:
        st["credentials"] = f"secret-c{i}"
    if rng.random() < 0.7:
        st["service"] = f"svc-c{i}"
    if phase in ("Stopped", "Failed"):
        st["completionTime"] = "2024-01-02T04:04:05Z"
    if st or rng.random() < 0.5:
        o["status"] = st
    return o


async def drive(case, server, act):
    rng = random.Random(case["rng"])
    for i in range(case["start"]):
        server.put("dc", make(server, i, rng))
    # somebody else's clusters are not this gateway's
    alien = make(server, 4, rng)
    alien["metadata"]["labels"] = {"gateway.dask.org/instance": "other"}
    server.put("dc", alien)
    yield None
    for op in case["ops"]:
        k = op[0]
        if k == "put":
            server.put("dc", make(server, op[1], rng))
        elif k == "remove":
            server.remove("dc", "ns" if op[1] < 3 else "other", f"c{op[1]}")
        elif k == "recreate":
            server.remove("dc", "ns" if op[1] < 3 else "other", f"c{op[1]}")
            server.put("dc", make(server, op[1], rng))
        elif k == "burst":
            for _ in range(op[1]):
                i = rng.randrange(4)
                if rng.random() < 0.3:
                    server.remove("dc", "ns" if i < 3 else "other", f"c{i}")
                else:
                    server.put("dc", make(server, i, rng))
        elif k == "disturb":
            server.disturb(op[1])
        elif k == "disturb-and":
            server.disturb(op[1])
            if op[3] == "put":
                server.put("dc", make(server, op[2], rng))
            else:
                server.remove("dc", "ns" if op[2] < 3 else "other", f"c{op[2]}")
            if rng.random() < 0.5:
                server.compact()
        elif k == "compact":
            server.compact()
        elif k == "fail-list":
            server.fail.setdefault("list", []).extend([500] * op[1])
        elif k == "fail-watch":
            server.fail.setdefault("watch", []).extend([rng.choice([500, 410, "down"])] * op[1])
        elif k == "sleep":
            await asyncio.sleep(op[1])
        elif k == "settle":
            await asyncio.sleep(60)
            yield "settled"
        else:
            await act(op, rng)
    await asyncio.sleep(90)
    yield "settled"


def alive(server):
    return {f"{a}.{b}": o for (a, b), o in server.objs.get("dc", {}).items() if o["metadata"]["labels"]["gateway.dask.org/instance"] == "gw"}


async def informer(case):
    from dask_gateway_server.backends.kubernetes.utils import Informer

    out = []
    rng = random.Random(case["rng"] + 1)
    server = k8ssim.Server(rng)
    mirror, failing = {}, []
    told = []

    def update(obj, old=None):
        key = obj["metadata"]["namespace"] + "." + obj["metadata"]["name"]
        had = mirror.get(key)
        if (old is None) != (had is None) or (old is not None and old != had):
            out.append(("event::told-of-the-object-before", f"{key}: told of {old}, before it was {had}"))
        mirror[key] = obj
        told.append((key, obj["metadata"]["resourceVersion"], len([c for c in server.calls if c[0] == "list"])))
        if failing and failing.pop():
            raise RuntimeError("handler")

    def delete(obj):
        key = obj["metadata"]["namespace"] + "." + obj["metadata"]["name"]
        if key not in mirror:
            out.append(("event::told-of-the-removal", f"{key} removed twice"))
        mirror.pop(key, None)
        if failing and failing.pop():
            raise RuntimeError("handler")

    client = k8ssim.Client(server, list_it=server.lister("dc"))
    inf = Informer(name="x", client=client, method="list_it", method_kwargs={"label_selector": "gateway.dask.org/instance=gw"}, on_update=update, on_delete=delete)

    async def act(op, r):
        if op[0] == "fail-handler":
            failing.extend([True] * op[1])

    async for step in drive(case, server, act):
        if step is None:
            t = asyncio.ensure_future(inf.start())
            await asyncio.sleep(0)
            if t.done() and case["start"]:
                out.append(("watching::a-listing-is-handled-before-watching", "ready before the first listing"))
            await asyncio.wait([t], timeout=60)
            if not t.done():
                return out + [("watching::waiters-are-released-after-the-listing", "never ready")]
            if alive(server) != inf.cache and not server.calls[-1][0] == "watch":
                out.append(("watching::the-whole-listing-is-handled", f"{set(alive(server))} / {set(inf.cache)}"))
            continue
        want = alive(server)
        if inf._task.done():
            out.append(("watching::only-cancellation-ends-it", f"ended: {inf._task}"))
            break
        if inf.cache != want:
            out.append(("relist::cache-holds-the-listed-objects", f"cached {brief(inf.cache)}, should be {brief(want)}"))
            break
        if mirror != want:
            out.append(("event::told-of-the-change", f"told {brief(mirror)}, should be {brief(want)}"))
            break
        if any(inf.get(k) != o for k, o in want.items()) or inf.get("ns.none") is not None:
            out.append(("event::get-reads-the-cache", ""))
    seen = set()
    for k in told:
        if k in seen:
            out.append(("watching::each-event-is-handled-once", f"told twice of {k}"))
        seen.add(k)
    await inf.stop()
    return out[:5]


def brief(d):
    return {k: o["metadata"]["resourceVersion"] for k, o in d.items()}


async def kubeback(case):
    from dask_gateway_server.backends.kubernetes import backend as B
    from dask_gateway_server import models

    out = []
    rng = random.Random(case["rng"] + 1)
    server = k8ssim.Server(rng)
    b64 = lambda s: base64.b64encode(s.encode()).decode()
    secret_reads = []

    async def read_secret(name, namespace):
        secret_reads.append((name, namespace))
        await server.op("secret", name)
        return types.SimpleNamespace(data={"dask.crt": b64(f"crt {namespace} {name}"), "dask.pem": b64(f"pem {namespace} {name}"), "api-token": b64(f"token {namespace} {name}")})

    patched = []

    async def patch(group, version, namespace, plural, name, body):
        await server.op("patch", name)
        patched.append((group, namespace, plural, name, copy.deepcopy(body)))

    created = []

    async def create(group, version, namespace, plural, obj):
        await server.op("create", obj["metadata"]["name"])
        obj = copy.deepcopy(obj)
        obj["metadata"].update(namespace=namespace, creationTimestamp="2024-01-02T03:04:05Z")
        created.append((group, namespace, plural, obj))

    listers = server.lister("dc")

    async def list_dc(group=None, version=None, plural=None, **kw):
        if (group, plural) != ("gateway.dask.org", "daskclusters"):
            raise RuntimeError("unknown resource")
        return await listers(**kw)

    custom = k8ssim.Client(server, list_cluster_custom_object=list_dc, patch_namespaced_custom_object=patch, create_namespaced_custom_object=create)
    saved = (B.client, B.config, B.Backend.setup, B.Backend.cleanup)

    async def nothing(self, *a):
        pass

    class Pool:
        async def close(self):
            pass

    api = types.SimpleNamespace(rest_client=types.SimpleNamespace(pool_manager=Pool()))
    B.client = types.SimpleNamespace(ApiClient=lambda: api, CoreV1Api=lambda api_client: types.SimpleNamespace(read_namespaced_secret=read_secret), CustomObjectsApi=lambda api_client: custom)
    B.config = types.SimpleNamespace(load_incluster_config=lambda: None, ConfigException=Exception)
    B.Backend.setup = nothing
    B.Backend.cleanup = nothing
    be = B.KubeBackend(gateway_instance="gw")
    waits = []
    names = lambda i: ("ns." if i < 3 else "other.") + f"c{i}"

    class Cfg:
        namespace = "ns"

        def __init__(self, n):
            self.n = n

        def to_dict(self):
            return {"n": self.n}

    async def process(user, asked):
        return {"asked": asked["x"]}, Cfg(asked["x"])

    be.process_cluster_options = process

    async def act(op, r):
        k = op[0]
        loop = asyncio.get_running_loop()
        if k == "fail-secret":
            server.fail.setdefault("secret", []).append(op[1])
        elif k == "wait":
            t0 = loop.time()
            t = asyncio.ensure_future(be.get_cluster(names(op[1]), wait=True))
            t.t0 = t0
            t.add_done_callback(lambda t: setattr(t, "t1", loop.time()))
            t.name_ = names(op[1])
            waits.append(t)
        elif k == "stop":
            n = len(patched)
            known = be.clusters.get(names(op[1]))
            was = known.status if known is not None else None
            await be.stop_cluster(names(op[1]), failed=r.random() < 0.5)
            new = patched[n:]
            if was is not None and was >= models.ClusterStatus.STOPPED:
                if new:
                    out.append(("stop::a-stopped-cluster-is-left-alone", f"{new}"))
            elif len(new) != 1 or new[0][:4] != ("gateway.dask.org", names(op[1]).split(".")[0], "daskclusters", names(op[1]).split(".")[1]) or len(new[0][4]) != 1 or (new[0][4][0]["path"], new[0][4][0]["value"]) != ("/spec/active", False):
                out.append(("stop::its-resource-is-told-to-stop", f"{new}"))
        elif k == "create":
            n = len(created)
            user = models.User(["alice", "bob", "carol"][op[1]])
            name = await be.start_cluster(user, {"x": op[1]})
            new = created[n:]
            ok = len(new) == 1 and new[0][:3] == ("gateway.dask.org", "ns", "daskclusters")
            if ok:
                o = new[0][3]
                ok = name == "ns." + o["metadata"]["name"] and o["spec"] == {"username": user.name, "options": {"asked": op[1]}, "config": {"n": op[1]}} and o["metadata"]["labels"]["gateway.dask.org/instance"] == "gw"
                if len({c[3]["metadata"]["name"] for c in created}) != len(created):
                    out.append(("start::every-cluster-has-a-name-of-its-own", ""))
            if not ok:
                out.append(("start::the-resource-names-its-owner", f"{new}"))

    def check(creds):
        want = alive(server)
        if set(be.clusters) != set(want):
            out.append(("sync::a-deleted-cluster-is-forgotten" if set(be.clusters) - set(want) else "sync::its-state-follows-the-resource", f"cached {sorted(be.clusters)}, should be {sorted(want)}"))
            return
        for key, o in want.items():
            c = be.clusters[key]
            st = o.get("status") or {}
            phase = st.get("phase", "Pending")
            if c.name != key or c.username != o["spec"]["username"] or c.status.name.lower() != phase.lower():
                out.append(("sync::its-state-follows-the-resource", f"{key}: {c.name} {c.username} {c.status}, should be {phase}"))
            if c.options != (o["spec"].get("options") or {}) or c.config != o["spec"]["config"]:
                out.append(("sync::its-options-follow-the-resource", f"{key}: {c.options} {c.config}"))
            run_ = phase == "Running" and "service" in st
            a = f"svc-{o['metadata']['name']}.{o['metadata']['namespace']}"
            exp = (f"tls://{a}:8786", f"http://{a}:8787", f"http://{a}:8788") if run_ else ("", "", "")
            if (c.scheduler_address, c.dashboard_address, c.api_address) != exp:
                out.append(("sync::addresses-are-those-of-its-own-service", f"{key}: {c.scheduler_address} {c.dashboard_address} {c.api_address}"))
            t1 = 1704171845000 if "completionTime" in st else None
            if (c.start_time, c.stop_time) != (1704164645000 if False else c.start_time, c.stop_time if t1 else None) or c.start_time != 1704164645000:
                out.append(("sync::its-times-follow-the-resource", f"{key}: {c.start_time} {c.stop_time}"))
            ns, nm = o["metadata"]["namespace"], o["metadata"]["name"]
            mine = (f"crt {ns} secret-{nm}".encode(), f"pem {ns} secret-{nm}".encode(), f"token {ns} secret-{nm}")
            got = (c.tls_cert, c.tls_key, c.token)
            if got not in ((b"", b"", ""), mine):
                out.append(("sync::credentials-only-from-its-own-secret", f"{key}: {got}"))
            if got != mine and phase in ("Pending", "Running") and "credentials" in st:
                out.append(("sync::credentials-only-from-its-own-secret", f"{key}: no credentials"))
            if creds.get(key) and got != mine:
                out.append(("sync::credentials-are-kept", f"{key}: lost"))
            if got == mine:
                creds[key] = True
        idx = {(u, k) for u, d in be.username_to_clusters.items() for k in d}
        if idx != {(c.username, k) for k, c in be.clusters.items()}:
            out.append(("sync::clusters-are-indexed-under-their-owner-only", f"{sorted(idx)}"))
        if any(be.clusters.get(k) is not c for d in be.username_to_clusters.values() for k, c in d.items()):
            out.append(("sync::index-holds-the-same-record", ""))

    creds = {}
    try:
        async for step in drive(case, server, act):
            if step is None:
                await be.setup(types.SimpleNamespace())
                continue
            if be.sync_task.done() or be.informer._task.done():
                out.append(("syncing::only-closing-or-cancellation-ends-it", f"{be.sync_task} {be.informer._task}"))
                break
            check({} if any(o[0] in ("remove", "recreate", "burst", "disturb-and") for o in case["ops"]) else creds)
            if out:
                break
            lists = [("alice", None), ("bob", ["RUNNING"]), ("nobody", None), (None, None), (None, ["STOPPED", "FAILED"])]
            for user, sts in lists:
                got = {c.name for c in await be.list_clusters(username=user, statuses=None if sts is None else [models.ClusterStatus[x] for x in sts])}
                exp = {k for k, c in be.clusters.items() if user in (None, c.username) and (c.status <= 2 if sts is None else c.status.name in sts)}
                if got != exp:
                    out.append(("listing::lists-exactly-the-matching-clusters", f"{user} {sts}: {got}, should be {exp}"))
            for w in waits:
                if not w.done():
                    out.append(("lookup::waits-for-a-limited-time", "still waiting"))
                elif w.t1 - w.t0 > 21:
                    out.append(("lookup::waits-for-a-limited-time", f"{w.t1 - w.t0} s"))
            # a waiter for a cluster that runs or ended is released at once
            for key, c in list(be.clusters.items()):
                t0 = asyncio.get_running_loop().time()
                got = await be.get_cluster(key, wait=True)
                dt = asyncio.get_running_loop().time() - t0
                if c.status >= 2 and dt > 0.5:
                    out.append(("sync::waiters-are-released-when-it-runs-or-ended", f"{key} {c.status}: waited {dt}"))
                if got is not be.clusters.get(key):
                    out.append(("lookup::answers-with-that-cluster", key))
                if c.status >= 2:
                    break
            if out:
                break
            for key, c in list(be.clusters.items())[:1]:
                if c.status == 1 and not be.cluster_waiters[key].is_set():
                    ns, nm = key.split(".")
                    t = asyncio.ensure_future(be.get_cluster(key, wait=True))
                    await asyncio.sleep(1)
                    if t.done():
                        out.append(("sync::waiters-are-released-when-it-runs-or-ended", f"{key} released while pending"))
                    o = copy.deepcopy(server.objs["dc"][(ns, nm)])
                    way = rng.choice(["Running", "Failed", "gone"])
                    server.fail.pop("secret", None)
                    if way == "gone":
                        server.remove("dc", ns, nm)
                    else:
                        o["status"] = {"phase": way}
                        server.put("dc", o)
                    server.fail = {}
                    server.disturb("end")
                    await asyncio.sleep(5)
                    if not t.done():
                        out.append(("sync::waiters-are-released-when-it-runs-or-ended" if way != "gone" else "sync::waiters-of-a-deleted-cluster-are-released", f"{key} still waited for although {way}"))
                    await asyncio.wait([t])
                    if (t.result() is None) != (way == "gone"):
                        out.append(("lookup::answers-what-is-cached", f"{key}: {t.result()}"))
            if out:
                break
    finally:
        try:
            await be.cleanup()
        except Exception as exc:
            out.append(("wiring::no-exception", f"cleanup: {exc!r}"))
        B.client, B.config, B.Backend.setup, B.Backend.cleanup = saved
    return out[:5]
