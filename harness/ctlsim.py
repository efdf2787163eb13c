"""The real KubeController against a simulated Kubernetes: API server, node
agent, endpoints and garbage collection, with failing requests, broken
watches and controller restarts, under virtual time."""
import asyncio
import copy
import datetime
import functools
import logging
import random
import types

from . import k8ssim, vloop

logging.disable(logging.CRITICAL)
T0 = 1_700_000_000
ORDER = {None: 0, "Pending": 0, "Running": 1, "Stopped": 2, "Failed": 2}
RESOURCES = {"credentials": "secret", "schedulerPod": "pod", "service": "service", "ingressroute": "ingressroutes", "ingressroutetcp": "ingressroutetcps"}


class PodObj:
    def __init__(self, raw):
        self.raw = raw
        self.metadata = types.SimpleNamespace(name=raw["metadata"]["name"])


@functools.lru_cache(None)
def config():
    from dask_gateway_server.backends.kubernetes.backend import KubeClusterConfig

    return KubeClusterConfig(worker_cores=1, worker_memory="1 G").to_dict()


class RunAway(SystemExit):
    """Ends the simulation."""


class Kube:
    """Kubernetes: everything but the controller."""

    def __init__(self, rng):
        self.rng = rng
        self.s = k8ssim.Server(rng)
        self.uid = 0
        self.tasks = []
        self.capacity = None
        self.slow = 0.3
        self.names = 0
        self.out = []
        self.made = []  # accepted creations (kind, ns, name, cluster)
        self.lost = {}  # cluster key -> worker pods ended or removed
        self.deleted_once = {}  # uid -> accepted deletions
        self.foreign = False
        self.records_deleted = []
        self.ctl = None
        self.history = {}  # cluster key -> statuses patched
        self.lossy = False
        self.dropped = set()
        self.entered = {}  # cluster key -> its phase, since when
        self.before = set()  # pods a restarted controller may delete again

    # ----------------------------------------------------------- contents
    def spawn(self, coro):
        self.tasks.append(asyncio.ensure_future(coro))

    def items(self, kind):
        return dict(self.s.objs.get(kind, {}))

    def get(self, kind, ns, name):
        return self.s.objs.get(kind, {}).get((ns, name))

    def put(self, kind, obj):
        return self.s.put(kind, obj)

    def update(self, kind, ns, name, fn):
        o = self.get(kind, ns, name)
        if o is not None:
            o = copy.deepcopy(o)
            if fn(o) is not False:
                self.put(kind, o)

    def make_uid(self):
        self.uid += 1
        return f"uid-{self.uid}"

    def remove(self, kind, ns, name):
        o = self.get(kind, ns, name)
        if o is None:
            return
        if kind == "pod" and self.worker(o) and self.live(o):
            self.lose(o)
        self.s.remove(kind, ns, name)
        if kind == "pod" and not self.worker(o):
            self.endpoints(ns, o)
        self.spawn(self.collect(o["metadata"]["uid"]))

    async def collect(self, uid):
        """Dependents of a removed object go, too."""
        await asyncio.sleep(self.rng.random() * 3)
        for kind in list(self.s.objs):
            for (ns, name), o in self.items(kind).items():
                if any(r["uid"] == uid for r in o["metadata"].get("ownerReferences", ())):
                    self.remove(kind, ns, name)

    # --------------------------------------------------------------- pods
    @staticmethod
    def key(o):
        return f"{o['metadata']['namespace']}.{o['metadata']['labels'].get('gateway.dask.org/cluster')}"

    @staticmethod
    def worker(o):
        return o["metadata"]["labels"].get("app.kubernetes.io/component") == "dask-worker"

    @staticmethod
    def ended(o):
        if o["status"].get("phase") in ("Succeeded", "Failed"):
            return True
        # workers restart on failure, schedulers never
        return any("terminated" in c["state"] and (c["name"] == "dask-scheduler" or c["state"]["terminated"].get("exitCode", 1) == 0) for c in o["status"].get("containerStatuses", ()) if c["name"] != "sidecar")

    def live(self, o):
        return not self.ended(o) and not o["metadata"].get("deletionTimestamp")

    def lose(self, o):
        k = self.key(o)
        self.lost[k] = self.lost.get(k, 0) + 1

    def workers(self, key, live=True):
        return [o for o in self.items("pod").values() if self.worker(o) and self.key(o) == key and (self.live(o) or not live)]

    def state(self, o, phase, state=None, body=None, ready=False):
        comp = o["metadata"]["labels"]["app.kubernetes.io/component"]
        st = {"phase": phase}
        if state is not None:
            cs = [{"name": comp, "ready": ready, "state": {state: body or {}}}]
            if self.rng.random() < 0.2:
                cs.insert(self.rng.randrange(2), {"name": "sidecar", "ready": True, "state": {"running": {}}})
            st["containerStatuses"] = cs
        o["status"] = st

    async def kubelet(self, ns, name, uid):
        r = self.rng

        def step(fn):
            o = self.get("pod", ns, name)
            if o is None or o["metadata"]["uid"] != uid or self.ended(o) or o["metadata"].get("deletionTimestamp"):
                return False
            self.update("pod", ns, name, fn)
            return True

        await asyncio.sleep(r.random() * self.slow)
        o = self.get("pod", ns, name)
        if o is None:
            return
        while self.worker(o) and self.capacity is not None and sum(1 for p in self.items("pod").values() if self.worker(p) and "containerStatuses" in p["status"] and self.live(p)) >= self.capacity:
            await asyncio.sleep(1 + r.random())
            o = self.get("pod", ns, name)
            if o is None or o["metadata"]["uid"] != uid:
                return
        if not step(lambda o: self.state(o, "Pending", "waiting", {"reason": "ContainerCreating"})):
            return
        await asyncio.sleep(r.random() * self.slow)
        if r.random() < 0.15 and not step(lambda o: self.state(o, "Running", "waiting")):
            return
        if not step(lambda o: self.state(o, "Running", "running", {"startedAt": "now"})):
            return
        if not self.worker(o):
            await asyncio.sleep(r.random() * self.slow)
            o = self.get("pod", ns, name)
            if o is not None and o["metadata"]["uid"] == uid and not self.ended(o):
                self.update("pod", ns, name, lambda o: o["status"]["containerStatuses"][0].update(ready=True))
                self.endpoints(ns, o)

    def endpoints(self, ns, pod):
        """Endpoints of the services selecting this scheduler pod."""
        cluster = pod["metadata"]["labels"].get("gateway.dask.org/cluster")
        for (n, name), svc in self.items("service").items():
            if n != ns or svc["spec"]["selector"].get("gateway.dask.org/cluster") != cluster:
                continue
            p = next((p for p in self.items("pod").values() if not self.worker(p) and self.key(p) == f"{ns}.{cluster}"), None)
            ready = p is not None and any(c.get("ready") for c in p["status"].get("containerStatuses", ())) and p["status"]["phase"] == "Running"
            eps = {"metadata": {"name": name, "namespace": ns, "uid": self.make_uid(), "labels": dict(svc["metadata"]["labels"]), "ownerReferences": [{"uid": svc["metadata"]["uid"]}]}}
            if p is not None:
                eps["subsets"] = [{"addresses" if ready else "notReadyAddresses": [{"ip": "10.0.0.1"}]}]
            old = self.get("endpoints", ns, name)
            if old is None or old.get("subsets") != eps.get("subsets"):
                self.put("endpoints", eps)

    # ---------------------------------------------------------------- API
    async def op(self, op, *what):
        """A request; the reply to an accepted one can be lost."""
        self.s.calls.append((op,) + what)
        if len(self.made) > 500:
            self.out.append(("c17:creates-exactly-the-missing-workers", "without end"))
            self.out.append(("c18:each-resource-is-created-once", "without end"))
            raise RunAway
        await self.s.delay()
        q = self.s.fail.get(op)
        if q:
            x = q.pop(0)
            if x == "lost":
                return ConnectionError("reply lost")
            if x:
                raise ConnectionError("down") if x == "down" else self.error(x)
        return None

    def error(self, status):
        e = k8ssim.make_error(status)
        e.body = self.rng.choice(['{"message": "refused"}', "oops", None, "[]"])
        return e

    async def create(self, kind, ns, obj):
        lost = await self.op("create-" + ("worker" if kind == "pod" and "generateName" in obj["metadata"] else kind), ns)
        obj = copy.deepcopy(obj)
        m = obj["metadata"]
        if "name" not in m:
            self.names += 1
            m["name"] = m["generateName"] + str(self.names)
        if self.get(kind, ns, m["name"]) is not None:
            raise self.error(409)
        m.update(namespace=ns, uid=self.make_uid())
        self.made.append((kind, ns, m["name"], m.get("labels", {}).get("gateway.dask.org/cluster")))
        if kind == "pod":
            obj["status"] = {"phase": "Pending"}
            key = f"{ns}.{m['labels'].get('gateway.dask.org/cluster')}"
            if ORDER[self.phase(key)] == 2 and self.worker(obj):
                self.out.append(("c18:no-pods-for-a-finished-cluster", m["name"]))
        self.put(kind, obj)
        uids = {x["metadata"]["uid"] for objs in self.s.objs.values() for x in objs.values()}
        for r in m.get("ownerReferences", ()):
            if r["uid"] not in uids:
                self.spawn(self.collect(r["uid"]))
        if kind == "pod":
            self.spawn(self.kubelet(ns, m["name"], m["uid"]))
        elif kind == "service":
            self.spawn(self.later_endpoints(ns, obj))
        if lost:
            raise lost
        return PodObj(self.get(kind, ns, m["name"]))

    async def later_endpoints(self, ns, svc):
        await asyncio.sleep(self.rng.random() * self.slow)
        self.endpoints(ns, {"metadata": {"labels": svc["spec"]["selector"]}})

    async def delete(self, kind, ns, name):
        o0 = self.get(kind, ns, name)
        if kind == "pod" and o0 is not None and self.worker(o0):
            self.check_delete(ns, name, o0)
        lost = await self.op("delete-" + ("worker" if o0 is not None and kind == "pod" and self.worker(o0) else kind), ns, name)
        o = self.get(kind, ns, name)
        if o is None:
            raise self.error(404)
        uid = o["metadata"]["uid"]
        if kind == "pod":
            self.deleted_once[uid] = self.deleted_once.get(uid, 0) + 1
            if self.deleted_once[uid] > 1 and self.worker(o) and not self.foreign and not self.lossy and uid not in self.before:
                self.out.append(("c17:no-worker-is-deleted-twice", name))
            if not o["metadata"].get("deletionTimestamp"):
                if self.worker(o) and self.live(o):
                    self.lose(o)
                self.update("pod", ns, name, lambda o: o["metadata"].update(deletionTimestamp="now"))
            self.spawn(self.terminate(ns, name, uid))
        else:
            self.remove(kind, ns, name)
        if lost:
            raise lost

    def check_delete(self, ns, name, o):
        seen = self.ctl.informers["pod"].cache.get(f"{ns}.{name}")
        now = asyncio.get_running_loop().time()
        if seen is not None and any(c["name"] == "dask-worker" and "running" in c["state"] for c in seen["status"].get("containerStatuses", ())) and seen["status"].get("phase") == "Running":
            since = self.running_since.get((ns, name))
            if since is not None and now - since > 0.01:
                self.out.append(("c17:never-deletes-a-running-worker", name))

    async def terminate(self, ns, name, uid):
        await asyncio.sleep(self.rng.random() * 2)
        o = self.get("pod", ns, name)
        if o is not None and o["metadata"]["uid"] == uid:
            self.remove("pod", ns, name)

    def phase(self, key):
        c = self.get("dc", *key.split("."))
        return None if c is None else (c.get("status") or {}).get("phase")

    async def patch_status(self, group, version, ns, plural, name, body):
        if (group, plural) != ("gateway.dask.org", "daskclusters"):
            self.out.append(("c18:patches-its-own-resource", f"{group} {plural}"))
        lost = await self.op("patch", ns, name)
        o = self.get("dc", ns, name)
        if o is None:
            raise self.error(404)
        if len(body) != 1 or body[0].get("path") != "/status":
            self.out.append(("c18:patches-only-the-status", f"{body}"))
            return
        key, new, old = f"{ns}.{name}", body[0]["value"], o.get("status") or {}
        a, b = old.get("phase"), new.get("phase")
        # a decision may rest on a view of the cluster that is a little old
        now = asyncio.get_running_loop().time()
        if key not in self.entered or a != self.entered[key][0]:
            self.entered[key] = (a, now)
        aged = now - self.entered[key][1] > 60
        if ORDER[a] > ORDER[b] and (ORDER[a] == 2 or aged):
            self.out.append(("c18:phases-move-forward", f"{a} -> {b}"))
        for f in RESOURCES:
            if old.get(f) and new.get(f) != old[f] and ORDER[b] != 2 and aged:
                self.out.append(("c18:recorded-resources-stay-recorded", f"{f}: {old[f]} -> {new.get(f)}"))
            if new.get(f) and not any(k == RESOURCES[f] and (n, nm) == (ns, new[f]) for k, n, nm, _ in self.made):
                self.out.append(("c18:records-only-created-resources", f"{f}: {new[f]}"))
        if b == "Running" and a != "Running":
            missing = [f for f in RESOURCES if not new.get(f)]
            if missing:
                self.out.append(("c18:running-once-everything-exists", f"without {missing}"))
            if not self.was_ready.get(key):
                self.out.append(("c18:running-once-the-scheduler-is-ready", key))
        if ORDER[b] == 2:
            s, p = (old.get("credentials") or new.get("credentials")), (old.get("schedulerPod") or new.get("schedulerPod"))
            if s and self.get("secret", ns, s) is not None:
                self.out.append(("c18:cleaned-up-before-it-is-recorded", f"secret of {key}"))
            pod = self.get("pod", ns, p) if p else None
            if pod is not None and not pod["metadata"].get("deletionTimestamp"):
                self.out.append(("c18:cleaned-up-before-it-is-recorded", f"scheduler of {key}"))
            if not new.get("completionTime"):
                self.out.append(("c18:completion-is-dated", f"{new}"))
            if b == "Stopped" and o["spec"].get("active", True):
                self.out.append(("c18:stopped-only-by-request", key))
            if b == "Failed" and not self.sched_gone.get(key):
                self.out.append(("c18:failed-only-when-the-scheduler-ended", key))
        self.update("dc", ns, name, lambda o: o.update(status=copy.deepcopy(new)))
        if a != b:
            self.entered[key] = (b, now)
        if lost:
            raise lost

    async def delete_record(self, group, version, ns, plural, name):
        await self.op("delete-record", ns, name)
        o = self.get("dc", ns, name)
        if o is None:
            raise self.error(404)
        st = o.get("status") or {}
        done = self.final.get(f"{ns}.{name}")
        now = asyncio.get_running_loop().time()
        if ORDER[st.get("phase")] != 2:
            self.out.append(("c18:only-completed-clusters-are-deleted", f"{ns}.{name}"))
        elif done is not None and now - done < self.max_age - 2:
            self.out.append(("c18:completed-clusters-are-kept-long-enough", f"{ns}.{name}"))
        self.records_deleted.append(f"{ns}.{name}")
        self.remove("dc", ns, name)

    async def create_custom(self, group, version, ns, plural, obj):
        if group != "traefik.io":
            self.out.append(("c18:routes-are-traefik-routes", group))
        return await self.create(plural, ns, obj)

    def clients(self):
        s = self.s
        api = types.SimpleNamespace(sanitize_for_serialization=lambda x: copy.deepcopy(x.raw if isinstance(x, PodObj) else x), rest_client=types.SimpleNamespace(pool_manager=Pool()))
        core = k8ssim.Client(
            s,
            create_namespaced_pod=lambda ns, pod: self.create("pod", ns, pod),
            delete_namespaced_pod=lambda name, ns: self.delete("pod", ns, name),
            create_namespaced_secret=lambda ns, o: self.create("secret", ns, o),
            delete_namespaced_secret=lambda name, ns: self.delete("secret", ns, name),
            create_namespaced_service=lambda ns, o: self.create("service", ns, o),
            list_pod_for_all_namespaces=s.lister("pod"),
            list_endpoints_for_all_namespaces=s.lister("endpoints"),
        )
        dc = s.lister("dc")

        async def list_custom(group=None, version=None, plural=None, **kw):
            if (group, plural) != ("gateway.dask.org", "daskclusters"):
                raise RuntimeError("unknown resource")
            return await dc(**kw)

        custom = k8ssim.Client(s, list_cluster_custom_object=list_custom, patch_namespaced_custom_object_status=self.patch_status, delete_namespaced_custom_object=self.delete_record, create_namespaced_custom_object=self.create_custom)
        return api, core, custom

    # ------------------------------------------------- what has been true
    def watch(self):
        """Follows every change made on the server."""
        self.running_since, self.was_ready, self.sched_gone, self.final = {}, {}, {}, {}
        s, change = self.s, self.s.change

        def changed(typ, kind, obj):
            r = change(typ, kind, obj)
            m = obj["metadata"]
            now = asyncio.get_running_loop().time()
            if kind == "pod" and self.worker(obj):
                k = (m["namespace"], m["name"])
                run = obj["status"].get("phase") == "Running" and any(c["name"] == "dask-worker" and "running" in c["state"] for c in obj["status"].get("containerStatuses", ()))
                if run and typ != "DELETED":
                    self.running_since.setdefault(k, now)
                else:
                    self.running_since.pop(k, None)
            elif kind == "pod":
                if typ == "DELETED" or obj["status"].get("phase") in ("Succeeded", "Failed") or any("terminated" in c["state"] for c in obj["status"].get("containerStatuses", ()) if c["name"] == "dask-scheduler"):
                    self.sched_gone[self.key(obj)] = True
            elif kind == "endpoints":
                if any("addresses" in x and not x.get("notReadyAddresses") for x in obj.get("subsets", ())):
                    self.was_ready[self.key(obj)] = True
            elif kind == "dc" and ORDER[(obj.get("status") or {}).get("phase")] == 2:
                self.final.setdefault(f"{m['namespace']}.{m['name']}", now)
            return r

        s.change = changed


class Pool:
    async def close(self):
        pass


class Runner:
    def __init__(self, *a, **k):
        pass

    async def setup(self):
        pass

    start = cleanup = setup


def patched(kube):
    """The controller module with Kubernetes, the clock and the web server replaced."""
    from dask_gateway_server.backends.kubernetes import controller as C

    loop = asyncio.get_running_loop()
    saved = {n: getattr(C, n) for n in ("client", "config", "time", "web", "timestamp", "k8s_timestamp", "new_keypair", "RateLimiter")}
    api, core, custom = kube.clients()
    C.client = types.SimpleNamespace(ApiClient=lambda: api, CoreV1Api=lambda api_client: core, CustomObjectsApi=lambda api_client: custom)
    C.config = types.SimpleNamespace(load_incluster_config=lambda: None, ConfigException=Exception)
    C.time = types.SimpleNamespace(monotonic=loop.time, time=lambda: T0 + loop.time())
    C.web = types.SimpleNamespace(AppRunner=Runner, TCPSite=Runner, GracefulExit=KeyboardInterrupt)
    C.timestamp = lambda: int((T0 + loop.time()) * 1000)
    C.k8s_timestamp = lambda: datetime.datetime.fromtimestamp(T0 + loop.time(), datetime.timezone.utc).strftime("%Y-%m-%dT%H:%M:%SZ")
    C.new_keypair = lambda name: (f"crt {name}".encode(), f"key {name}".encode())

    class Limit:
        def __init__(self, **k):
            pass

        async def acquire(self):
            pass

    C.RateLimiter = Limit
    loop.add_signal_handler = lambda *a: None
    return C, lambda: [setattr(C, n, x) for n, x in saved.items()]


def cluster(kube, ns, name, replicas, status=None):
    o = {
        "apiVersion": "gateway.dask.org/v1alpha1",
        "kind": "DaskCluster",
        "metadata": {"name": name, "namespace": ns, "uid": kube.make_uid(), "labels": {"gateway.dask.org/instance": "gw"}},
        "spec": {"username": "alice", "config": config(), "options": {}},
    }
    if replicas:
        o["spec"]["replicas"] = replicas
    return o


def desired(o):
    return o["spec"].get("replicas", 0)


def run(case):
    if case.get("kind") != "controller" or "ops" not in case:
        return []
    kube = []
    try:
        return vloop.run(simulate, case, kube)
    except RunAway:
        return kube[0].out
    except vloop.Deadlock:
        return [("c18:the-controller-goes-on", "nothing is watched any more")]


NAMES = [("ns", "c0"), ("ns", "c1"), ("other", "c2")]


async def simulate(case, kube):
    rng = random.Random(case["rng"])
    k = Kube(rng)
    kube.append(k)
    k.watch()
    k.broken = False  # whether events may have been missed
    k.max_age = case.get("max_age", 3600)
    k.slow = case.get("slow", 0.3)
    C, restore = patched(k)
    base = {}  # cluster key -> (live workers, creations, losses, max desired)

    def controller():
        c = C.KubeController(gateway_instance="gw", api_url="http://gateway/api", backoff_max_delay=4.0, completed_cluster_max_age=float(k.max_age), completed_cluster_cleanup_period=60.0, parallelism=case.get("parallelism", 4))
        c.app = None
        c.log = logging.getLogger("ctl")
        return c

    async def start():
        k.ctl = controller()
        await k.ctl.setup()

    def mark():
        for (ns, name), o in k.items("dc").items():
            key = f"{ns}.{name}"
            base[key] = [len(k.workers(key)), made(key), k.lost.get(key, 0), desired(o)]

    made = lambda key: sum(1 for kind, ns, nm, c in k.made if kind == "pod" and "worker" in nm and f"{ns}.{c}" == key)

    def touch_max(key, n):
        b = base.setdefault(key, [0, 0, 0, 0])
        b[3] = max(b[3], n)

    async def settle():
        k.s.fail.clear()
        k.capacity = None
        await asyncio.sleep(45)
        if not (k.lossy or k.foreign or k.broken):
            # every event was seen, so nothing is left to wait for
            for (ns, name), o in k.items("dc").items():
                key = f"{ns}.{name}"
                info = k.ctl.cluster_info.get(key)
                if info is not None and not info.should_trigger() and k.phase(key) == "Running" and not k.sched_gone.get(key):
                    k.out.append(("c17:only-requests-that-succeeded-are-waited-for", f"{key}: {info.creates} creations, {info.deletes} deletions"))
        # a worker that came and went unseen is waited for until the timeout
        if not all(i.should_trigger() for i in k.ctl.cluster_info.values()) or k.lossy or k.foreign:
            await asyncio.sleep(620)
            for (ns, name), o in k.items("dc").items():
                k.update("dc", ns, name, lambda o: o["metadata"].setdefault("annotations", {}).update(touched=str(k.uid)))
            await asyncio.sleep(45)
        check()
        k.foreign = k.lossy = k.broken = False

    def check():
        for (ns, name), o in k.items("dc").items():
            key = f"{ns}.{name}"
            if o["metadata"]["labels"].get("gateway.dask.org/instance") != "gw":
                if o.get("status"):
                    k.out.append(("c18:only-its-own-clusters", key))
                continue
            ph = (o.get("status") or {}).get("phase", "Pending")
            ws = k.workers(key)
            allw = k.workers(key, live=False)
            active = o["spec"].get("active", True)
            sched = k.get("pod", ns, f"dask-scheduler-{name}")
            up = sched is not None and not k.ended(sched) and not k.sched_gone.get(key)
            if not active and ORDER[ph] != 2:
                k.out.append(("c18:a-cluster-told-to-stop-is-stopped", f"{key} is {ph}"))
            elif active and up and ORDER[ph] != 1:
                k.out.append(("c18:a-ready-cluster-runs", f"{key} is {ph}"))
            elif k.sched_gone.get(key) and ph == "Running":
                k.out.append(("c18:a-cluster-without-scheduler-fails", f"{key} is {ph}"))
            if ORDER[ph] == 2:
                left = [(kind, n) for kind in ("secret", "pod", "service", "ingressroutes", "ingressroutetcps") for (n2, n), x in k.items(kind).items() if n2 == ns and x["metadata"].get("labels", {}).get("gateway.dask.org/cluster") == name]
                if left:
                    k.out.append(("c18:nothing-is-left-of-a-finished-cluster", f"{key}: {left}"))
            if ph == "Running" and up and active:
                n = desired(o)
                if len(ws) < n:
                    k.out.append(("c17:missing-workers-are-created", f"{key}: {len(ws)} of {n}"))
                if len(ws) > n and any(w["status"]["phase"] == "Pending" for w in ws):
                    k.out.append(("c17:excess-pending-workers-are-deleted", f"{key}: {len(ws)} for {n}"))
                gone = [w["metadata"]["name"] for w in allw if k.ended(w) and not w["metadata"].get("deletionTimestamp")]
                if gone:
                    k.out.append(("c17:stopped-workers-are-removed", f"{key}: {gone}"))
                b = base.get(key, [0, 0, 0, n])
                allowed = max(0, max(b[3], n) - b[0]) + k.lost.get(key, 0) - b[2]
                if made(key) - b[1] > allowed:
                    k.out.append(("c17:creates-exactly-the-missing-workers", f"{key}: {made(key) - b[1]} created, {allowed} were missing"))
            for w in allw:
                refs = w["metadata"].get("ownerReferences") or [{}]
                if refs[0].get("kind") != "Pod" or refs[0].get("name") != f"dask-scheduler-{name}":
                    k.out.append(("c17:workers-belong-to-the-scheduler-pod", f"{refs}"))
            done = k.final.get(key)
            if done is not None and asyncio.get_running_loop().time() - done > k.max_age + 200:
                k.out.append(("c18:old-records-are-deleted", key))
        mark()

    try:
        for i in range(case.get("start", 1)):
            k.put("dc", cluster(k, *NAMES[i], case.get("replicas", 2)))
        alien = cluster(k, "ns", "alien", 2)
        alien["metadata"]["labels"] = {"gateway.dask.org/instance": "other"}
        k.put("dc", alien)
        mark()
        await start()
        for op in case["ops"]:
            w = op[0]
            ns, name = NAMES[op[1] % len(NAMES)] if len(op) > 1 and isinstance(op[1], int) else (None, None)
            key = f"{ns}.{name}"
            if w == "new":
                if key not in k.dropped and k.get("dc", ns, name) is None and not any((kind != "dc") and x["metadata"].get("labels", {}).get("gateway.dask.org/cluster") == name for kind in k.s.objs for x in k.items(kind).values()):
                    for d in (k.sched_gone, k.was_ready, k.final, base):
                        d.pop(key, None)
                    if not any(key == f"{a}.{b}" for _, a, _, b in k.made):
                        k.put("dc", cluster(k, ns, name, op[2]))
                        base[key] = [0, made(key), k.lost.get(key, 0), op[2]]
            elif w == "scale":
                k.update("dc", ns, name, lambda o: o["spec"].update(replicas=op[2]))
                touch_max(key, op[2])
            elif w == "stop":
                k.update("dc", ns, name, lambda o: o["spec"].update(active=False))
            elif w == "drop":
                k.remove("dc", ns, name)
                k.dropped.add(key)  # names are never used again
            elif w == "end":
                ws = k.workers(key)
                if ws:
                    o = rng.choice(sorted(ws, key=lambda o: o["metadata"]["name"]))
                    n = o["metadata"]["name"]
                    how = op[2]
                    if how == "vanish":
                        k.foreign = True
                        k.remove("pod", ns, n)
                    elif how == "crash":
                        if o["status"].get("containerStatuses") and o["status"]["phase"] == "Running":
                            k.update("pod", ns, n, lambda o: k.state(o, "Running", "terminated", {"exitCode": 1}))
                            await asyncio.sleep(rng.random())
                            k.update("pod", ns, n, lambda o: None if k.ended(o) else k.state(o, "Running", "waiting"))
                            k.spawn(k.kubelet(ns, n, o["metadata"]["uid"]))
                    else:
                        k.lose(o)
                        if how == "evicted":
                            k.update("pod", ns, n, lambda o: o.update(status={"phase": "Failed", "reason": "Evicted"}))
                        elif how == "exit0":
                            k.update("pod", ns, n, lambda o: k.state(o, "Running", "terminated", {"exitCode": 0}))
                        else:
                            k.update("pod", ns, n, lambda o: k.state(o, how, "terminated", {"exitCode": 0 if how == "Succeeded" else 1}))
            elif w == "sched-end":
                p = k.get("pod", ns, f"dask-scheduler-{name}")
                if p is not None and not k.ended(p):
                    if op[2] == "vanish":
                        if k.phase(key) == "Running":
                            k.remove("pod", ns, p["metadata"]["name"])
                    elif op[2] == "evicted":
                        k.update("pod", ns, p["metadata"]["name"], lambda o: o.update(status={"phase": "Failed", "reason": "Evicted"}))
                        k.endpoints(ns, p)
                    elif p["status"].get("containerStatuses") or k.phase(key) == "Running":
                        k.update("pod", ns, p["metadata"]["name"], lambda o: k.state(o, op[2], "terminated", {"exitCode": 1}))
                        k.endpoints(ns, p)
            elif w == "disturb":
                k.broken = True
                k.s.disturb(op[1])
            elif w == "compact":
                k.broken = True
                k.s.compact()
            elif w == "fail":
                k.s.fail.setdefault(op[1], []).extend([op[2]] * op[3])
                if op[2] in ("lost", 404):
                    k.lossy = True
                if op[1] in ("list", "watch"):
                    k.broken = True
            elif w == "capacity":
                k.capacity = op[1]
            elif w == "sleep":
                await asyncio.sleep(op[1])
            elif w == "restart":
                k.broken = True
                await k.ctl.cleanup()
                k.before |= {o["metadata"]["uid"] for o in k.items("pod").values()}
                await start()
            elif w == "settle":
                await settle()
        await settle()
        if case.get("old"):
            await asyncio.sleep(k.max_age + 300)
            check()
        await k.ctl.cleanup()
    finally:
        restore()
    return k.out


HOWS = ["end", "broken", "garbage", "error", "410", "bare-error", "bookmark"]
C = lambda r: r.randrange(3)
OPS = {
    "C17": [
        lambda r: ["scale", C(r), r.randrange(7)],
        lambda r: ["scale", C(r), r.randrange(7)],
        lambda r: ["scale", 0, r.randrange(7)],
        lambda r: ["end", 0, r.choice(["Succeeded", "Failed", "evicted", "exit0", "crash", "vanish"])],
        lambda r: ["end", 0, r.choice(["Succeeded", "Failed", "evicted", "exit0", "crash"])],
        lambda r: ["capacity", r.choice([None, 0, 1, 2])],
        lambda r: ["fail", "create-worker", r.choice([403, 500, "down"]), r.randrange(1, 4)],
        lambda r: ["fail", "delete-worker", r.choice([404, 500, "down"]), r.randrange(1, 3)],
        lambda r: ["new", C(r), r.randrange(4)],
    ],
    "C18": [
        lambda r: ["stop", C(r)],
        lambda r: ["new", C(r), r.randrange(3)],
        lambda r: ["sched-end", C(r), r.choice(["vanish", "Failed", "Succeeded", "Running", "evicted"])],
        lambda r: ["drop", C(r)],
        lambda r: ["fail", r.choice(["create-secret", "create-pod", "create-service", "create-ingressroutes", "create-ingressroutetcps", "patch", "delete-pod", "delete-secret", "delete-record"]), r.choice([500, 403, "down", "lost"]), r.randrange(1, 3)],
        lambda r: ["fail", r.choice(["create-secret", "create-pod", "create-service", "patch", "delete-pod", "delete-secret"]), r.choice([500, "down", "lost"]), 1],
        lambda r: ["scale", C(r), r.randrange(4)],
    ],
}
BOTH = [
    lambda r: ["disturb", r.choice(HOWS)],
    lambda r: ["compact"],
    lambda r: ["sleep", r.choice([0, 0.01, 0.3, 1.0, 5.0])],
    lambda r: ["sleep", r.choice([0, 0.1, 0.5, 1.0, 5.0])],
    lambda r: ["settle"],
    lambda r: ["restart"],
    lambda r: ["fail", r.choice(["list", "watch"]), 500, 1],
]


def cases(pid, tier, seed):
    rng = random.Random(f"{pid}{seed}")
    n = {"quick": 240, "deep": 1200, "thorough": 8000}[tier]
    for i in range(n):
        ops = []
        for _ in range(rng.randrange(3, 16)):
            ops.append(rng.choice(OPS[pid] if rng.random() < 0.6 else BOTH)(rng))
            if rng.random() < 0.3:
                ops.append(["settle"] if rng.random() < 0.5 else ["sleep", rng.choice([0.1, 1.0, 3.0])])
        yield {"kind": "controller", "ops": ops, "rng": rng.randrange(1 << 30), "start": rng.choice([1, 1, 2, 3]), "replicas": rng.randrange(5), "slow": rng.choice([0.05, 0.3, 3.0]), "max_age": rng.choice([3600, 3600, 900]), "old": rng.random() < 0.1, "parallelism": rng.choice([1, 4, 20])}
