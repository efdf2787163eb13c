"""Random histories of the real DBBackendBase: virtual time, in-memory or file
database, scripted jobs, faults, restarts.  Monitors report (property, clause,
message); each property's harness keeps its own."""
import asyncio
import logging
import os
import random
import shutil
import tempfile
import uuid
from types import SimpleNamespace

import dask_gateway_server.backends.db_base as D
import dask_gateway_server.utils as U
from cryptography.fernet import Fernet
from dask_gateway_server import models
from dask_gateway_server.backends.db_base import DataManager, DBBackendBase, JobStatus
from harness import vloop
from traitlets.config import Config

J = JobStatus
logging.getLogger().addHandler(logging.NullHandler())
logging.getLogger().setLevel(logging.CRITICAL + 1)
KEYS = (b"-----CERT-----\nabc", b"-----KEY-----\ndef")


class FakeProxy:
    instances = []
    tls_cert = ""
    prefix = ""
    address = "127.0.0.1:8000"

    def __init__(self, parent=None, log=None):
        self.routes = {}

    async def setup(self, app):
        pass

    async def cleanup(self):
        pass

    async def add_route(self, kind=None, sni=None, path=None, target=None):
        self.routes[kind, sni or path] = target

    async def remove_route(self, kind=None, sni=None, path=None):
        self.routes.pop((kind, sni or path), None)


class Job:
    """A cluster's scheduler or a worker, as its resource manager sees it."""

    def __init__(self, name):
        self.name = name
        self.alive = False
        self.started = False
        self.stopped = 0
        self.stop_done = 0
        self.booted = False
        self.hook_failed = False
        self.check_false = False
        self.announced_closing = False
        self.reported_closed = False
        self.reported_active = False


class Sim:
    def __init__(self, case):
        self.case = case
        self.rng = random.Random(case["seed"])
        self.viol = []
        self.jobs = {}
        self.wjobs = {}
        self.cl_of = {}
        self.sched = {}  # cluster name -> scheduler state
        self.asked = {}
        self.faulting = False
        self.quiet = False
        self.last_check_ok = {}
        self.max_workers = case.get("max_workers")
        self.commit_faults = case.get("faults", 0)
        self.crash_p = case.get("crash", 0)
        self.fail_updates = 0
        self.restarts = 0
        self.hbtimes = {}
        self.fails = {}
        self.requested_stop = {}
        self.running_since = {}
        self.backend_up = 0

    def bad(self, prop, clause, msg):
        self.viol.append((prop, clause, msg))

    def now_ms(self):
        return 1_600_000_000_000 + int(asyncio.get_event_loop().time() * 1000)

    # ---- hooks
    async def pause(self, hi=None):
        r = self.rng.random()
        if r >= 0.3:
            await asyncio.sleep(0 if r < 0.6 else self.rng.random() * (hi or 2))
        while self.dead is not None:  # nothing happens in a dead process
            await asyncio.sleep(0.01)


def make_backend(sim):
    rng = sim.rng
    bulk = sim.case.get("bulk", False)

    class SimBackend(DBBackendBase):
        supports_bulk_shutdown = bulk

        async def do_start_cluster(self, cluster):
            j = sim.jobs.setdefault(cluster.name, Job(cluster.name))
            if cluster.target >= J.STOPPED and cluster.status >= J.CLOSING:
                sim.bad("C06", "stopping-cluster-is-not-started", cluster.name)
            j.started = True
            await sim.pause()
            for i in range(rng.randrange(3)):
                if not sim.quiet and rng.random() < 0.08:
                    j.hook_failed = True
                    raise ValueError("start failed")
                yield {"job": cluster.name, "i": i}
                await sim.pause(3)
            if not sim.quiet and rng.random() < 0.08:
                j.hook_failed = True
                raise ValueError("start failed")
            if not sim.quiet and rng.random() < 0.06:
                await asyncio.sleep(1000)
            j.alive = True
            yield {"job": cluster.name, "i": "up"}
            if cluster.name not in sim.sched:
                sim.spawn(scheduler(sim, cluster.name))

        async def do_stop_cluster(self, cluster):
            j = sim.jobs.setdefault(cluster.name, Job(cluster.name))
            j.stopped += 1
            if cluster.state.get("job", cluster.name) != cluster.name:
                sim.bad("C10", "state-of-another-cluster", f"{cluster.name}: {cluster.state}")
            await sim.pause()
            j.alive = False
            j.stop_done += 1
            if bulk:
                for w, c in sim.cl_of.items():
                    if c == cluster.name and w in sim.wjobs:
                        sim.wjobs[w].alive = False
                        sim.wjobs[w].stop_done += 1
            if not sim.quiet and rng.random() < 0.1:
                raise ValueError("stop failed")

        async def do_check_clusters(self, clusters):
            out = []
            for c in clusters:
                j = sim.jobs.get(c.name)
                ok = j is None or not j.started or j.alive or j.hook_failed or c.status < J.SUBMITTED
                if c.status == J.SUBMITTED and j is not None and not j.alive:
                    ok = False
                out.append(ok)
            asked = [(c, c.status, c.target) for c in clusters]
            await sim.pause(5)
            for (c, s, t), ok in zip(asked, out):
                j = sim.jobs.get(c.name)
                if not ok:
                    if j:
                        j.check_false = True
                    must = c.status == J.SUBMITTED and c.target == J.RUNNING and not sim.commit_faults
                    if must:
                        sim.later(0.001, lambda c=c: c.target >= J.STOPPED or sim.bad("C09", "dead-cluster-is-failed", f"{c.name} dead but {c.target}"))
            if not sim.quiet and rng.random() < 0.1:
                for (c, s, t), ok in zip(asked, out):
                    if not ok:
                        sim.checks_off.add(c.name)
                sim.later_clear()
                raise ValueError("check failed")
            return out

        async def do_start_worker(self, worker):
            j = sim.wjobs.setdefault(worker.name, Job(worker.name))
            sim.cl_of[worker.name] = worker.cluster.name
            j.started = True
            if worker.cluster.status >= J.STOPPED:
                sim.bad("C06", "no-worker-is-started-in-a-finished-cluster", worker.name)
            await sim.pause(3)
            if not sim.quiet and rng.random() < 0.12:
                j.hook_failed = True
                raise ValueError("start failed")
            yield {"w": worker.name}
            early = rng.random() < 0.5
            if early:
                j.alive = True
                sim.spawn(workerjob(sim, j))
            await sim.pause(3)
            if not sim.quiet and rng.random() < 0.08:
                j.hook_failed = True
                raise ValueError("start failed")
            if not sim.quiet and rng.random() < 0.04:
                j.hook_failed = True  # times out
                await asyncio.sleep(1000)
            if not early:
                j.alive = True
                sim.spawn(workerjob(sim, j))

        async def do_stop_worker(self, worker):
            j = sim.wjobs.setdefault(worker.name, Job(worker.name))
            j.stopped += 1
            await sim.pause()
            j.alive = False
            j.stop_done += 1
            if not sim.quiet and rng.random() < 0.1:
                raise ValueError("stop failed")

        async def do_check_workers(self, workers):
            out = []
            for w in workers:
                j = sim.wjobs.get(w.name)
                out.append(bool(j is not None and j.alive))
            asked = [(w, w.status, w.target) for w in workers]
            await sim.pause(5)
            for (w, s, t), ok in zip(asked, out):
                j = sim.wjobs.get(w.name)
                if not ok:
                    if j:
                        j.check_false = True
                    if w.status == J.SUBMITTED and w.target == J.RUNNING and not sim.commit_faults:
                        sim.later(0.001, lambda w=w: w.target >= J.CLOSING or sim.bad("C09", "dead-worker-is-failed", f"{w.name} dead but {w.target}"))
            if not sim.quiet and rng.random() < 0.1:
                sim.later_clear()
                raise ValueError("check failed")
            return out

    return SimBackend


async def workerjob(sim, j):
    await asyncio.sleep(sim.rng.random() * 5)
    if sim.rng.random() < 0.1 and not sim.quiet:
        j.alive = False
        return
    if j.alive:
        j.booted = True


async def scheduler(sim, name):
    """The cluster's scheduler: boots, heartbeats, scales, loses workers."""
    rng = sim.rng
    st = sim.sched[name] = SimpleNamespace(count=0, closing=set(), closed=set(), known=set(), dead=set(), up=False)
    await asyncio.sleep(rng.random() * (8 if rng.random() < 0.8 else 60))
    j = sim.jobs[name]
    if rng.random() < 0.1 and not sim.quiet:
        j.alive = False
    if not j.alive:
        return
    st.up = True
    period = sim.case.get("hb", 5)
    mute_until = 0
    t0 = sim.loop.time
    while j.alive:
        if not sim.quiet:
            r = rng.random()
            if r < 0.25:
                st.count = rng.randrange(0, 9)
            elif r < 0.29:
                mute_until = t0() + rng.random() * 60
            elif r < 0.31:
                j.alive = False
                break
        mine = [w for w, c in sim.cl_of.items() if c == name]
        active = set()
        for w in mine:
            wj = sim.wjobs[w]
            if wj.alive and wj.booted and w not in st.closing:
                active.add(w)
                st.known.add(w)
            elif w in st.known and not (wj.alive and w not in st.dead) and w not in st.closed:
                st.closing.discard(w)
                st.closed.add(w)
        # scale down gracefully
        while len(active) > st.count and rng.random() < 0.7:
            w = rng.choice(sorted(active))
            active.discard(w)
            st.closing.add(w)
            asyncio.ensure_future(closer(sim, st, w))
        # lose a worker
        if not sim.quiet and active and rng.random() < 0.08:
            w = rng.choice(sorted(active))
            sim.wjobs[w].alive = False
            active.discard(w)
            st.closed.add(w)
        msg = {
            "api_address": f"http://{name}/api", "scheduler_address": f"tls://{name}:1", "dashboard_address": f"http://{name}:2" if rng.random() < 0.8 else "",
            "count": st.count, "active_workers": sorted(active), "closing_workers": sorted(st.closing), "closed_workers": sorted(st.closed),
        }
        if t0() >= mute_until and sim.backend is not None and sim.dead is None:
            ok = await sim.heartbeat(name, msg)
            if ok:
                st.closed.clear()
        await asyncio.sleep(period * (0.5 + rng.random()) if not sim.quiet else period)


async def closer(sim, st, w):
    await asyncio.sleep(sim.rng.random() * 8)
    j = sim.wjobs[w]
    if w in st.closing:
        st.closing.discard(w)
        st.closed.add(w)
    j.alive = False


def sim_methods():
    def spawn(self, coro):
        t = self.loop.create_task(coro)
        self.tasks.append(t)
        return t

    def later(self, d, fn):
        h = self.loop.call_later(d, fn)
        self.checks.append(h)

    def later_clear(self):
        for h in self.checks[-50:]:
            h.cancel()

    Sim.spawn, Sim.later, Sim.later_clear = spawn, later, later_clear


sim_methods()


async def _heartbeat(sim, name, msg):
    """Delivers a heartbeat the way the API handler does, with its effect
    checked."""
    b = sim.backend
    c = b.db.get_cluster(name)
    if c is None:
        return True
    before = {w.name: (w.status, w.target, w.close_expected) for w in c.workers.values()}
    cb = (c.status, c.target, c.count, c.api_address, c.scheduler_address)
    active, closing, closed = (set(msg[k]) for k in ("active_workers", "closing_workers", "closed_workers"))
    for w in active | closing:
        if w in sim.wjobs:
            sim.wjobs[w].reported_active = True
    for w in closing:
        if w in sim.wjobs:
            sim.wjobs[w].announced_closing = True
    for w in closed:
        if w in sim.wjobs:
            sim.wjobs[w].reported_closed = True
    sim.in_heartbeat = (name, active, closing, closed)
    try:
        await b.on_cluster_heartbeat(name, msg)
    except DBFault:
        return False
    except Exception as e:
        sim.bad("C08", "heartbeats-are-processed", f"{name}: {e!r}")
        return True
    finally:
        sim.in_heartbeat = None
    if cb[1] > J.RUNNING:
        if before != {w.name: (w.status, w.target, w.close_expected) for w in c.workers.values()} or cb[:3] != (c.status, c.target, c.count):
            sim.bad("C06", "heartbeats-of-stopping-clusters-change-nothing", name)
        return True
    sim.hbtimes[name] = sim.now_ms()
    lim = c.config.get("cluster_max_workers")
    want = msg["count"] if lim is None else min(msg["count"], lim)
    if c.last_heartbeat != sim.now_ms():
        sim.bad("C09", "heartbeat-is-remembered", f"{name}: {c.last_heartbeat} != {sim.now_ms()}")
    if c.count != want:
        sim.bad("C04" if c.count > want else "C08", "count-is-the-requested-one-within-the-limit", f"{name}: requested {msg['count']} limit {lim} recorded {c.count}")
    if cb[0] != J.RUNNING and c.api_address != msg["api_address"]:
        sim.bad("C08", "addresses-are-recorded", name)
    pend = []
    for w in c.workers.values():
        s0, t0, ce0 = before[w.name]
        if s0 >= J.STOPPED:
            if (w.status, w.target) != (s0, t0):
                sim.bad("C08", "finished-workers-are-left-alone", w.name)
            continue
        if w.name in closing or w.name in active:
            if w.name in closing and not w.close_expected:
                sim.bad("C08", "announced-closing-is-remembered", w.name)
            if s0 < J.RUNNING and w.status != J.RUNNING:
                sim.bad("C08", "connected-workers-are-running", f"{w.name} {w.status}")
            if w.target != t0:
                sim.bad("C08", "connected-workers-are-not-stopped", f"{w.name} {t0} -> {w.target}")
        elif w.name in closed:
            if t0 <= J.RUNNING and w.target != (J.STOPPED if ce0 else J.FAILED):
                sim.bad("C08", "closed-workers-are-stopped-or-failed", f"{w.name} announced={ce0} target {w.target}")
        elif t0 == J.RUNNING:
            pend.append((w, s0))
        elif w.target != t0 and not (t0 == J.CLOSING and w.target >= J.STOPPED):
            sim.bad("C08", "stopping-workers-keep-stopping", f"{w.name} {t0} -> {w.target}")
    n_stop = min(len(pend), max(0, len(active) + len(pend) - want))
    stopped = [(w, s) for w, s in pend if w.target != J.RUNNING]
    if len(stopped) != n_stop:
        sim.bad("C08", "stops-exactly-the-surplus-of-pending-workers", f"{name}: {len(active)} active, {len(pend)} pending, count {want}: stopped {len(stopped)}")
    if any(w.target != J.STOPPED for w, _ in stopped):
        sim.bad("C08", "surplus-workers-are-stopped", name)
    kept_created = [w for w, s in pend if s == J.CREATED and w.target == J.RUNNING]
    if kept_created and any(s == J.SUBMITTED for w, s in stopped):
        sim.bad("C08", "unsubmitted-workers-are-stopped-first", name)
    return True


class DBFault(Exception):
    pass


def snapshot(db):
    out = {}
    for c in db.name_to_cluster.values():
        out["c", c.id] = (c.id, c.name, c.username, c.token, int(c.status), int(c.target), c.count, dict(c.state), dict(c.options), dict(c.config), c.scheduler_address, c.dashboard_address, c.api_address, c.tls_cert, c.tls_key, c.start_time, c.stop_time)
        for w in c.workers.values():
            out["w", w.id] = (w.id, w.name, c.id, int(w.status), int(w.target), dict(w.state), w.start_time, w.stop_time, bool(w.close_expected))
    return out


def rows(db):
    out = {}
    with sim_engine(db).begin() as conn:
        for c in conn.execute(D.clusters.select()):
            cert, key = db.decode_tls_credentials(c.tls_credentials)
            out["c", c.id] = (c.id, c.name, c.username, db.decode_token(c.token), int(c.status), int(c.target), c.count, dict(c.state), dict(c.options), dict(c.config), c.scheduler_address, c.dashboard_address, c.api_address, cert, key, c.start_time, c.stop_time)
        for w in conn.execute(D.workers.select()):
            out["w", w.id] = (w.id, w.name, w.cluster_id, int(w.status), int(w.target), dict(w.state), w.start_time, w.stop_time, bool(w.close_expected))
    return out


def sim_engine(db):
    return getattr(db, "_real_engine", db.db)


def index_problem(db):
    ids, names, users = db.id_to_cluster, db.name_to_cluster, db.username_to_clusters
    for k, c in ids.items():
        if c.id != k or names.get(c.name) is not c or users.get(c.username, {}).get(c.name) is not c:
            return f"cluster {c.name} of {c.username}"
    n = sum(len(d) for d in users.values())
    if not len(ids) == len(names) == n:
        return f"{len(ids)} by id, {len(names)} by name, {n} by user"
    for u, d in users.items():
        for c in d.values():
            if c.username != u:
                return f"{c.name} of {c.username} listed under {u}"
    return None


class FaultyEngine:
    def __init__(self, sim, real):
        self.sim, self.real = sim, real

    def __getattr__(self, n):
        return getattr(self.real, n)

    def begin(self):
        eng = self

        class Tx:
            def __enter__(s):
                if eng.sim.dead is not None and eng.sim.dead == id(eng):
                    raise DBFault("gateway is gone")
                s.fail = None
                r = eng.sim.rng
                if eng.sim.commit_faults and not eng.sim.quiet and r.random() < eng.sim.commit_faults:
                    s.fail = r.choice(["begin", "commit"])
                if s.fail == "begin":
                    raise DBFault("begin")
                s.tx = eng.real.begin()
                return s.tx.__enter__()

            def __exit__(s, t, e, tb):
                if t is None and s.fail == "commit":
                    x = DBFault("commit")
                    s.tx.__exit__(DBFault, x, None)
                    raise x
                out = s.tx.__exit__(t, e, tb)
                sim = eng.sim
                if t is None and sim.crash_p and sim.watching and not sim.quiet and sim.rng.random() < sim.crash_p:
                    # the gateway dies right after this commit
                    sim.watching = False
                    sim.dead = id(eng)
                    sim.crashed.set()
                    raise DBFault("crash")
                return out

        return Tx()


def wrap_db(sim, db):
    db._real_engine = db.db
    db.db = FaultyEngine(sim, db.db)
    for n in ("update_cluster", "update_clusters", "update_worker", "update_workers", "create_cluster", "create_worker", "cleanup_expired"):
        real = getattr(db, n)

        def wrapped(*a, _real=real, _n=n, **k):
            old = snapshot(db)
            fault = False
            try:
                return _real(*a, **k)
            except DBFault:
                fault = True
                raise
            finally:
                if sim.dead != id(db.db):
                    after(_n, a, fault, old)

        def after(_n, a, fault, old):
                new = snapshot(db)
                if fault and new != old:
                    sim.bad("C10", "memory-unchanged-when-refused", _n)
                r = rows(db)
                if r != new:
                    d = [x for x in set(r) | set(new) if r.get(x) != new.get(x)]
                    sim.bad("C10", "memory-equals-database", f"{_n}: {d[:2]} database {[r.get(x) for x in d[:2]]} memory {[new.get(x) for x in d[:2]]}")
                p = index_problem(db)
                if p:
                    sim.bad("C10", "indexes-agree", f"{_n}: {p}")
                if _n == "cleanup_expired":
                    gone = [x for x in old if x not in new]
                    cut = sim.now_ms() - a[0] * 1000
                    for x in gone:
                        if x[0] == "c" and not (old[x][4] >= J.STOPPED and old[x][16] is not None and old[x][16] < cut):
                            sim.bad("C10", "only-old-finished-clusters-are-removed", str(old[x][:6]))
                    for x in new:
                        if x[0] == "c" and new[x][16] is not None and new[x][16] < cut and not fault:
                            sim.bad("C10", "old-finished-clusters-are-removed", str(new[x][:6]))

        setattr(db, n, wrapped)


def watch(sim):
    """Observes every change of status and target."""

    def cset(self, n, v):
        old = self.__dict__.get(n)
        object.__setattr__(self, n, v)
        if old is None or not sim.watching:
            return
        if n == "status" and old != v:
            if v < old or old >= J.STOPPED:
                sim.bad("C06", "status-only-moves-forward", f"{self.name} {old} -> {v}")
            j = sim.jobs.get(self.name)
            if v >= J.STOPPED:
                if old > J.CREATED and j is not None and j.started and not j.stop_done:
                    sim.bad("C06", "torn-down-before-final", f"{self.name} {old} -> {v}")
                if v != self.target:
                    sim.bad("C06", "ends-as-requested", f"{self.name} {v} requested {self.target}")
                if any(w.status < J.STOPPED for w in self.workers.values()):
                    sim.bad("C06", "workers-are-final-first", self.name)
                left = [r for r in sim.backend.proxy.routes if r[1] in (self.name, "/clusters/" + self.name)]
                if left:
                    sim.bad("C06", "routes-removed-before-final", f"{self.name} {left}")
            if v == J.RUNNING and self.target >= J.STOPPED:
                sim.bad("C06", "told-to-stop-never-runs", self.name)
        if n == "target" and old != v:
            if old >= J.STOPPED and v < J.STOPPED:
                sim.bad("C06", "stop-request-is-never-undone", f"{self.name} {old} -> {v}")
            if old == J.FAILED and v == J.STOPPED:
                sim.bad("C06", "requested-outcome-is-kept", f"{self.name} {old} -> {v}")
            if v == J.FAILED and old < J.STOPPED:
                sim.check_fail_reason(self)
        if n == "count" and old != v and sim.max_workers is not None and v > sim.max_workers:
            sim.bad("C04", "count-within-limit", f"{self.name} {v} > {sim.max_workers}")

    def wset(self, n, v):
        old = self.__dict__.get(n)
        object.__setattr__(self, n, v)
        if not sim.watching:
            return
        if n == "cluster" and v is not None:
            c = v
            if c.target >= J.STOPPED or c.status >= J.CLOSING:
                sim.bad("C06", "told-to-stop-starts-no-worker", c.name)
            return
        if old is None:
            return
        if n == "status" and old != v:
            if v < old or old >= J.STOPPED:
                sim.bad("C08", "status-only-moves-forward", f"{self.name} {old} -> {v}")
            j = sim.wjobs.get(self.name)
            if v >= J.STOPPED and old > J.CREATED and j is not None and j.started and not j.stop_done:
                sim.bad("C08", "worker-was-asked-to-stop", f"{self.name} {old} -> {v}")
        if n == "close_expected" and old and not v:
            sim.bad("C08", "announced-closing-is-kept", self.name)
        if n == "target" and old != v:
            if (old >= J.STOPPED and v < J.STOPPED) or (old >= J.CLOSING and v < J.CLOSING):
                sim.bad("C08", "stop-request-is-never-undone", f"{self.name} {old} -> {v}")
            if v == J.FAILED:
                sim.check_worker_fail_reason(self, old == J.RUNNING)

    D.Cluster.__setattr__ = cset
    D.Worker.__setattr__ = wset


def check_fail_reason(sim, c):
    if sim.commit_faults:
        return  # a refused state update is a failed start
    j = sim.jobs.get(c.name)
    if sim.requested_stop.get(c.name) or sim.shutting:
        return
    if j is not None and j.hook_failed:
        return
    now = sim.now_ms()
    b = sim.backend
    if c.status <= J.SUBMITTED and now - c.start_time >= b.cluster_start_timeout * 1000 - 1:
        return
    if c.status == J.CREATED and j is not None:  # start hook timing out
        return
    if c.status == J.SUBMITTED and j is not None and not j.alive:
        return
    if c.status == J.RUNNING:
        hb = max(sim.hbtimes.get(c.name, 0), sim.backend_up)
        if now - hb > b.cluster_heartbeat_timeout * 1000 - 1:
            return
        if sim.fails.get(c.name, 0) >= b.worker_start_failure_limit:
            return
    sim.bad("C09", "only-broken-clusters-are-failed", f"{c.name} status {c.status} failed at {now}, heartbeat {sim.hbtimes.get(c.name)}, worker failures {sim.fails.get(c.name, 0)}")


def check_worker_fail_reason(sim, w, judge):
    j = sim.wjobs.get(w.name)
    c = w.cluster
    now = sim.now_ms()
    sim.fails[c.name] = sim.fails.get(c.name, 0) + 1
    if sim.commit_faults or not judge:
        return
    if j is None:
        sim.bad("C09", "only-broken-workers-are-failed", f"{w.name} never started")
        return
    if j.hook_failed or j.reported_closed:
        return
    if w.status <= J.SUBMITTED and now - w.start_time >= sim.backend.worker_start_timeout * 1000 - 1:
        return
    if w.status == J.SUBMITTED and not j.alive:
        return
    sim.bad("C09", "only-broken-workers-are-failed", f"{w.name} status {w.status} alive {j.alive}")


Sim.check_fail_reason = check_fail_reason
Sim.check_worker_fail_reason = check_worker_fail_reason
Sim.heartbeat = _heartbeat


async def start_backend(sim, url, keys):
    cls = make_backend(sim)
    cfg = Config()
    if sim.max_workers is not None:
        cfg.ClusterConfig.cluster_max_workers = sim.max_workers
    b = cls(
        config=cfg, db_url=url, db_encrypt_keys=keys, stop_clusters_on_shutdown=sim.case.get("stop_on_shutdown", True) or url.endswith(":memory:"), api_url="http://gw/api", parallelism=sim.case.get("parallelism", 3),
        cluster_start_timeout=30, worker_start_timeout=20, cluster_heartbeat_timeout=25, worker_start_failure_limit=sim.case.get("failure_limit", 3),
        cluster_status_period=4, worker_status_period=4, check_timeouts_period=3, db_cleanup_period=30, db_cluster_max_age=40,
    )
    log = logging.getLogger("sim")
    log.disabled = True
    b.log = log
    sim.backend = b
    real_init = DataManager.__init__

    orig = D.DataManager

    class DM(orig):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            if sim.last_memory is not None:
                s = snapshot(self)
                if s != sim.last_memory:
                    d = [x for x in set(s) | set(sim.last_memory) if s.get(x) != sim.last_memory.get(x)]
                    sim.bad("C10", "restart-loses-nothing", f"{[(s.get(x), sim.last_memory.get(x)) for x in d[:2]]}")
            p = index_problem(self)
            if p:
                sim.bad("C10", "indexes-agree", "after loading: " + p)
            for c in self.name_to_cluster.values():
                if c.ready.is_set() != (c.status >= J.RUNNING) or c.shutdown.is_set() != (c.status >= J.STOPPED):
                    sim.bad("C10", "waiters-see-loaded-clusters", f"{c.name} {c.status}")
            wrap_db(sim, self)

    D.DataManager = DM
    sim.backend_up = sim.now_ms()
    try:
        await b.setup({})
    finally:
        D.DataManager = orig
    real_check = b._check_timeouts

    async def checked():
        r = await real_check()
        if sim.commit_faults or sim.dead is not None:
            return r
        now = sim.now_ms()
        for c in b.db.name_to_cluster.values():
            if not c.is_active():
                continue
            if c.status == J.SUBMITTED and c.start_time < now - b.cluster_start_timeout * 1000:
                sim.bad("C09", "clusters-late-to-start-are-failed", f"{c.name} started {c.start_time} now {now}")
            if c.status == J.RUNNING:
                if c.last_heartbeat < now - b.cluster_heartbeat_timeout * 1000:
                    sim.bad("C09", "silent-clusters-are-failed", f"{c.name} heard {c.last_heartbeat} now {now}")
                else:
                    for w in c.workers.values():
                        if w.status == J.SUBMITTED and w.target == J.RUNNING and w.start_time < now - b.worker_start_timeout * 1000:
                            sim.bad("C09", "workers-late-to-start-are-failed", w.name)
        return r

    b._check_timeouts = checked
    real_rc = b._check_cluster_scale

    async def scaled(cluster):
        n0 = len(cluster.active_workers())
        tot = len(cluster.workers)
        t0 = cluster.target
        try:
            return await real_rc(cluster)
        finally:
            if not sim.commit_faults and t0 == J.RUNNING and sim.dead is None:
                made = len(cluster.workers) - tot
                lim = cluster.worker_start_failure_count >= b.worker_start_failure_limit
                want = 0 if lim else max(0, cluster.count - n0)
                if made != want:
                    sim.bad("C08", "creates-exactly-the-missing-workers", f"{cluster.name}: count {cluster.count} active {n0} created {made}")
                if lim and cluster.target != J.FAILED:
                    sim.bad("C09", "repeated-start-failures-fail-the-cluster", cluster.name)
            if sim.max_workers is not None and len(cluster.active_workers()) > max(n0, sim.max_workers):
                sim.bad("C04", "workers-within-limit", f"{cluster.name} {len(cluster.active_workers())} > {sim.max_workers}")

    b._check_cluster_scale = scaled
    return b


async def kill_backend(sim):
    """The gateway process dies: nothing it does from now on counts."""
    b = sim.backend
    sim.watching = False
    sim.dead = id(b.db.db)
    for h in sim.checks:
        h.cancel()
    mem = snapshot(b.db)
    for t in list(b.reconcilers) + list(b.task_pool.tasks):
        t.cancel()
    await asyncio.sleep(0)
    await asyncio.gather(*b.reconcilers, *b.task_pool.tasks, return_exceptions=True)
    await b.session.close()
    if sim.crashed.is_set():
        # what was being started was not recorded, so nobody can stop it
        for kind, jobs in (("c", sim.jobs), ("w", sim.wjobs)):
            for r in mem.values():
                j = jobs.get(r[1])
                if j is not None and r[4 if len(r) > 10 else 3] == J.CREATED:
                    j.alive = False
        sim.crashed.clear()
    sim.backend = None
    sim.dead = None
    return mem


async def scenario(sim):
    sim.loop = asyncio.get_event_loop()
    sim.tasks, sim.checks, sim.checks_off, sim.wstart = [], [], set(), {}
    sim.in_heartbeat = None
    sim.dead = None
    sim.crashed = asyncio.Event()
    sim.last_memory = None
    sim.watching = True
    sim.shutting = False
    case, rng = sim.case, sim.rng
    tmp = None
    url, keys = "sqlite:///:memory:", []
    if case.get("restarts"):
        tmp = tempfile.mkdtemp(prefix="dbsim")
        url, keys = f"sqlite:///{tmp}/db.sqlite", [Fernet.generate_key()]
    try:
        b = await start_backend(sim, url, keys)
        names = []
        for step in range(case.get("steps", 40)):
            b = sim.backend
            r = rng.random()
            try:
                if r < 0.25 and len(names) < case.get("clusters", 5):
                    user = models.User(rng.choice(["alice", "bob", "clusters"]))
                    names.append(await b.start_cluster(user, {}))
                elif r < 0.4 and names:
                    n = rng.choice(names)
                    c = b.db.get_cluster(n)
                    sim.requested_stop[n] = True
                    await b.stop_cluster(n, failed=rng.random() < 0.3)
                    if c is not None and c.target < J.STOPPED:
                        sim.bad("C06", "stop-requests-are-recorded", n)
                elif r < 0.5 and names:
                    n = rng.choice(names)
                    j = sim.jobs.get(n)
                    if j is not None and j.alive and n in sim.sched and sim.sched[n].up:
                        j.alive = False
            except DBFault:
                pass
            if sim.dead is not None or r > 0.93 and case.get("restarts"):
                crashed = sim.dead is not None
                mem = await kill_backend(sim)
                sim.last_memory = None if crashed else mem
                sim.watching = False
                await asyncio.sleep(rng.random() * 10)
                sim.fails.clear()
                b = await start_backend(sim, url, keys)
                sim.watching = True
                sim.last_memory = None
            try:
                await asyncio.wait_for(sim.crashed.wait(), rng.random() * case.get("gap", 6))
            except asyncio.TimeoutError:
                pass
            if len(sim.viol) > 5:
                return
        # let everything settle
        sim.quiet = True
        if sim.dead is not None:
            await kill_backend(sim)
            await start_backend(sim, url, keys)
            sim.watching = True
        b = sim.backend
        b.db_cluster_max_age = 1e9
        await asyncio.sleep(case.get("settle", 700))
        settled(sim, b)
        if case.get("final", True) and b.stop_clusters_on_shutdown:
            sim.shutting = True
            try:
                await asyncio.wait_for(b.cleanup(), 5000)
            except asyncio.TimeoutError:
                sim.bad("C07", "shutdown-completes", "cleanup never returned")
            for c in b.db.name_to_cluster.values():
                if c.status < J.STOPPED:
                    sim.bad("C06", "shutdown-stops-every-cluster", c.name)
    finally:
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)


def settled(sim, b):
    for t in b.reconcilers:
        if t.done():
            sim.bad("C07", "reconcilers-keep-running", repr(t))
            break
    if sum(not t.done() for t in b.task_pool.tasks) < 4:
        sim.bad("C09", "periodic-checks-keep-running", f"{len(b.task_pool.tasks)} of 4")
    for c in b.db.name_to_cluster.values():
        j = sim.jobs.get(c.name)
        if c.target >= J.STOPPED and c.status < J.STOPPED:
            sim.bad("C07", "stopping-clusters-get-stopped", f"{c.name} {c.status} -> {c.target}")
        if c.status == J.CREATED:
            sim.bad("C07", "created-clusters-get-started", c.name)
        if c.status == J.SUBMITTED and c.target == J.RUNNING:
            sim.bad("C07", "submitted-clusters-end-up-running-or-failed", f"{c.name}")
        if c.status >= J.CLOSING and not c.ready.is_set():
            sim.bad("C07", "waiters-are-released", c.name)
        if c.status >= J.STOPPED and not c.shutdown.is_set():
            sim.bad("C07", "waiters-are-released", c.name)
        if c.status >= J.STOPPED and (c.stop_time is None or (j is not None and j.alive)):
            sim.bad("C06", "finished-clusters-are-torn-down", c.name)
        if c.status == J.RUNNING and c.target == J.RUNNING:
            if not (j is not None and j.alive):
                sim.bad("C09", "silent-clusters-are-failed", c.name)
            elif ("SNI", c.name) not in b.proxy.routes or b.proxy.routes["SNI", c.name] != c.scheduler_address:
                sim.bad("C07", "running-clusters-are-reachable", c.name)
            n = len(c.active_workers())
            if n < c.count and c.worker_start_failure_count < b.worker_start_failure_limit:
                sim.bad("C08", "missing-workers-are-created", f"{c.name} count {c.count} active {n}")
        for w in c.workers.values():
            wj = sim.wjobs.get(w.name)
            if w.target >= J.STOPPED and w.status < J.STOPPED:
                sim.bad("C07", "stopping-workers-get-stopped", f"{w.name} {w.status} -> {w.target} in {c.status}")
            if w.status == J.CREATED and c.status < J.CLOSING:
                sim.bad("C07", "created-workers-get-started", f"{w.name} in {c.status}")
            if w.status >= J.STOPPED and wj is not None and wj.alive:
                sim.bad("C08", "finished-workers-are-torn-down", w.name)


def run_case(case):
    sim = Sim(case)
    old = (D.timestamp, D.new_keypair, D.Proxy)
    olduid = uuid.uuid4
    cset, wset = D.Cluster.__setattr__, D.Worker.__setattr__
    idr = random.Random(case["seed"] + 1)
    try:
        D.timestamp = sim.now_ms
        D.new_keypair = lambda n: KEYS
        D.Proxy = FakeProxy
        D.uuid.uuid4 = lambda: uuid.UUID(int=idr.getrandbits(128), version=4)
        watch(sim)
        try:
            vloop.run(scenario, sim)
        except vloop.Deadlock:
            sim.bad("C07", "nothing-hangs", "all tasks wait for ever")
    finally:
        D.timestamp, D.new_keypair, D.Proxy = old
        uuid.uuid4 = olduid
        D.Cluster.__setattr__, D.Worker.__setattr__ = cset, wset
    return sim.viol


def cases(tier, seed):
    rng = random.Random(seed)
    n = {"quick": 400, "deep": 3000, "thorough": 20000}[tier]
    for i in range(n):
        yield {
            "kind": "sim", "seed": rng.randrange(1 << 30), "bulk": i % 2 == 1, "restarts": i % 4 == 3, "crash": 0.03 if i % 8 == 7 else 0, "faults": [0, 0, 0, 0, 0.02, 0.15][i % 6],
            "clusters": rng.choice([1, 2, 5, 8]), "steps": rng.choice([15, 40, 80]), "gap": rng.choice([0.5, 3, 8]), "parallelism": rng.choice([1, 2, 5]),
            "failure_limit": rng.choice([1, 3, 100]), "max_workers": rng.choice([None, 0, 1, 3, 6]), "hb": rng.choice([1, 4, 8]),
        }


def harness(pid):
    def run(case):
        if case.get("kind") != "sim":
            return []
        return [(c, m) for p, c, m in run_case(case) if p == pid]

    return run
