"""The real scheduler service against a simulated scheduler and gateway, under
virtual time: every order of joins, departures, scale and adapt requests."""
import asyncio
import json
import logging
import random
import types

from . import vloop

logging.disable(logging.CRITICAL)
PARALLEL = 4
PERIOD, HB = 3.0, 15.0


def cases(tier, seed):
    rng = random.Random(seed)
    yield {"kind": "client"}
    n = {"quick": 6000, "deep": 16000, "thorough": 40000}[tier]
    for k in range(n):
        idle = rng.choice([0, 0, 10, 40])
        ops = []
        for _ in range(rng.randrange(4, 30)):
            ops.append(rng.choice(OPS)(rng))
        yield {"kind": "service", "ops": ops, "idle": idle, "hb": rng.choice([HB, HB, 0]), "rng": rng.randrange(1 << 30)}


def bounds(r):
    lo = r.choice([None, 0, 1, 3])
    hi = r.choice([None, (lo or 0), (lo or 0) + 1, (lo or 0) + 4])
    return [lo, hi]


OPS = [
    lambda r: ["scale", r.randrange(6)],
    lambda r: ["scale", r.randrange(6)],
    lambda r: ["adapt", *bounds(r)],
    lambda r: ["adapt", *bounds(r)],
    lambda r: ["off"],
    lambda r: ["together", [r.choice(OPS[:5])(r) for _ in range(r.randrange(2, 4))]],
    lambda r: ["join", r.randrange(1, 4)],
    lambda r: ["join", r.randrange(1, 4)],
    lambda r: ["leave", r.randrange(8)],
    lambda r: ["rejoin", r.randrange(8)],
    lambda r: ["target", r.choice([0, 1, 2, 4, 7])],
    lambda r: ["target", r.choice([0, 1, 2, 4, 7])],
    lambda r: ["target", "fail"],
    lambda r: ["busy", r.randrange(8)],
    lambda r: ["done"],
    lambda r: ["unrunnable", r.randrange(2)],
    lambda r: ["gateway", r.choice(["ok", "ok", "fail", "slow"])],
    lambda r: ["retire", r.choice(["ok", "ok", "fail", "slow"])],
    lambda r: ["sleep", r.choice([0, 0.0213, 0.3107, 1.0131, 3.3171, 7.1237])],
    lambda r: ["sleep", r.choice([0, 0.0213, 0.3107, 1.0131, 3.3171, 16.1237])],
    lambda r: ["settle"],
    lambda r: ["rest"],
]


def run(case):
    try:
        if case.get("kind") == "client":
            return vloop.run(client)
        if case.get("kind") != "service" or "ops" not in case:
            return []
        return vloop.run(service, case)
    except vloop.Deadlock:
        return [("heartbeat_loop::goes-on-after-a-failure", "the service stopped doing anything")]


class Worker:
    def __init__(self, name):
        self.name, self.processing = name, {}


class World:
    def __init__(self, case, loop):
        self.loop, self.rng, self.bad = loop, random.Random(case["rng"]), []
        self.workers, self.services, self.plugins = {}, {}, []
        self.address, self.unrunnable, self.transition_log = "tls://10.0.0.1:8786", set(), []
        self.time_started = loop.time()
        self.target = 0
        self.gw, self.rt = "ok", "ok"
        self.inflight = 0
        self.free_since = loop.time()
        self.joined = set()
        self.messages = []  # (time, message, failed)
        self.announced, self.retiring, self.lost = set(), set(), []
        self.chosen = []
        self.downs = []
        self.serial = 0
        self.idle_from = loop.time()

    def fail(self, clause, msg):
        self.bad.append((clause, f"t={self.loop.time():.3f}: {msg}"))

    # the scheduler
    def add_plugin(self, p, *a, **k):
        self.plugins.append(p)

    def join(self, name=None):
        self.serial += 1
        name = name or f"worker-{self.serial}"
        addr = f"tls://10.0.0.2:{9000 + self.serial}"
        self.workers[addr] = Worker(name)
        self.joined.add(name)
        for p in self.plugins:
            p.add_worker(self, addr)

    def drop(self, addr):
        w = self.workers.pop(addr)
        self.announced.discard(w.name)
        self.retiring.discard(w.name)
        for p in self.plugins:
            p.remove_worker(self, addr, stimulus_id="x")

    def names(self):
        return {w.name for w in self.workers.values()}

    def workers_to_close(self, target=None, attribute=None, **k):
        idle = sorted(self.workers.values(), key=lambda w: (len(w.processing), w.name))
        n = max(0, len(self.workers) - target)
        out = [getattr(w, attribute or "address") for w in idle[:n]]
        if out and self.rng.random() < 0.2:
            out.pop()
        self.chosen.append(set(out))
        return out

    async def retire_workers(self, workers=None, names=None, remove=True, close_workers=False, **k):
        names = set(names or ())
        if not names <= self.announced:
            self.fail("heartbeat::closed-only-after-announced", f"retiring {sorted(names - self.announced)} which no accepted message announced as closing")
        if not close_workers:
            self.fail("heartbeat::closes-exactly-those-announced", "retired workers keep running")
        self.begin()
        self.retiring |= names
        try:
            await asyncio.sleep(2.2003 if self.rt == "slow" else 0.0101)
            if self.rt == "fail":
                self.retiring -= names
                raise ValueError("can't retire")
            for a, w in list(self.workers.items()):
                if w.name in names and not (self.rt == "slow" and self.rng.random() < 0.3):
                    self.drop(a)
        finally:
            self.end()

    def adaptive_target(self, target_duration=None):
        if self.target == "fail":
            raise ValueError("no target")
        return self.target

    # the gateway
    token = "sekret"

    def begin(self):
        self.inflight += 1

    def end(self):
        self.inflight -= 1
        self.free_since = self.loop.time()

    async def heartbeat(self, msg):
        self.check(json.loads(json.dumps(msg)))
        mode = self.gw
        self.begin()
        try:
            await asyncio.sleep({"slow": 1.5003}.get(mode, 0.0053))
            self.messages.append((self.loop.time(), msg, mode == "fail"))
            if mode == "fail":
                raise OSError("gateway unavailable")
            self.announced = {n for n in msg["closing_workers"]}
        finally:
            self.end()

    def check(self, m):
        svc = self.svc
        a, c, d = (m[k] for k in ("active_workers", "closing_workers", "closed_workers"))
        self.starts.append((self.loop.time(), m["count"]))
        if len(set(a + c + d)) != len(a + c + d):
            self.fail("heartbeat::lists-are-disjoint", f"{m}")
        now = self.names()
        if set(a) | set(c) != now:
            self.fail("heartbeat::every-worker-is-in-a-list", f"connected {sorted(now)}, reported {sorted(set(a) | set(c))}")
        if set(d) != self.joined - now:
            self.fail("heartbeat::closed-workers-are-those-that-left", f"left {sorted(self.joined - now)}, reported {sorted(d)}")
        if c and (len(now) <= m["count"] or set(c) != self.chosen[-1]):
            self.fail("heartbeat::closing-workers-are-those-chosen", f"count {m['count']}, connected {sorted(now)}, closing {c}, chosen {self.chosen[-1:]}")
        if m["count"] != svc.count:
            self.fail("heartbeat::the-requested-count", f"reported {m['count']}, requested {svc.count}")
        if m["scheduler_address"] != self.address or m["api_address"] != "http://10.0.0.1:4321":
            self.fail("heartbeat::own-addresses", f"{m}")

    async def shutdown(self):
        now = self.loop.time()
        if any(w.processing for w in self.workers.values()):
            self.fail("check_idle::only-when-no-worker-is-busy", "shut down while a worker is busy")
        if self.unrunnable:
            self.fail("check_idle::only-when-nothing-waits-for-workers", "shut down while tasks wait for workers")
        if now - self.last_action() <= self.idle:
            self.fail("check_idle::only-after-the-idle-timeout", f"idle for {now - self.last_action()}, timeout {self.idle}")
        self.downs.append(now)
        if self.gw == "fail":
            raise OSError("gateway unavailable")

    def last_action(self):
        return self.transition_log[-1][-1] if self.transition_log else self.time_started

    def act(self):
        self.transition_log.append(("key", "a", "b", {}, "stim", self.loop.time()))

    def is_idle(self):
        return not self.unrunnable and not any(w.processing for w in self.workers.values())


async def service(case):
    from dask_gateway import scheduler_preload as sp

    loop = asyncio.get_running_loop()
    w = World(case, loop)
    w.starts, w.changes = [], []
    w.idle = case["idle"]
    told = {"adaptive": False, "bounds": (None, None), "count": 0}

    class Service(sp.GatewaySchedulerService):
        _count = 0

        @property
        def count(self):
            return self._count

        @count.setter
        def count(self, n):
            old, self._count = self._count, n
            if n != old:
                w.changes.append((loop.time(), n))
                if told.get("explicit") is not None:
                    if n not in told["explicit"] and not told.get("adapting"):
                        w.fail("scale::sets-the-requested-count", f"count became {n}, requested {told['explicit']}")
                elif not told["adaptive"]:
                    w.fail("adapt::adaptive-scaling-is-off", f"count became {n} although no one asked")
                else:
                    lo, hi = told["bounds"]
                    if (lo is not None and n < lo) or (hi is not None and n > hi):
                        w.fail("adapt_loop::requests-stay-within-the-bounds", f"adaptive request for {n}, bounds {lo}..{hi}")

    svc = w.svc = Service(w, io_loop=types.SimpleNamespace(time=loop.time), gateway=w, adaptive_period=PERIOD, idle_timeout=w.idle, heartbeat_period=case["hb"])
    sock = types.SimpleNamespace(getsockname=lambda: ("10.0.0.1", 4321))
    svc.app = types.SimpleNamespace(listen=lambda **k: types.SimpleNamespace(_sockets={1: sock}, stop=lambda: None))
    svc.listen(("", 0))

    async def ask(op, sole=True):
        kind = op[0]
        if kind == "scale":
            if sole:
                told["explicit"] = [op[1]]
            await svc.scale(op[1])
            if sole:
                told.update(explicit=None, adaptive=False, count=op[1])
                if svc.count != op[1]:
                    w.fail("scale::sets-the-requested-count", f"scale({op[1]}) left {svc.count}")
        elif kind == "adapt":
            if sole:
                told.update(adaptive=True, bounds=(op[1], op[2]))
            await svc.adapt(minimum=op[1], maximum=op[2])
        else:
            if sole:
                told["adaptive"] = False
            await svc.adapt(active=False)

    quiet_from = loop.time()
    for op in case["ops"]:
        kind = op[0]
        if kind in ("scale", "adapt", "off"):
            await asyncio.wait_for(ask(op), 60)
        elif kind == "together":
            # requests in one tick: each runs to its end in order, the last decides
            subs = op[1]
            told["explicit"] = [o[1] for o in subs if o[0] == "scale"]
            told["adapting"] = told["adaptive"] or any(o[0] == "adapt" for o in subs)
            tasks = [asyncio.ensure_future(ask(o, False)) for o in subs]
            await asyncio.wait_for(asyncio.gather(*tasks), 60)
            told["adaptive"], told["bounds"] = (True, tuple(subs[-1][1:])) if subs[-1][0] == "adapt" else (False, told["bounds"])
            told["explicit"], told["adapting"] = None, False
            for o in reversed(subs):
                if o[0] == "adapt":
                    break
                if o[0] == "scale":
                    if svc.count != o[1] and not any(x[0] == "adapt" for x in subs[subs.index(o) + 1 :]):
                        w.fail("scale::sets-the-requested-count", f"after {subs} the count is {svc.count}")
                    break
        elif kind == "join":
            for _ in range(op[1]):
                w.join()
            w.act()
        elif kind == "leave":
            ad = sorted(w.workers)
            if ad:
                if w.workers[ad[op[1] % len(ad)]].name not in w.retiring | w.announced:
                    w.lost.append(loop.time())
                w.drop(ad[op[1] % len(ad)])
        elif kind == "rejoin":
            gone = sorted(w.joined - w.names())
            if gone:
                w.join(gone[op[1] % len(gone)])
        elif kind == "target":
            w.target = op[1]
        elif kind == "busy":
            ad = sorted(w.workers)
            if ad:
                w.workers[ad[op[1] % len(ad)]].processing["k"] = 1
                w.act()
        elif kind == "done":
            for x in w.workers.values():
                x.processing.clear()
            w.act()
        elif kind == "unrunnable":
            w.unrunnable = {"t"} if op[1] else set()
            w.act()
        elif kind == "gateway":
            w.gw = op[1]
        elif kind == "retire":
            w.rt = op[1]
        elif kind == "sleep":
            await asyncio.sleep(op[1])
        elif kind == "settle":
            w.gw = w.rt = "ok"
            if w.target == "fail":
                w.target = 2
            await asyncio.sleep(6 * PERIOD + 0.0071)
            if told["adaptive"]:
                lo, hi = told["bounds"]
                want = max(lo, w.target) if lo is not None else w.target
                want = min(hi, want) if hi is not None else want
                if svc.count != want:
                    w.fail("adapt_loop::scales-up-at-once", f"target {w.target} within {lo}..{hi}, requested {svc.count}")
        elif kind == "rest" and w.idle:
            # long enough for every check to have run
            busy = not w.is_idle()
            n = len(w.downs)
            w.gw = "ok"
            await asyncio.sleep(w.idle * 1.6)
            if not busy and len(w.downs) == n:
                w.fail("check_idle::an-idle-cluster-is-shut-down", f"idle since {w.last_action():.3f} with timeout {w.idle}, never shut down")
    w.gw = w.rt = "ok"
    await asyncio.sleep(9)
    # every new count is announced by the next message, at once
    end = loop.time()
    starts, busy = w.starts, w.spans if hasattr(w, "spans") else None
    for k, (t, n) in enumerate(w.changes):
        nxt = w.changes[k + 1][0] if k + 1 < len(w.changes) else end
        after = [x for x in starts if x[0] >= t - 1e-9]
        # in flight: at most one message and one retirement, 1.6 + 2.3 seconds
        limit = t + 4.3
        if nxt < limit:
            continue  # another count takes its place
        if not any(x[0] <= limit and x[1] == n for x in after):
            w.fail("scale_one::a-new-count-is-announced-at-once", f"count {n} set at {t:.3f}, next messages {after[:2]}")
    if case["hb"]:
        for t in w.lost:
            if not any(t - 1e-9 <= x[0] <= t + 7.4 for x in starts):
                w.fail("worker_removed::an-unexpected-loss-is-reported-soon", f"worker lost at {t:.3f}, messages {[round(x[0], 3) for x in starts]}")
        times = [x[0] for x in starts] + [end]
        for a, b in zip([1000.0] + times, times):
            if b - a > case["hb"] + 4.5:
                w.fail("heartbeat_loop::waits-no-longer-than-the-heartbeat-period", f"no message from {a:.3f} to {b:.3f}")
    svc.stop()
    n = len(w.starts)
    await asyncio.sleep(40)
    if len(w.starts) > n + 1:
        w.fail("stop::stops-everything", "still sends messages after being stopped")
    return w.bad[:5]


async def client():
    from dask_gateway import scheduler_preload as sp

    bad, reqs, mode = [], [], {}

    class HTTP:
        async def fetch(self, req, **k):
            reqs.append(req)
            if mode.get("fail"):
                raise OSError("refused")

    old = sp.AsyncHTTPClient
    sp.AsyncHTTPClient = HTTP
    try:
        for name, tok in (("c1", "t1"), ("c2", "t2/x")):
            c = sp.GatewayClient(name, tok, "http://gw/api")
            for fail in (False, True):
                mode["fail"] = fail
                for what, call in (("POST", lambda: c.heartbeat({"count": 3, "active_workers": ["a"]})), ("DELETE", c.shutdown)):
                    del reqs[:]
                    ok = True
                    try:
                        await call()
                    except OSError:
                        ok = False
                    if ok == fail:
                        bad.append(("client_requests::a-refusal-is-reported", f"{what} refused={fail} ok={ok}"))
                    if len(reqs) != 1:
                        bad.append(("client_requests::one-request", f"{len(reqs)} requests"))
                        continue
                    r = reqs[0]
                    url = f"http://gw/api/v1/clusters/{name}" + ("/heartbeat" if what == "POST" else "")
                    if r.method != what or r.url != url or r.headers.get("Authorization") != "token " + tok:
                        bad.append(("client_requests::about-its-own-cluster", f"{r.method} {r.url} {dict(r.headers)}"))
                    if what == "POST" and json.loads(r.body) != {"count": 3, "active_workers": ["a"]}:
                        bad.append(("client_requests::sends-the-whole-message", f"{r.body}"))
    finally:
        sp.AsyncHTTPClient = old
    # requests at the scheduler
    calls = []

    class Svc:
        async def scale(self, count):
            calls.append(("scale", count))

        async def adapt(self, minimum=None, maximum=None, active=True):
            calls.append(("adapt", minimum, maximum, active))

    from tornado import web
    from tornado.httputil import HTTPHeaders, HTTPServerRequest

    app = web.Application([], gateway_service=Svc(), auth_token="tok")
    for msg, auth, want in (
        ({"op": "scale", "count": 4}, "token tok", ("scale", 4)),
        ({"op": "adapt", "minimum": 1, "maximum": 5}, "token tok", ("adapt", 1, 5, True)),
        ({"op": "adapt", "minimum": 0, "maximum": 0}, "token tok", ("adapt", 0, 0, True)),
        ({"op": "scale", "count": 0}, "token tok", ("scale", 0)),
        ({"op": "adapt", "active": False}, "token tok", ("adapt", None, None, False)),
        ({"op": "other"}, "token tok", None),
        ({"op": "scale", "count": 4}, "token bad", None),
        ({"op": "scale", "count": 4}, None, None),
    ):
        del calls[:]
        h = HTTPHeaders({"Content-Type": "application/json"})
        if auth:
            h["Authorization"] = auth
        req = HTTPServerRequest(method="POST", uri="/api/comm", headers=h, body=json.dumps(msg).encode(), connection=Conn())
        handler = sp.CommHandler(app, req)
        handler._transforms = []
        try:
            handler.prepare()
            await handler.post()
            ok = True
        except web.HTTPError:
            ok = False
        except Exception as e:
            ok = False
            if want:
                bad.append(("requests::scales-as-told", f"{msg}: {e!r}"))
        if (want is None and calls) or (want is not None and calls != [want]) or ok != (want is not None):
            bad.append(("requests::scales-as-told", f"{msg} with {auth}: {calls}, ok={ok}"))
    return bad


class Conn:
    context = None

    def set_close_callback(self, *a):
        pass
