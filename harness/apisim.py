"""The REST API of the real server (aiohttp application with the real routes,
models and SimpleAuthenticator) against a recording backend holding random
clusters of random users."""
import asyncio
import base64
import json
import math
import random

from aiohttp import web
from aiohttp.test_utils import TestClient, TestServer

from dask_gateway_server import models
from dask_gateway_server.auth import SimpleAuthenticator
from dask_gateway_server.backends.base import Backend, PublicException
from dask_gateway_server.routes import default_routes

S = models.ClusterStatus
CLOSED = {}


class FakeSession:
    def __init__(self, plan):
        self.plan, self.posts = list(plan), []

    async def post(self, url, json=None, headers=None, raise_for_status=False, **kw):
        self.posts.append((url, json, dict(headers or {})))
        r = self.plan.pop(0) if self.plan else "ok"
        if r == "conn":
            raise OSError("refused")
        if r == "timeout":
            raise asyncio.TimeoutError()
        if r == "500" and raise_for_status:
            raise RuntimeError("500")
        self.posts[-1] += (r == "ok",)

        class R:
            status = 200 if r == "ok" else 500

        return R()

    async def close(self):
        pass


class RecBackend(Backend):
    """Records what the API asks for; forwarding is the real one."""

    def prepare(self, clusters, plan):
        self.cl = clusters
        self.calls = []
        self.session = FakeSession(plan)
        return self

    async def get_cluster(self, name, wait=False):
        self.calls.append(("get", name))
        return self.cl.get(name)

    async def list_clusters(self, username=None, statuses=None):
        self.calls.append(("list", username, None if statuses is None else sorted(statuses)))
        sel = (lambda c: c.status <= S.RUNNING) if statuses is None else (lambda c: c.status in set(statuses))
        return [c for c in self.cl.values() if sel(c) and (username is None or c.username == username)]

    async def start_cluster(self, user, options):
        self.calls.append(("start", user.name, options))
        if options.get("bad"):
            raise PublicException("no such option")
        return "fresh"

    async def stop_cluster(self, name, failed=False):
        self.calls.append(("stop", name, failed))

    async def on_cluster_heartbeat(self, name, msg):
        self.calls.append(("heartbeat", name, msg))

    async def forward_message_to_scheduler(self, cluster, msg):
        self.calls.append(("forward", cluster.name, msg))
        return await super().forward_message_to_scheduler(cluster, msg)


class GW:
    async def health(self):
        return {"status": "pass"}

    def version_info(self):
        return {"version": "x"}


async def noop_sleep(t):
    SLEEPS.append(t)


SLEEPS = []
NUMS = [None, 0, 1, 2, 3, 5, 7, 100, -1, 2.5, float("inf"), float("nan"), True, "3", [1]]


def gen(seed):
    r = random.Random(seed)
    users = r.sample(["ann", "bob", "eve", "ann ", "Ann", "bo"], 3)
    cl = []
    for i in range(r.randint(1, 5)):
        cl.append({"name": f"c{i}", "user": r.choice(users), "token": f"tok{i}" + r.choice(["", " x"]), "status": r.choice([s.name for s in S] + ["RUNNING"] * 3), "limit": r.choice([None, 0, 1, 3, 5])})
    reqs = []
    for _ in range(r.randint(3, 8)):
        name = r.choice([c["name"] for c in cl] + ["nope"])
        auth = r.choice([["basic", r.choice(users)]] * 4 + [["none"], ["token", r.choice([c["token"] for c in cl])], ["token", r.choice([c["token"] for c in cl])], ["raw", r.choice(["token", "token ", "Basic", "Bearer x", "Token tok0", "basic x", "token tok", "token tok0x"])], ["badpw", r.choice(users)]])
        op = r.choice(["health", "version", "options", "list", "create", "get", "delete", "scale", "adapt", "heartbeat"])
        q = {"op": op, "name": name, "auth": auth}
        if op == "scale":
            q["body"] = r.choice([{"count": r.choice(NUMS)}, {"count": r.choice([0, 1, 2, 3, 4, 5, 6])}, {}, [1]])
        elif op == "adapt":
            q["body"] = r.choice([{k: r.choice(NUMS) for k in ("minimum", "maximum") if r.random() < 0.8}, {"minimum": r.randint(0, 6), "maximum": r.randint(0, 6), "active": r.random() < 0.5}])
        elif op == "create":
            q["body"] = r.choice([{}, {"cluster_options": {"x": 1}}, {"cluster_options": {"bad": 1}}, {"cluster_options": None}, {"user": "eve", "username": "eve"}])
        elif op == "heartbeat":
            q["body"] = {"count": 1}
        elif op == "list":
            q["status"] = r.choice([None, "running", "PENDING,stopped", "bogus", "FAILED", "running,running", ""])
        reqs.append(q)
    return {"kind": "apisim", "seed": seed, "clusters": cl, "reqs": reqs, "plan": [r.choice(["ok", "ok", "conn", "500", "timeout"]) for _ in range(12)], "retries": r.choice([0, 1, 2, 3, 5])}


def from_model(c):
    """Concrete case of a counterexample."""
    sane = lambda s, d: "".join(ch for ch in s if ch.isalnum()) or d if isinstance(s, str) else d
    user, owner = sane(c.get("user"), "u"), sane(c.get("owner"), "o")
    if c.get("user") == c.get("owner"):
        owner = user
    elif user == owner:
        owner += "x"
    ops = {"health": "health", "version": "version", "options": "options", "scale": "scale", "adapt": "adapt", "heartbeat": "heartbeat"}
    last = c["path"].rstrip("/").split("/")[-1]
    op = ops.get(last) or ({"GET": "list", "POST": "create"}[c["method"]] if last == "clusters" else {"GET": "get", "DELETE": "delete"}.get(c["method"], "get"))
    out = []
    for st in dict.fromkeys([c.get("status") or "RUNNING", "RUNNING", "STOPPED", "PENDING"]):
        cl = {"name": "cx", "user": owner, "token": "tok0", "status": st, "limit": c.get("limit")}
        other = {"name": "cy", "user": user + "y", "token": "tok1", "status": "RUNNING", "limit": 2}
        auths = [["basic", user], ["token", "tok0"], ["token", "tok1"], ["none"], ["badpw", user], ["raw", "Bearer tok0"], ["raw", "token tok"], ["raw", "x tok0"]]
        body = {}
        if op == "scale":
            bodies = [{"count": c.get("count")}, {"count": 3}, {}]
        elif op == "adapt":
            bodies = [{"minimum": c.get("minimum"), "maximum": c.get("maximum")}, {"minimum": 1, "maximum": 7}]
        elif op == "create":
            bodies = [{}, {"cluster_options": {"x": 1}}, {"cluster_options": {"bad": 1}}]
        else:
            bodies = [{"count": 1}]
        reqs = [{"op": op, "name": n, "auth": a, "body": b, "status": s} for a in auths for b in bodies for n in ("cx", "cy", "nope") for s in ((None, "running", "stopped,failed") if op == "list" else (None,))]
        out.append({"kind": "apisim", "clusters": [cl, other], "reqs": reqs, "plan": [], "retries": 3})
    return out


def run_case(case):
    if case.get("kind") == "api":
        return [x for c in from_model(case) for x in run_case(c)]
    if case.get("kind") == "forward":
        return [x for st in S for n in (0, 1, 2, 3, 4, 5) for k in range(7) for e in ("conn", "500", "timeout") for x in run_fwd(st.name, n, [e] * k)]
    if case.get("kind") != "apisim":
        return []
    loop = asyncio.new_event_loop()
    try:
        return loop.run_until_complete(drive(case))
    finally:
        loop.close()


def run_fwd(status, retries, plan):
    async def go():
        out = []
        bad = lambda c, m: out.append((c, f"status {status}, retries {retries}, failures {plan}: {m}", "C26"))
        be = RecBackend(parent=None, gateway_address="x", api_url="x")
        c = models.Cluster("n", "u", "t", {}, {}, S[status], api_address="http://a:1")
        be.prepare({"n": c}, plan)
        be.scheduler_api_retries = retries
        real = asyncio.sleep
        SLEEPS.clear()
        asyncio.sleep = noop_sleep
        try:
            await be.forward_message_to_scheduler(c, {"op": "scale"})
            res = "ok"
        except PublicException:
            res = "refused"
        except Exception as e:
            res = repr(e)
        finally:
            asyncio.sleep = real
        check_forward(bad, be, c, {"op": "scale"}, res, len(be.session.posts), retries, list(SLEEPS))
        return out

    loop = asyncio.new_event_loop()
    try:
        return loop.run_until_complete(go())
    finally:
        loop.close()


def check_forward(bad, be, c, msg, res, n, retries, sleeps, posts=None):
    posts = be.session.posts if posts is None else posts
    stops = [x for x in be.calls if x[0] == "stop"]
    if c.status != S.RUNNING:
        if posts or stops or res != "refused":
            bad("sent-only-while-running", f"posts {posts} stops {stops} result {res}")
        return
    if len(posts) > max(1, retries):
        bad("at-most-the-configured-attempts", f"{len(posts)} attempts")
    okn = [i for i, p in enumerate(posts) if p[-1] is True]
    if okn and okn[0] != len(posts) - 1:
        bad("nothing-sent-after-success", f"{posts}")
    for p in posts:
        if p[0] != c.api_address + "/api/comm" or p[2].get("Authorization") != "token " + c.token:
            bad("sent-to-its-own-address", f"{p}")
    if okn:
        if res != "ok" or stops:
            bad("success-leaves-the-cluster-alone", f"result {res}, stops {stops}")
    else:
        if res != "refused":
            bad("success-only-when-delivered", f"result {res} after {posts}")
        if stops != [("stop", c.name, True)]:
            bad("marks-that-cluster-failed", f"stops {stops}")
    if any(s > 5 or s <= 0 for s in sleeps) or sleeps != sorted(sleeps):
        bad("delays-grow", f"{sleeps}")


async def drive(case):
    out = []
    cl = {}
    for c in case["clusters"]:
        cl[c["name"]] = models.Cluster(c["name"], c["user"], c["token"], {"secret": c["name"] + "-opts"}, {"cluster_max_workers": c["limit"]} if c["limit"] is not None else {}, S[c["status"]],
                                       scheduler_address="tls://s", dashboard_address="http://d", api_address=f"http://{c['name']}:1", tls_cert=b"CERT" + c["name"].encode(), tls_key=b"KEY" + c["name"].encode(), start_time=1)
    be = RecBackend(parent=None, gateway_address="x", api_url="x").prepare(cl, case["plan"])
    be.scheduler_api_retries = case["retries"]
    auth = SimpleAuthenticator(password="pw")
    app = web.Application()
    app.add_routes(default_routes)
    import logging
    import warnings

    warnings.simplefilter("ignore")
    log = logging.getLogger("apisim")
    log.disabled = True
    logging.getLogger("aiohttp.server").disabled = True
    be.log = log
    for k, x in (("gateway", GW()), ("backend", be), ("authenticator", auth), ("log", log)):
        app[k] = x
    client = TestClient(TestServer(app), cookie_jar=None)
    await client.start_server()
    real = asyncio.sleep
    try:
        for q in case["reqs"]:
            be.calls.clear()
            be.session.posts.clear()
            SLEEPS.clear()
            asyncio.sleep = noop_sleep
            try:
                client.session.cookie_jar.clear()
                st, body = await send(client, q)
            finally:
                asyncio.sleep = real
            check(out, cl, be, q, st, body, case["retries"])
    finally:
        await client.close()
    return out


async def send(client, q):
    n = q["name"]
    p = {"health": ("GET", "/api/health"), "version": ("GET", "/api/version"), "options": ("GET", "/api/v1/options"), "list": ("GET", "/api/v1/clusters/"),
         "create": ("POST", "/api/v1/clusters/"), "get": ("GET", f"/api/v1/clusters/{n}"), "delete": ("DELETE", f"/api/v1/clusters/{n}"),
         "scale": ("POST", f"/api/v1/clusters/{n}/scale"), "adapt": ("POST", f"/api/v1/clusters/{n}/adapt"), "heartbeat": ("POST", f"/api/v1/clusters/{n}/heartbeat")}[q["op"]]
    h = {}
    a = q["auth"]
    if a[0] in ("basic", "badpw"):
        h["Authorization"] = "Basic " + base64.b64encode(f"{a[1]}:{'pw' if a[0] == 'basic' else 'no'}".encode()).decode()
    elif a[0] == "token":
        h["Authorization"] = "token " + a[1]
    elif a[0] == "raw":
        h["Authorization"] = a[1]
    kw = {}
    if "body" in q and p[0] == "POST":
        kw["data"] = json.dumps(q["body"]).encode()
        h["Content-Type"] = "application/json"
    params = {"status": q["status"]} if q.get("status") is not None else {}
    r = await client.request(p[0], p[1], headers=h, params=params, **kw)
    txt = await r.text()
    return r.status, txt


def check(out, cl, be, q, st, txt, retries):
    def bad(c, m, pid):
        out.append((c, f"{q['op']} {q['name']} as {q['auth']} body {q.get('body')} -> {st} {txt[:200]!r}: {m}", pid))

    op, a = q["op"], q["auth"]
    user = a[1] if a[0] == "basic" else None
    c = cl.get(q["name"])
    acts = [x for x in be.calls if x[0] not in ("get",)]
    acts0 = [x for x in acts if not (x[0] == "stop" and x[2])]  # failed forwarding
    tok = a[1] if a[0] == "token" else a[1][6:] if a[0] == "raw" and a[1].startswith("token ") else None
    tokok = c is not None and tok is not None and tok.strip() == c.token.strip() and tok == c.token
    if op in ("health", "version"):
        if st != 200 or be.calls:
            bad("public-endpoints-touch-nothing", f"{be.calls}", "C02")
        return
    # credentials
    ok = (user is not None and op != "heartbeat") or (tokok and op in ("heartbeat", "delete"))
    if not ok:
        if acts:
            bad("nothing-without-credentials", f"{acts}", "C02")
        wf = a[0] != "raw" or " " in a[1].strip()
        if st < 400 or (wf and st != 401 and not (a[0] == "raw" and a[1].startswith("Basic"))):
            bad("refused-without-credentials", f"status {st}", "C02")
        return
    if st == 401:
        bad("not-refused-with-credentials", "401", "C02")
    if user is None:
        want = {"heartbeat": ("heartbeat", q["name"], q.get("body")), "delete": ("stop", q["name"], False)}[op]
        if acts != [want]:
            bad("token-opens-its-cluster", f"{acts}", "C02")
        return
    own = c is not None and c.username == user
    others = [x for x in cl.values() if x.username != user]
    for x in others:
        for secret in ("CERT" + x.name + '"', "KEY" + x.name + '"', x.name + "-opts", x.token + '"'):
            if secret in txt:
                bad("reveals-nothing-of-other-users-clusters", f"{secret} of {x.name}", "C01")
    for x in acts:
        if x[0] in ("stop", "forward") and not (x[1] == q["name"] and own):
            bad("acts-only-on-own-clusters", f"{x}", "C01")
        if x[0] == "start" and (op != "create" or x[1] != user):
            bad("starts-for-the-requesting-user", f"{x}", "C01")
        if x[0] == "list" and x[1] != user:
            bad("lists-own-clusters-only", f"{x}", "C01")
    js = None
    try:
        js = json.loads(txt)
    except Exception:
        pass
    if op in ("get", "delete", "scale", "adapt"):
        if c is None:
            if acts or not (st == 404 or (op == "delete" and st == 204)):
                bad("unknown-cluster-answered", f"{acts}", "C01")
            return
        if not own:
            if st != 403 or acts:
                bad("others-clusters-are-forbidden", f"{acts}", "C01")
            return
        if st == 403:
            bad("own-clusters-are-not-forbidden", "403", "C01")

    def details(d, x):
        run = x.status == S.RUNNING
        want = {"name": x.name, "status": x.status.name, "options": x.options, "start_time": x.start_time, "stop_time": None,
                "dashboard_route": f"/clusters/{x.name}/status" if run else None, "tls_cert": x.tls_cert.decode() if run else None, "tls_key": x.tls_key.decode() if run else None}
        if d != want:
            bad("details-of-own-cluster", f"{d} != {want}", "C01")

    if op == "get":
        if st != 200:
            bad("details-of-own-cluster", "not answered", "C01")
        else:
            details(js, c)
    elif op == "list":
        s = q.get("status")
        names = None if s is None else [k.upper() for k in s.split(",")]
        if names is not None and any(k not in S.__members__ for k in names):
            if st != 422:
                bad("only-bad-statuses-rejected", "accepted", "C01")
            return
        want = {x.name for x in cl.values() if x.username == user and ((x.status.name in names) if names is not None else x.status <= S.RUNNING)}
        if st != 200 or set(js) != want:
            bad("lists-everything-the-backend-listed", f"want {want}", "C01")
        else:
            for k in want:
                details(js[k], cl[k])
    elif op == "create":
        opts = (q["body"].get("cluster_options") or {})
        if acts != [("start", user, opts)]:
            bad("options-are-the-ones-sent", f"{acts}", "C01")
        if opts.get("bad"):
            if st != 422:
                bad("refusal-reported", "", "C01")
        elif st != 201 or js != {"name": "fresh"}:
            bad("name-of-the-new-cluster", "", "C01")
    elif op == "delete":
        if acts != [("stop", q["name"], False)] or st != 204:
            bad("stops-own-cluster", f"{acts}", "C01")
    elif op in ("scale", "adapt"):
        fw = [x for x in acts if x[0] == "forward"]
        lim = c.config.get("cluster_max_workers")
        body = q.get("body")
        if len(fw) > 1:
            bad("at-most-one-message", f"{fw}", "C01")
        if st < 400 and not (fw and any(p[-1] is True for p in be.session.posts)):
            bad("success-only-when-delivered", f"{be.session.posts}", "C26")
        if fw and not any(p[-1] is True for p in be.session.posts) and st != 409:
            bad("scheduler-failure-is-reported", f"status {st}", "C26")
        if fw:
            res = "ok" if st < 400 else "refused"
            check_forward(lambda x, m: bad(x, m, "C26"), be, c, None, res, 0, retries, list(SLEEPS))
        if not isinstance(body, dict):
            if fw:
                bad("rejects-bad-counts", f"{fw}", "C04")
            return
        m = fw[0][2] if fw else None
        over = False
        if op == "scale":
            n = body.get("count")
            valid = isinstance(n, int) and n >= 0
            if not valid:
                if fw or st != 422:
                    bad("rejects-bad-counts", f"{fw}", "C04")
                return
            if m is None:
                bad("valid-request-accepted", f"{acts}", "C04")
                return
            over = lim is not None and n > lim
            if m.get("op") != "scale" or m.get("count") != (lim if over else n):
                bad("count-within-limit", f"sent {m} limit {lim}", "C04")
        else:
            if m is None:
                return
            if m.get("op") != "adapt":
                bad("forwarded-operation", f"{m}", "C01")
            for k in ("minimum", "maximum"):
                b = body.get(k)
                s = m.get(k)
                if lim is None:
                    if not (s is b or s == b or (s != s and b != b)):
                        bad("allowed-bounds-unchanged", f"sent {m}", "C04")
                    continue
                if s is None or (s == s and s > lim):
                    bad("bounds-within-limit", f"sent {m} limit {lim}", "C04")
                elif b is not None and b == b:
                    o = b > lim
                    over = over or o
                    if s != (lim if o else b):
                        bad("clamped-to-the-limit", f"sent {m} limit {lim}", "C04")
            if m.get("active") != body.get("active", True):
                bad("active-passed-on", f"{m}", "C01")
            if lim is None:
                over = False
        nan = any(isinstance(x, float) and x != x for x in (body if isinstance(body, dict) else {}).values())
        if st == 200 and not nan and (js["ok"] is over or (js["msg"] is None) is over):
            bad("clamping-is-reported", f"{js}", "C04")


def cases(tier, seed):
    k = 0
    while True:
        yield gen(seed * 1000003 + k)
        k += 1


def harness(pid):
    def run(case):
        return [(c, m) for c, m, p in run_case(case) if p == pid]

    return run
