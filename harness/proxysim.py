"""Random histories of route changes against the real Proxy object; watchers
replay what they are sent."""
import asyncio
import json
import logging
import random
from types import SimpleNamespace

import dask_gateway_server.proxy.core as core
from aiohttp import web
from harness import vloop

logging.getLogger().setLevel(logging.CRITICAL + 1)


class Stream:
    def __init__(self, headers=None, **k):
        self.headers = headers
        self.out = b""
        self.prepared = False

    async def prepare(self, request):
        request["stream"] = self
        await asyncio.sleep(request["lag"])
        self.prepared = True

    async def write(self, data):
        await asyncio.sleep(0)
        self.out += data

    async def write_eof(self):
        pass


class Req(dict):
    def __init__(self, hdr, query):
        super().__init__(lag=0)
        self.headers = {} if hdr is None else {"Authorization": hdr}
        self.query = query
        self.app = {}
        self.match_info = {}


class App:
    def __init__(self):
        self.on_shutdown = []
        self.routes = []

    def add_routes(self, r):
        self.routes += list(r)


def apply(table, ev):
    r = ev["route"]
    key = (r["kind"], r.get("sni", r.get("path")))
    if ev["type"] == "PUT":
        table[key] = r["target"]
    else:
        table.pop(key, None)


def as_table(routes):
    return {(r["kind"], r.get("sni", r.get("path"))): r["target"] for r in routes}


async def go(case):
    rng = random.Random(case["seed"])
    viol = []
    core.web.StreamResponse, old = Stream, core.web.StreamResponse
    try:
        app = App()
        p = core.Proxy(gateway_address="127.0.0.1:80", gateway_url="http://gw", api_token=case.get("token", "tok"), prefix=case["prefix"], externally_managed=True, max_events=case["max"])
        await p.setup(app)
        handler = [r.handler for r in app.routes if r.method == "GET" and r.path == "/api/v1/routes"]
        if len(handler) != 1:
            return [("serves-the-routing-table", "no GET /api/v1/routes")]
        handler = handler[0]
        model = {("PATH", case["prefix"] + "/"): "http://gw"}
        hist = [dict(model)]  # hist[i] = table after change id i+1
        good = "token " + case.get("token", "tok")

        async def table():
            r = await handler(Req(good, {}))
            return json.loads(r.text)

        watchers = []
        for _ in range(case["n"]):
            op = rng.randrange(8)
            if op < 3:
                kind = rng.choice(["SNI", "PATH"])
                name = rng.choice("abc") if kind == "SNI" else rng.choice(["/", "/a", "/a/b"])
                tgt = "t%d" % rng.randrange(100)
                await p.add_route(kind=kind, target=tgt, **{"sni" if kind == "SNI" else "path": name})
                model[kind, name if kind == "SNI" else case["prefix"] + name] = tgt
                hist.append(dict(model))
            elif op < 5:
                kind = rng.choice(["SNI", "PATH"])
                name = rng.choice("abc") if kind == "SNI" else rng.choice(["/", "/a", "/a/b"])
                had = model.pop((kind, name if kind == "SNI" else case["prefix"] + name), None) is not None
                await p.remove_route(kind=kind, **{"sni" if kind == "SNI" else "path": name})
                if had:
                    hist.append(dict(model))
            elif op == 5:
                t = await table()
                if as_table(t["routes"]) != model or len(t["routes"]) != len(model):
                    viol.append(("the-table-exactly", f"served {t['routes']}, expected {model}"))
                if t["id"] != len(hist):
                    viol.append(("id-of-the-last-change", f"id {t['id']} after {len(hist)} changes"))
            elif op == 6:
                last = rng.choice([0, len(hist), max(0, len(hist) - 1), rng.randrange(len(hist) + 1), len(hist) + rng.randrange(1, 4)])
                req = Req(good, {"watch": "1", "last_id": str(last)})
                req["lag"] = rng.choice([0, 0.01])
                t = asyncio.ensure_future(handler(req))
                await asyncio.sleep(0)
                watchers.append((last, req, t, len(hist)))
                if rng.random() < 0.6:
                    await asyncio.sleep(rng.choice([0, 0.001]))
            else:
                await asyncio.sleep(rng.choice([0, 0.001, 0.1]))
        await asyncio.sleep(1)
        for last, req, t, known in watchers:
            if t.done():
                e = t.exception()
                if isinstance(e, web.HTTPGone):
                    continue
                viol.append(("watch-served", f"watch from {last} of {known} ended: {e!r}"))
                continue
            if last > known:
                viol.append(("unknown-id-is-told-to-refresh", f"watch from id {last}, only {known} were issued"))
            evs = [e for line in req["stream"].out.splitlines() for e in json.loads(line)["events"]]
            ids = [e["id"] for e in evs]
            if ids != list(range(last + 1, len(hist) + 1)):
                viol.append(("receives-every-later-change-once-in-order", f"watch from {last} of {len(hist)} changes received {ids}"))
            else:
                tb = dict(hist[last - 1]) if last else {}
                for e in evs:
                    apply(tb, e)
                if tb != model:
                    viol.append(("log-is-the-history", f"replayed {tb}, table {model}"))
            t.cancel()
        await asyncio.sleep(0.1)
        if p._watchers:
            viol.append(("stops-watching-when-done", "watchers remain"))
    finally:
        core.web.StreamResponse = old
    return viol


async def auth(case):
    core.web.StreamResponse, old = Stream, core.web.StreamResponse
    viol = []
    try:
        app = App()
        p = core.Proxy(gateway_address="127.0.0.1:80", gateway_url="http://gw", api_token=case["token"], externally_managed=True)
        await p.setup(app)
        for r in app.routes:
            req = Req(case["hdr"], {"watch": "1"} if case["watch"] else {})
            t = asyncio.ensure_future(r.handler(req))
            done, pend = await asyncio.wait([t], timeout=0.5)
            code = None
            if pend:
                served = True
                t.cancel()
            else:
                served = t.exception() is None
                code = getattr(t.exception(), "status", None)
            ok = case["hdr"] == "token " + case["token"]
            if served and not ok:
                viol.append(("nothing-served-without-the-token", f"{r.method} {r.path} served for Authorization {case['hdr']!r} with token {case['token']!r}"))
            if ok and code == 401:
                viol.append(("token-is-accepted", "refused the right token"))
            if not ok and not served and code != 401 and " " in (case["hdr"] or " "):
                viol.append(("401-unless-malformed", f"status {code}"))
    finally:
        core.web.StreamResponse = old
    return viol


def cases(tier, seed):
    rng = random.Random(seed)
    while True:
        yield {"kind": "proxyhist", "seed": rng.randrange(1 << 30), "n": rng.randrange(3, 40), "max": rng.choice([1, 2, 3, 4, 5, 10, 100]), "prefix": rng.choice(["", "/p"])}


def auth_cases(seed):
    rng = random.Random(seed)
    for tok in ("abc", "a b", "tok"):
        for hdr in (None, "", "token", "token ", "token " + tok, "Token " + tok, "token " + tok + " ", "token  " + tok, "Basic " + tok, "bearer " + tok, "token " + tok[:-1], "token " + tok + "x", tok, " " + tok, "token " + tok.upper()):
            for w in (0, 1):
                yield {"kind": "proxyauth", "token": tok, "hdr": hdr, "watch": w}


def run(case):
    if case["kind"] == "proxyhist":
        return vloop.run(go, case)
    if case["kind"] == "proxyauth":
        return vloop.run(auth, case)
    if case["kind"] == "proxy":
        out = []
        for s in range(150):
            out = vloop.run(go, {"kind": "proxyhist", "seed": s, "n": 30, "max": 1 + s % 6, "prefix": "/p" if s % 2 else ""})
            if out:
                break
        return out
    return []
