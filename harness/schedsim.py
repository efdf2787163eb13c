"""The real scheduler-side service, driven without a network."""
import asyncio
import json
import logging
from types import SimpleNamespace

import dask_gateway.scheduler_preload as sp
from tornado import httputil, web
from harness import vloop

logging.disable(logging.CRITICAL)


class Conn:
    """Just enough of an HTTP connection for a RequestHandler."""

    def __init__(self):
        self.status = None
        self.context = SimpleNamespace(remote_ip="x", protocol="http")

    def set_close_callback(self, cb):
        pass

    def write_headers(self, start_line, headers, chunk=None, callback=None):
        self.status = start_line.code
        f = asyncio.get_running_loop().create_future()
        f.set_result(None)
        return f

    def write(self, chunk):
        f = asyncio.get_running_loop().create_future()
        f.set_result(None)
        return f

    def finish(self):
        pass


async def auth(case):
    acts = []

    class Sched:
        loop = None

        def add_plugin(self, p):
            pass

    gw = sp.GatewayClient("c", case["token"], "http://x")
    svc = sp.GatewaySchedulerService(Sched(), gateway=gw, io_loop=SimpleNamespace(time=lambda: 0))

    async def act(*a, **k):
        acts.append((a, k))

    svc.scale = svc.adapt = act
    viol = []
    for op in ("scale", "adapt"):
        hd = httputil.HTTPHeaders({"Content-Type": "application/json"})
        if case["hdr"] is not None:
            hd["Authorization"] = case["hdr"]
        del acts[:]
        conn = Conn()
        req = httputil.HTTPServerRequest(method="POST", uri="/api/comm", version="HTTP/1.1", headers=hd, body=json.dumps({"op": op, "count": 3}).encode(), connection=conn, host="h")
        d = svc.app.find_handler(req)
        f = d.execute()
        if f is not None:
            await f
        await asyncio.sleep(0)
        ok = case["hdr"] == "token " + case["token"]
        if acts and not ok:
            viol.append(("acts-only-for-holders-of-the-token", f"{op} ran for Authorization {case['hdr']!r}, token {case['token']!r}"))
        if ok and not acts:
            viol.append(("accepts-the-clusters-token", f"{op} not run ({conn.status})"))
        if not ok and conn.status is not None and conn.status < 400:
            viol.append(("refuses-without-the-clusters-token", f"status {conn.status}"))
    return viol


def auth_cases(seed):
    for tok in ("abc", "tok"):
        for hdr in (None, "", "token", "token ", "token " + tok, "Token " + tok, "token  " + tok, "Basic " + tok, "bearer " + tok, "token " + tok[:-1], "token " + tok + "x", tok, "token " + tok.upper()):
            yield {"kind": "schedauth", "token": tok, "hdr": hdr}


def run(case):
    if case["kind"] == "schedauth":
        return vloop.run(auth, case)
    if case["kind"] == "sched":
        out = []
        for c in auth_cases(0):
            out += vloop.run(auth, c)
        return out
    return []
