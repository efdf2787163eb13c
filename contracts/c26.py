"""C26: delivery of scheduler messages."""
import z3

from pyvc.verify import *
from . import api, dbfuncs, loops

B = "dask_gateway_server.backends.base"
F = B + ".Backend.forward_message_to_scheduler"

api.register("C26", [("POST", api.PN + "/scale"), ("POST", api.PN + "/adapt")])


def num(x, real=True):
    from pyvc.interp import Interp

    if isinstance(x, (int, float)):
        return z3.RealVal(str(x)) if real else z3.IntVal(x)
    if isinstance(x, SInt):
        return z3.ToReal(x.t) if real else x.t
    return x.t


@contract("C26", F, "forward", weight=2, alternatives=["counting up", "counting down", "bounded: at most 5 configured attempts"], assumes=[
    "session.post: delivers the message or raises (with raise_for_status, also on an error status); contract of aiohttp",
    "stop_cluster(name, failed=True) marks the cluster as failed (verified for the database backends, contract stop_cluster)",
])
def forward(v):
    it, ctx = v.it, v.ctx
    MS = it.get_class("dask_gateway_server.models.ClusterStatus")
    name, addr, tok = v.str("name"), v.str("api_address"), v.str("token")
    status = v.enum("status", MS)
    cl = v.obj("dask_gateway_server.models.Cluster", name=name, api_address=addr, token=tok, status=status)
    retries = v.int("retries", 0)
    msg = v.pydict({"op": v.str("op")})
    st = {"posts": z3.IntVal(0), "delivered": False, "stopped": [], "last": z3.RealVal(0), "sleeps": []}
    v.case(lambda ev: {"kind": "forward", "status": ev(status), "retries": ev(retries)})

    def post(it, a, k):
        v.prove("sent-only-while-running", status.t == MS.enum["RUNNING"].value)
        v.prove("nothing-sent-after-success", z3.BoolVal(not st["delivered"]))
        v.prove("sent-to-its-own-address", v.eq(a[0], SStr(z3.Concat(addr.t, z3.StringVal("/api/comm")))))
        v.prove("the-message-itself", z3.BoolVal(it.resolve(k.get("json")) is msg))
        h = it.resolve(k.get("headers"))
        want = SStr(z3.Concat(z3.StringVal("token "), tok.t))
        v.prove("with-its-own-token", v.eq(it.getitem(h, "Authorization"), want) if isinstance(h, VDict) and hk("Authorization") in h.d else z3.BoolVal(False))
        v.prove("no-attempt-after-giving-up", z3.BoolVal(not st["stopped"]))
        st["posts"] = st["posts"] + 1
        v.prove("at-most-the-configured-attempts", z3.Or(st["posts"] <= 1, st["posts"] <= retries.t))
        st["err"] = False
        r = v.choose("delivered", "connection-error", "error-status", "timeout", "cancelled")
        if r == "connection-error":
            it.raise_(OSError, "connection failed")
        if r == "timeout":
            it.raise_(TimeoutError)
        if r == "cancelled":
            import asyncio

            it.raise_(asyncio.CancelledError)
        if r == "error-status":
            if it.truth(k.get("raise_for_status", False)):
                it.raise_(ValueError, "error status")
            code = v.int("code", 400, 599)

            def rfs(it2, a2, k2):
                it2.raise_(ValueError, "error status")

            return v.fake("Resp", status=code, ok=False, raise_for_status=v.native(rfs), release=v.native(lambda *a: None))
        st["delivered"] = True
        return v.fake("Resp", status=200, ok=True, raise_for_status=v.native(lambda *a: None), release=v.native(lambda *a: None))

    def sleep(it, a, k):
        def go():
            d = num(it.resolve(a[0]))
            v.prove("delay-capped", z3.And(d > 0, d <= 5))
            v.prove("delays-grow", d >= st["last"])
            st["last"] = d
            ctx.event("slept")
            if v.choose("woken", "cancelled-in-sleep") == "cancelled-in-sleep":
                import asyncio

                it.raise_(asyncio.CancelledError)

        return Coro(go, "sleep")

    it.lib["asyncio.sleep"] = sleep

    def stop(it, a, k):
        f = k.get("failed", a[1] if len(a) > 1 else False)
        v.prove("marks-that-cluster-failed", z3.And(v.eq(a[0], name), v.eq(f, True)))
        st["stopped"].append(1)

    from pyvc.libs import noop_log

    b = v.obj(B + ".Backend", session=v.fake("Session", post=v.afn(post)), scheduler_api_retries=retries, log=noop_log(), stop_cluster=v.afn(stop))

    # attempts are counted by the loop's integer variable, delays by its real
    # one, whatever their names
    def inv(init, cur):
        out = {}
        p = st["posts"]
        for x in cur:
            if isinstance(init[x], bool):
                continue
            if isinstance(init[x], int):
                out["attempts-are-counted"] = num(cur[x], False) == (init[x] + p if v.alt == "counting up" else init[x] - p)
            elif isinstance(init[x], SInt):
                out["attempts-are-counted"] = num(cur[x], False) == (init[x].t + p if v.alt == "counting up" else init[x].t - p)
            elif isinstance(init[x], (float, SReal)):
                out["delay-in-range"] = z3.And(num(cur[x]) > 0, num(cur[x]) <= 5, num(cur[x]) >= st["last"])
        out["attempts-left"] = z3.And(p >= 0, z3.Or(p == 0, p < retries.t))
        out["not-delivered-yet"] = z3.BoolVal(not st["delivered"] and not st["stopped"])
        return out

    def havoc():
        st["posts"] = ctx.fresh("posts", z3.IntSort())
        st["last"] = ctx.fresh("last_delay", z3.RealSort())
        v.assume(st["last"] >= 0)

    if v.alt.startswith("bounded"):
        v.assume(z3.Or([retries.t == i for i in range(6)]))
    else:
        loops.WhileInv(v, inv, havoc)
    out = loops.run(v, F, b, cl, msg)
    if out is None:
        return
    if out.kind == "return":
        v.cover("success")
        v.prove("success-only-when-delivered", z3.BoolVal(st["delivered"]))
        v.prove("success-leaves-the-cluster-alone", z3.BoolVal(not st["stopped"]))
        return
    if out.exc_name() == "CancelledError":
        return
    v.cover("failure")
    notrun = status.t != MS.enum["RUNNING"].value
    v.prove("caller-gets-an-error", z3.BoolVal(out.exc_name() == "PublicException"))
    v.prove("failed-unless-it-was-not-running", z3.Or(notrun, z3.BoolVal(len(st["stopped"]) == 1)))
    v.prove("not-running-cluster-is-left-alone", z3.Implies(notrun, z3.BoolVal(not st["stopped"])))
    v.prove("failure-only-when-not-delivered", z3.BoolVal(not st["delivered"]))


dbfuncs.register("C26", ["stop_cluster"])
