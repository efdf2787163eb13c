"""C02: credentials of every endpoint."""
import z3

from pyvc import web
from pyvc.verify import *
from . import api
from . import proxymodel as pm

api.register("C02")


@contract("C02", pm.PX + ".routes_handler", "routes_handler", weight=2, assumes=pm.A)
def routes_handler(v):
    pm.serve(v, "C02")


@contract("C02", pm.PX + ".setup", "setup", assumes=pm.A)
def proxy_setup(v):
    pm.setup(v, "C02")


# ------------------------------------------------------- scheduler endpoint
SP = "dask_gateway.scheduler_preload"
A_T = ["tornado: @web.authenticated runs the method only if get_current_user() returned a true value, and otherwise refuses the request; requests reach only the handler class registered for their path"]


def methods(it, ci):
    """HTTP methods a handler class answers."""
    out = []
    for m in ("get", "post", "put", "delete", "patch", "head", "options"):
        f = ci.lookup(m)[0]
        if isinstance(f, FuncV):
            out.append((m, f))
    return out


@contract("C02", SP + ".GatewaySchedulerService", "scheduler_endpoint", assumes=A_T)
def scheduler_endpoint(v):
    it, ctx = v.it, v.ctx
    tok = v.str("token")
    apps = []

    def application(it2, a, k):
        apps.append((a[0] if a else k.get("handlers"), k))
        return v.fake("Application", listen=v.native(lambda *a: None))

    it.lib["tornado.web.Application"] = application
    sched = v.fake("Scheduler", add_plugin=v.native(lambda *a: None), loop=v.fake("Loop"))
    client = v.obj(SP + ".GatewayClient", cluster_name=v.str("cname"), token=tok, api_url=v.str("api_url"))
    hb = v.real("heartbeat_period")
    o = v.attempt(lambda: it.call(v.cls(SP + ".GatewaySchedulerService"), [sched], {"gateway": client, "heartbeat_period": hb}))
    if not v.ok_or(o, "service-starts"):
        return
    svc = o.val
    acts = []
    for m in ("scale", "adapt"):
        svc.attrs[m] = v.afn(lambda it2, a, k, m=m: acts.append(m))
    v.prove("one-application", z3.BoolVal(len(apps) == 1))
    settings = apps[0][1]
    st = v.pydict({k: x for k, x in settings.items()})
    hdr = v.dyn("authorization", [("absent", None), ("present", v.str("header"))])
    hv = it.resolve(hdr)
    cred = z3.BoolVal(False) if hv is None else hv.t == z3.Concat(z3.StringVal("token "), tok.t)
    wellformed = z3.BoolVal(True) if hv is None else z3.Or(z3.Contains(hv.t, z3.StringVal(" ")), hv.t == z3.StringVal(""))
    v.case(lambda ev: {"kind": "sched", "token": ev(tok), "auth": ev(hdr)})
    body = v.pydict({"op": v.dyn("op", [("scale", "scale"), ("adapt", "adapt"), ("odd", "odd"), ("none", None)]), "count": v.int("count")})
    req = v.fake("Request", headers=v.fake("H", get=v.native(lambda it2, a, k: (hdr if a[0] == "Authorization" else (a[1] if len(a) > 1 else None)))), body=v.opaque("body"))
    n = 0
    for spec in it.to_pylist(apps[0][0]):
        path, ci = spec[0], spec[1]
        for m, f in methods(it, ci):
            h = v.obj(ci, settings=st, request=req, json_data=body, set_status=v.native(lambda *a: None), write=v.native(lambda *a: None), gateway_service_=None)
            del acts[:]
            guarded = any(d.split(".")[-1] == "authenticated" for d in getattr(f, "deco", []))
            refused = False
            if guarded:
                u = v.attempt(lambda: it.call(it.getattr(h, "get_current_user"), []))
                refused = u.kind == "raise" or not it.truth(u.val)
                v.prove("refuses-without-the-clusters-token", z3.Or(cred, z3.BoolVal(refused)))
                v.prove("accepts-the-clusters-token", z3.Implies(cred, z3.BoolVal(not refused)))
            if not refused:
                v.attempt(lambda: it.call(f, [h]))
            v.prove("acts-only-for-holders-of-the-token", z3.Or(cred, z3.BoolVal(not acts)))
            if acts:
                v.cover("acts")
            n += 1
    v.prove("serves-something", z3.BoolVal(n > 0))
