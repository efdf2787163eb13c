"""Assumed contracts of aiohttp.web and tornado.web."""
import z3

from .core import *
from .vals import *
from . import models
from .libs import DEFAULT_LIB, FakeCls


# ---------------------------------------------------------------- exceptions
class HTTPException(Exception):
    status = None


class HTTPError(HTTPException):
    pass


class HTTPClientError(HTTPError):
    pass


class HTTPServerError(HTTPError):
    pass


_ST = {
    "HTTPBadRequest": 400, "HTTPUnauthorized": 401, "HTTPForbidden": 403, "HTTPNotFound": 404, "HTTPMethodNotAllowed": 405,
    "HTTPNotAcceptable": 406, "HTTPConflict": 409, "HTTPGone": 410, "HTTPUnprocessableEntity": 422, "HTTPTooManyRequests": 429,
    "HTTPInternalServerError": 500, "HTTPNotImplemented": 501, "HTTPBadGateway": 502, "HTTPServiceUnavailable": 503, "HTTPGatewayTimeout": 504,
}
WEBEXC = {}
for _n, _s in _ST.items():
    WEBEXC[_n] = type(_n, (HTTPClientError if _s < 500 else HTTPServerError,), {"status": _s})
for _c in (HTTPException, HTTPError, HTTPClientError, HTTPServerError):
    WEBEXC[_c.__name__] = _c


class TornadoHTTPError(Exception):
    pass


def exc_call(it, t, a, k):
    """Constructor of an HTTP exception: keeps reason, headers, status."""
    at = {"reason": k.get("reason", t.__name__), "status": t.status, "text": k.get("text")}
    h = k.get("headers")
    hd = VDict(level=it.level)
    if isinstance(h, VDict):
        hd.d.update(h.d)
    at["headers"] = headers_obj(it, hd)
    return it.make_exc(t, at["reason"], **at)


def headers_obj(it, d):
    def popall(it2, a, k):
        if len(a) > 1:
            return a[1]
        it2.raise_(KeyError, a[0])

    return Obj(FakeCls("Headers"), {
        "popall": Native("popall", popall),
        "d": d,
        "get": Native("get", lambda it2, a, k: models.method(dict, "get").fn(it2, [d] + list(a), k)),
        "__getitem__": Native("gi", lambda it2, a, k: it2.getitem(d, a[0])),
        "__setitem__": Native("si", lambda it2, a, k: it2.setitem(d, a[0], a[1])),
    }, it.level)


def make_response(it, status, body, headers=None, prepared=False):
    o = Obj(FakeCls("Response"), {}, it.level)
    hd = VDict(level=it.level)
    if isinstance(headers, VDict):
        hd.d.update(headers.d)
        ho = headers_obj(it, hd)
    elif isinstance(headers, Obj):
        ho = headers
    else:
        ho = headers_obj(it, hd)
    o.attrs.update(status=status, body=body, headers=ho, __bool__=True)

    def set_cookie(it2, a, k):
        it2.ctx.event("set_cookie", a[0], a[1], k.get("max_age"))

    o.attrs["set_cookie"] = Native("set_cookie", set_cookie)
    return o


def _json_response(it, a, k):
    body = a[0] if a else k.get("data")
    st = k.get("status", a[1] if len(a) > 1 else 200)
    return make_response(it, st, body, k.get("headers"))


def _response(it, a, k):
    return make_response(it, k.get("status", 200), k.get("body", k.get("text")), k.get("headers"))


def _stream(it, a, k):
    o = make_response(it, k.get("status", 200), None, k.get("headers"))
    nm = {"prepare": "prepare", "write": "write", "write_eof": "write_eof"}
    for m in nm:
        def fn(it2, a2, k2, m=m):
            def go():
                it2.ctx.event("stream_" + m, *a2)
                from .libs import suspend
                suspend(it2, "stream_" + m)
            return Coro(go, m)
        o.attrs[m] = Native(m, fn)
    return o


def route_table(it, a, k):
    tbl = VList(level=it.level)

    def reg(method):
        def outer(it2, a2, k2):
            path = a2[0]

            def deco(it3, a3, k3):
                it3.ctx.mut_append(tbl.items, (method, path, a3[0]))
                return a3[0]

            return Native("route", deco)

        return Native(method, outer)

    at = {m: reg(m.upper()) for m in ("get", "post", "put", "delete", "patch", "head", "options", "view")}

    def generic(it2, a2, k2):
        return reg(a2[0].upper() if isinstance(a2[0], str) else "*").fn(it2, a2[1:], k2)

    at["route"] = Native("route", generic)
    at["table"] = tbl
    return Obj(FakeCls("RouteTableDef"), at, it.level)


LIB = {
    "aiohttp.web.json_response": _json_response,
    "aiohttp.web.Response": _response,
    "aiohttp.web.StreamResponse": _stream,
    "aiohttp.web.RouteTableDef": route_table,
}
DEFAULT_LIB.update(LIB)


def attempt(it, thunk):
    """(value, None) or (None, exception)."""
    try:
        return thunk(), None
    except PyRaise as e:
        return None, e.val


def _tornado_error(it, a, k):
    return it.make_exc(TornadoHTTPError, *a, status_code=a[0] if a else k.get("status_code", 500), reason=k.get("reason"))


DEFAULT_LIB["tornado.web.HTTPError"] = _tornado_error
