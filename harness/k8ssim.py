"""A simulated Kubernetes API server: objects with resource versions, watches
that break in every way, calls that fail, under virtual time."""
import asyncio
import copy
import json


class ApiError(Exception):
    pass


def make_error(status):
    from kubernetes_asyncio.client.rest import ApiException

    e = ApiException(status=status, reason="simulated")
    return e


class Response:
    def __init__(self, server, kind, rv, ns, selector, timeout):
        self.server, self.kind, self.rv, self.ns, self.sel = server, kind, rv, ns, selector
        self.end = asyncio.get_running_loop().time() + (timeout or 10)
        self.content = self
        self.lines = []
        self.broken = False

    async def __aenter__(self):
        self.server.watches.append(self)
        return self

    async def __aexit__(self, *exc):
        if self in self.server.watches:
            self.server.watches.remove(self)

    async def readline(self):
        s = self.server
        loop = asyncio.get_running_loop()
        while True:
            if self.lines:
                await s.delay()
                line = self.lines.pop(0)
                if line == "broken":
                    raise ConnectionError("watch broken")
                if line == "end":
                    return b""
                return line
            ev = s.next_event(self)
            if ev is not None:
                await s.delay()
                return ev
            if loop.time() >= self.end:
                return b""
            fut = loop.create_future()
            s.wakers.append(fut)
            try:
                await asyncio.wait([fut], timeout=max(self.end - loop.time(), 0.001))
            finally:
                fut.cancel()


class Server:
    def __init__(self, rng):
        self.rng = rng
        self.rv = 1
        self.objs = {}  # kind -> {(ns, name): obj}
        self.log = []  # (rv, type, kind, obj)
        self.floor = 0  # events up to here are compacted
        self.watches = []
        self.wakers = []
        self.fail = {}  # operation -> list of statuses to fail with
        self.calls = []
        self.pause = (0, 0, 0, 0.01, 0.2)
        self.bookmarks = 0

    async def delay(self):
        d = self.rng.choice(self.pause)
        if d:
            await asyncio.sleep(d)

    # ------------------------------------------------------------ content
    def change(self, typ, kind, obj):
        self.rv += 1
        obj = copy.deepcopy(obj)
        obj["metadata"]["resourceVersion"] = str(self.rv)
        key = (obj["metadata"]["namespace"], obj["metadata"]["name"])
        d = self.objs.setdefault(kind, {})
        if kind == "dc":
            # counts the changes of what is wanted, not those of the status
            was = d.get(key)
            obj["metadata"]["generation"] = 1 if was is None else was["metadata"]["generation"] + (was.get("spec") != obj.get("spec"))
        if typ == "DELETED":
            d.pop(key, None)
        else:
            d[key] = obj
        self.log.append((self.rv, typ, kind, obj))
        for f in self.wakers:
            if not f.done():
                f.set_result(None)
        self.wakers = []
        return obj

    def put(self, kind, obj):
        key = (obj["metadata"]["namespace"], obj["metadata"]["name"])
        return self.change("MODIFIED" if key in self.objs.get(kind, {}) else "ADDED", kind, obj)

    def remove(self, kind, ns, name):
        o = self.objs.get(kind, {}).get((ns, name))
        if o is not None:
            self.change("DELETED", kind, o)

    def matches(self, obj, ns, sel):
        if ns is not None and obj["metadata"]["namespace"] != ns:
            return False
        labels = obj["metadata"].get("labels") or {}
        return all(labels.get(p.split("=")[0]) == p.split("=")[1] for p in (sel or "").split(",") if p)

    def next_event(self, r):
        """The next line of a watch."""
        if r.rv is not None and int(r.rv) < self.floor:
            r.lines = ["end"]
            return json.dumps({"type": "ERROR", "object": {"code": 410, "message": "too old"}}).encode() + b"\n"
        for rv, typ, kind, obj in self.log:
            if rv > int(r.rv) and kind == r.kind and self.matches(obj, r.ns, r.sel):
                r.rv = rv
                return json.dumps({"type": typ, "object": obj}).encode() + b"\n"
        return None

    def compact(self):
        self.floor = self.rv
        self.log = []

    def disturb(self, how):
        """Something happens to every open watch."""
        for w in list(self.watches):
            if how == "end":
                w.lines.append("end")
            elif how == "broken":
                w.lines.append("broken")
            elif how == "garbage":
                w.lines.append(b"{not json\n")
            elif how == "error":
                w.lines += [json.dumps({"type": "ERROR", "object": {"code": 500, "message": "oops"}}).encode() + b"\n"]
            elif how == "410":
                w.lines += [json.dumps({"type": "ERROR", "object": {"code": 410, "message": "too old"}}).encode() + b"\n"]
            elif how == "bare-error":
                w.lines += [json.dumps({"type": "ERROR", "object": {}}).encode() + b"\n"]
            elif how == "bookmark":
                if any(rv > int(w.rv) and kind == w.kind for rv, _, kind, _ in self.log):
                    continue
                w.lines += [json.dumps({"type": "BOOKMARK", "object": {"metadata": {"resourceVersion": str(self.rv), "namespace": "", "name": ""}}}).encode() + b"\n"]
        for f in self.wakers:
            if not f.done():
                f.set_result(None)
        self.wakers = []

    async def op(self, op, *what):
        """A call under way: recorded, delayed, perhaps failed."""
        self.calls.append((op,) + what)
        await self.delay()
        q = self.fail.get(op)
        if q:
            x = q.pop(0)
            if x:
                raise (ConnectionError("down") if x == "down" else make_error(x))

    # ------------------------------------------------------------- client
    def lister(self, kind):
        async def method(*args, namespace=None, label_selector=None, resource_version=None, timeout_seconds=None, watch=False, _preload_content=True, **kw):
            if args:
                namespace = args[0]
            if not watch:
                await asyncio.sleep(0.001)
            await self.op("watch" if watch else "list", kind)
            if watch:
                return Response(self, kind, resource_version, namespace, label_selector, timeout_seconds)
            items = [copy.deepcopy(o) for o in self.objs.get(kind, {}).values() if self.matches(o, namespace, label_selector)]
            self.rng.shuffle(items)
            return {"items": items, "metadata": {"resourceVersion": str(self.rv)}}

        return method


class ApiClient:
    def sanitize_for_serialization(self, x):
        return copy.deepcopy(x)


class Client:
    def __init__(self, server, **methods):
        self.server = server
        self.api_client = ApiClient()
        for k, f in methods.items():
            setattr(self, k, f)
