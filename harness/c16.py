"""C16 on the real proxy: tables after updates, the loop that watches the API,
and TCP connections through it."""
import json
import random

from harness import gosim
from harness.c15 import key

gosim.prepare()
PARALLEL = 4
TARGETS = ["http://h1:80", "https://h2/x", "http://h3/x?y=1", "tls://10.0.0.1:8786", "h3:99", "10.0.0.2:80", "", "ftp://x", "://bad", "http://h/%zz", "HTTP://H", "tls://tls://x", "tls://"]
NAMES = ["a", "b", "c1", "", "A"]
PATHS = ["/", "/a", "/a/", "a", "/a/b", "", "/clusters/x", "//"]
KINDS = ["SNI", "PATH", "SNI", "PATH", "sni", ""]


def groute(rng):
    kind = rng.choice(KINDS)
    r = {"kind": kind, "target": rng.choice(TARGETS[:4] if rng.random() < 0.6 else TARGETS)}
    if kind != "PATH" or rng.random() < 0.2:
        r["sni"] = rng.choice(NAMES)
    if kind != "SNI" or rng.random() < 0.2:
        r["path"] = rng.choice(PATHS)
    return r


def gevent(rng, i):
    return {"id": i, "type": rng.choice(["PUT", "PUT", "PUT", "DELETE", "DELETE", "put", ""]), "route": groute(rng)}


def updates(rng):
    steps, i = [], 1
    for _ in range(rng.randrange(1, 6)):
        n = rng.choice([0, 1, 2, 3, 5])
        if rng.random() < 0.3:
            steps.append({"full": [groute(rng) for _ in range(n)]})
        else:
            evs = []
            for _ in range(n):
                i += 1
                evs.append(gevent(rng, i))
            steps.append({"events": evs})
    return {"kind": "updates", "steps": steps}


def watch(rng, big=False):
    """What an API server says: the ids are those of one history."""
    i = 0
    tables, watches = [], []
    for t in range(rng.choice([1, 1, 2, 2])):
        if rng.random() < 0.1:
            tables.append(500)
        i += 1
        tables.append({"routes": [groute(rng) for _ in range(rng.randrange(3))], "id": i})
        for w in range(rng.choice([0, 1, 2, 3])):
            lines = []
            for _ in range(rng.choice([0, 1, 2])):
                evs = []
                for _ in range(rng.choice([0, 1, 2, 3]) if not big else 80):
                    i += 1
                    e = gevent(rng, i)
                    if big and e["route"].get("path") and e["route"]["kind"] == "PATH":
                        e["route"]["path"] += "/" + "y" * 1200
                    evs.append(e)
                lines.append({"events": evs})
            watches.append(lines)
        how = rng.random()
        if how < 0.4:
            watches.append([410])
        elif how < 0.5:
            watches.append([503])
        elif how < 0.8:
            e = {"events": [gevent(rng, i + 1)]}
            s = json.dumps(e)
            watches.append([{"events": [gevent(rng, i + 1)]}, s[: rng.randrange(1, len(s) - 1)] + rng.choice(["", "\n"])])
            i += 2
        else:
            watches.append([{"events": [gevent(rng, i + 1)]}])
            i += 1
            watches.append([410])
    if big:
        watches.append([{"events": []}])
    return {"kind": "watch", "tables": tables, "watches": watches}


BASE = {"kind": "conn", "routes": {"c1": 0, "c2": 1, "c2.x": 0}, "name": "daskgateway-c1", "hello": True, "body": "", "chunks": [], "mode": "", "fwd": False}


def conn(rng):
    c = dict(BASE)
    c["routes"] = {n: i for i, n in enumerate(rng.sample(["c1", "c2", "c2.x", "daskgateway-c1", "c", "Cd", "x" * 40], rng.randrange(1, 4)))}
    c["body"] = "".join(rng.choice("ab\x00\x16\n~") for _ in range(50)) * rng.choice([0, 1, 20, 100, 3000])
    c["chunks"] = [rng.choice([1, 2, 3, 5, 6, 100, 300, 4096]) for _ in range(rng.choice([0, 1, 2, 4, 6]))]
    c["mode"] = rng.choice(["", "", "target-first"])
    known = rng.random() < 0.75
    c["name"] = "daskgateway-" + (rng.choice(sorted(c["routes"])) if known else rng.choice(["zz", "c3", "C9", "c1x"]))
    c["fwd"] = rng.random() < 0.5
    if rng.random() < 0.3:
        c["fwd"] = rng.random() < 0.9
        if rng.random() < 0.5:
            c["hello"] = False
            c["body"] = rng.choice(["GET / HTTP/1.1\r\n\r\n", "\x16\x03\x01\x02\x00junk", "\x16", "\x16\x03\x01", "x", "\x16\x03\x01\x00\x05hello" + "z" * 9000, "\x17\x03\x01", "\x16\x03\x01\xff\xff" + "q" * 8000]) + c["body"]
            c["mode"] = ""
        else:
            c["name"] = rng.choice(["other", "daskgateway", "dask-gateway-c1", "c1", "xdaskgateway-c1"])
    elif not known:
        c["fwd"] = rng.random() < 0.5
    return c


def cases(tier, seed):
    rng = random.Random(seed)
    for k in ("", "target-first"):
        yield {**BASE, "body": "x" * 20000, "chunks": [3, 1, 100], "mode": k}
    yield {**BASE, "name": "daskgateway-zz", "fwd": True}
    yield {**BASE, "name": "other", "fwd": True, "body": "abc"}
    yield {**BASE, "name": "other"}
    yield {**BASE, "routes": {"c1": -1, "c2": 0}, "fwd": True}
    yield {**BASE, "routes": {"c1": -1, "c2": 0}}
    yield {**BASE, "hello": False, "body": "GET / HTTP/1.1\r\n\r\n", "fwd": True}
    yield {**BASE, "hello": False, "body": "\x16\x03", "fwd": True}
    yield {"kind": "accept"}
    a = {"kind": "PATH", "path": "/a", "target": "http://a"}
    yield {"kind": "watch", "tables": [{"routes": [a], "id": 7}], "watches": [[{"events": []}], [410]]}
    yield {"kind": "watch", "tables": [{"routes": [], "id": 1}], "watches": [[{"events": [{"id": 2 + i, "type": "PUT", "route": {"kind": "PATH", "path": f"/p{i}", "target": "http://h/" + "y" * 1000}} for i in range(100)]}], [410]]}
    yield {"kind": "watch", "tables": [500, {"routes": [a], "id": 1}], "watches": [[503], [410]]}
    n = {"quick": (1500, 40, 60), "deep": (8000, 200, 300), "thorough": (30000, 800, 1500)}[tier]
    for i in range(n[0]):
        yield updates(rng)
        if i % (n[0] // n[1]) == 0:
            yield watch(rng, i % 5 == 1)
        if i % (n[0] // n[2]) == 0:
            yield conn(rng)


PARSED = {}


def parse(t):
    if t not in PARSED:
        PARSED[t] = gosim.ask({"kind": "parse", "targets": [t]})[0]
    return PARSED[t]


def check(r, full):
    """(table, key, value) or None"""
    k = r.get("kind", "")
    name = r.get("sni", "") if k == "SNI" else r.get("path", "") if k == "PATH" else ""
    if not name:
        return None
    t = r.get("target", "")
    if full:
        if not t:
            return None
        if k == "SNI":
            return 0, name, t[6:] if t.startswith("tls://") else t
        u = parse(t)
        if u is None or u[0] not in ("http", "https"):
            return None
        t = u[1]
    if k == "SNI":
        return 0, name, t
    q = [x.decode("utf8") for x in key(name)]
    return 1, ("/" + "/".join(q) if q else ""), t


def apply(tables, step):
    tables = [dict(tables[0]), dict(tables[1])]
    evs = step.get("events")
    if step.get("full") is not None:
        tables = [{}, {}]
        evs = [{"type": "PUT", "route": r} for r in step["full"]]
    for e in evs:
        if e["type"] == "PUT":
            x = check(e["route"], True)
            if x is not None:
                tables[x[0]][x[1]] = x[2]
        elif e["type"] == "DELETE":
            x = check(e["route"], False)
            if x is not None:
                tables[x[0]].pop(x[1], None)
    tables[0] = {k: x for k, x in tables[0].items() if x}
    return tables


def odd(c):
    return any("\ud800" <= ch <= "\udfff" for ch in json.dumps(c, ensure_ascii=False))


def run(c):
    if odd(c):
        return []
    return {"updates": run_updates, "watch": run_watch, "conn": run_conn, "accept": run_accept}[c["kind"]](c)


def run_updates(c):
    got = gosim.ask(c)
    if isinstance(got, dict):
        return [("no-panic", f"{got} {c}")]
    want = [{}, {}]
    for i, g in enumerate(got):
        if i:
            want = apply(want, c["steps"][i - 1])
        if g[0] != want[0]:
            return [("names-follow-the-updates", f"after {c['steps'][:i]}: {g[0]}, expected {want[0]}")]
        if g[1] != want[1]:
            return [("paths-follow-the-updates", f"after {c['steps'][:i]}: {g[1]}, expected {want[1]}")]
    return []


def run_watch(c):
    """The proxy's requests, and its tables at each of them, against a loop
    written from the protocol: the table, then events after the last one
    applied; anything wrong: the table again."""
    got = gosim.ask(c)
    if "panic" in got:
        return [("no-panic", f"{got} {c}")]
    tables = [{}, {}]
    want = []
    nt = nw = 0
    ts, ws = c["tables"], c["watches"]
    last = None
    while True:
        if last is None:
            want.append(("request  ", tables))
            if nt >= len(ts):
                break
            t = ts[nt]
            nt += 1
            if isinstance(t, int):
                continue
            tables = apply(tables, {"full": t["routes"]})
            last = t["id"]
        else:
            want.append((f"request 1 {last}", tables))
            if nw >= len(ws):
                break
            w = ws[nw]
            nw += 1
            if len(w) == 1 and isinstance(w[0], int):
                last = None
                continue
            for l in w:
                if isinstance(l, str):  # cut off
                    last = None
                    break
                if l["events"]:
                    tables = apply(tables, l)
                    last = l["events"][-1]["id"]
    log = got["log"]
    for i, (q, t) in enumerate(want):
        if i >= len(log):
            return [("updates-are-asked-for", f"{json.dumps(c)[:600]}: after {[x[0] for x in log]} nothing more, expected {q!r}")]
        if log[i][0] != q:
            return [("asks-from-the-last-event-applied", f"{json.dumps(c)[:600]}: request {i} is {log[i][0]!r}, expected {q!r}")]
        if log[i][1] != t:
            return [("every-update-is-applied", f"{json.dumps(c)[:600]}: tables at request {i} ({q}): {json.dumps(log[i][1])[:400]}, expected {json.dumps(t)[:400]}")]
    return []


def run_accept(c):
    got = gosim.ask(c)
    if "panic" in got:
        return [("a-failed-accept-is-survived", str(got))]
    return [] if got == {"served": True} else [("a-failed-accept-is-survived", f"{got}")]


def run_conn(c):
    got = gosim.ask(c)
    if "panic" in got:
        return [("no-panic", f"{got} {str(c)[:600]}")]
    pre = "daskgateway-"
    who = ""
    if c["hello"] and c["name"].startswith(pre):
        i = c["routes"].get(c["name"][len(pre):])
        who = "" if i is None or i < 0 else f"t{i}"
    elif c["fwd"] and (c["hello"] or c["body"]):
        who = "forwarder"
    b = c["body"]
    if not c["hello"] and b[:1] == "\x16":
        who = "forwarder" if c["fwd"] else ""  # a record, whole or not, without a name
    where = f"routes {c['routes']}, {'hello for ' + c['name'] if c['hello'] else 'no hello'}, body of {len(c['body'])}, chunks {c['chunks']}, mode {c['mode']!r}, forwarder {c['fwd']}: {str({**got, 'back': got['back'][:40]})}"
    out = []
    if got["who"] != who:
        out.append(("goes-only-to-the-scheduler-named", f"{where}; expected {who or 'nobody'!r}"))
    if got["who"] and got["who"].startswith("t") and not (c["hello"] and c["name"].startswith(pre)):
        out.append(("goes-only-to-the-scheduler-named", where))
    if out or not got["who"]:
        if not got["who"] and got["back"]:
            out.append(("nothing-comes-from-nowhere", where))
        return out
    if not got["same"]:
        out.append(("every-byte-arrives", where))
    if got["back"] != "REPLY-FROM-TARGET":
        out.append(("the-reply-arrives", where))
    return out
