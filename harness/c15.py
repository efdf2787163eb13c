"""C15 on the real proxy: routes put and deleted, paths matched and served."""
import random

from harness.gosim import ask

PARTS = ["a", "b", "ab", "clusters", "", "é", "a b", "."]


def gpath(rng):
    k = rng.choice([0, 1, 1, 2, 2, 3, 4])
    parts = [rng.choice(PARTS[:3] if rng.random() < 0.7 else PARTS) for _ in range(k)]
    return rng.choice(["", "/", "/", "/", "//"]) + "/".join(parts) + rng.choice(["", "", "/", "//"])


def cases(tier, seed):
    yield {"kind": "route", "ops": [], "queries": ["", "/", "/a", "//", "///"]}
    yield {"kind": "route", "ops": [["put", "/", "http://t0/"], ["put", "/a/b", "http://t1/"], ["put", "/a/b/c/d", "http://t2/"], ["del", "/a/b"], ["del", "/a/b/c/d"], ["put", "/a", "http://t3/"], ["del", "/"]],
           "queries": ["", "/", "/a", "/a/", "/a/b", "/a/b/", "/a/b/c", "/a/b/c/d", "/a/b/c/d/e/", "/ab", "a/b/x", "//a"]}
    rng = random.Random(seed)
    for i in range({"quick": 4000, "deep": 20000, "thorough": 60000}[tier]):
        known, ops = [], []
        for j in range(rng.randrange(1, 9)):
            if known and rng.random() < 0.4:
                p = rng.choice(known)
                if rng.random() < 0.3:
                    p = rng.choice([p + "/", p + "/a", p.strip("/"), "/" + p.strip("/")])
                op = rng.random()
                ops.append(["del", p] if op < 0.75 else ["put", p, f"http://t{j}/"])
            else:
                p = gpath(rng)
                if known and rng.random() < 0.5:
                    p = rng.choice(known).rstrip("/") + "/" + rng.choice(PARTS[:3])
                known.append(p)
                ops.append(["put", p, f"http://t{j}" + rng.choice(["", "/", "/x", "/x/", "/x?k=1"])])
        qs = [gpath(rng) for _ in range(4)]
        for p in known:
            qs += [p, p + "/", p + "/a/b", p.rstrip("/") + "b"]
            if "/" in p.strip("/"):
                qs.append(p.strip("/").rsplit("/", 1)[0])
        rng.shuffle(qs)
        if rng.random() < 0.3:
            yield {"kind": "serve", "ops": ops, "queries": [q + rng.choice(["", "", "?q=2"]) for q in qs[:12]]}
        else:
            yield {"kind": "route", "ops": ops, "queries": qs[:16]}


def norm(p):
    b = p.encode("utf8", "surrogatepass")
    if b in (b"", b"/"):
        return b"", 0
    off = 0
    if b[:1] == b"/":
        b, off = b[1:], 1
    if b[-1:] == b"/":
        b = b[:-1]
    return b, off


def key(p):
    b, _ = norm(p)
    return tuple(b.split(b"/")) if b else ()


def best(table, p):
    """(target, remainder) by the table"""
    raw = p.encode("utf8")
    b, off = norm(p)
    parts = key(p)
    for n in range(len(parts), -1, -1):
        if parts[:n] in table:
            if n == len(parts):
                end = len(b)
            else:
                end = sum(len(x) + 1 for x in parts[:n])
            return table[parts[:n]], raw[off + end:].decode("utf8")
    return "", ""


def run(c):
    if c["kind"] == "match":  # from a counterexample
        p = c["path"]
        rs = [r[0] for r in c["routes"]] + [p, "/"]
        c = {"kind": "route", "ops": [["put", r, f"http://t{i}/"] for i, r in enumerate(rs)], "queries": [p, p + "/", "/" + p, p + "/x", ""]}
    if c["kind"] == "delete":
        p = c["path"]
        c = {"kind": "route", "ops": [["put", p, "http://t0/"], ["put", p + "/x", "http://t1/"], ["put", "/", "http://t2/"], ["del", p], ["del", p + "/x"]], "queries": [p, p + "/x", "/"]}
    if any("\ud800" <= ch <= "\udfff" for o in c["ops"] for x in o for ch in x):
        return []
    got = ask(c)
    if isinstance(got, dict):
        return [("no-panic", f"{got} {c}")]
    table = {}
    out = []

    def apply(o):
        if o[0] == "put":
            table[key(o[1])] = o[2]
        else:
            table.pop(key(o[1]), None)

    if c["kind"] == "route":
        for i, row in enumerate(got):
            if i:
                apply(c["ops"][i - 1])
            for q, (u, rest, has) in zip(c["queries"], row):
                wu, wr = best(table, q)
                where = f"after {c['ops'][:i]}: path {q!r}"
                if u != wu:
                    out.append(("the-longest-route-wins", f"{where} -> {u!r}, expected {wu!r}"))
                elif rest != wr:
                    out.append(("the-unmatched-remainder", f"{where} -> remainder {rest!r}, expected {wr!r}"))
                if has != bool(wu):
                    out.append(("HasMatch", f"{where} -> {has}"))
        return out
    for o in c["ops"]:
        apply(o)
    for q, (code, sent) in zip(c["queries"], got):
        path, _, query = q.partition("?")
        wu, rest = best(table, path)
        sent = sent or []
        where = f"routes {table} request {q!r}"
        if not wu:
            if sent or code != 404:
                out.append(("a-path-without-a-route-is-not-forwarded", f"{where}: {code} {sent}"))
            continue
        base, _, tq = wu.partition("?")
        scheme, _, hp = base.partition("://")
        host, sl, tp = hp.partition("/")
        tp = sl + tp
        want = (tp[:-1] if tp.endswith("/") else tp) + "/" + (rest[1:] if rest.startswith("/") else rest)
        wq = tq + "&" + query if tq and query else tq + query
        exp = f"{scheme}://{host} {host} {want}?{wq}"
        if sent != [exp]:
            out.append(("forwarded-to-the-route's-target", f"{where}: sent {sent}, expected {exp!r}"))
    return out
