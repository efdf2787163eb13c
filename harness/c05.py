"""Random declarations and requests on the real server and client options."""
import asyncio
import copy
import json
import logging
import math
import random

from dask_gateway import options as CO
from dask_gateway_server import options as SO
from dask_gateway_server.backends import base as BASE
from dask_gateway_server.models import User


def cases(tier, seed):
    rng = random.Random(seed)
    for _ in range({"quick": 4000, "deep": 20000, "thorough": 100000}[tier]):
        yield {"kind": "options", "seed": rng.randrange(1 << 30)}


def run(case):
    if case["kind"] not in ("options", "field"):
        return []
    for s in [case["seed"]] if "seed" in case else range(400):
        out = []
        one(random.Random(s), lambda c, m: out.append((c, m)))
        if out:
            return out
    return []


NUMS = [0, 1, -1, 2, 3, 5, 10, 0.5, 1.5, -2.5, 1e300, float("nan"), float("inf"), float("-inf"), 2**70]
JUNK = [None, True, False, "", "a", "b", "z", "1", [], ["a"], {}, {"k": 1}, [1, 2]]


def declare(rng, name):
    """(server field, declared default, predicate, normalise, transform)"""
    t = rng.choice(["String", "Bool", "Integer", "Float", "Select", "Mapping"])
    kw = {}
    if rng.random() < 0.4:
        kw["target"] = "t_" + name
    if rng.random() < 0.3:
        kw["label"] = "label"
    if t == "String":
        d = rng.choice(["", "dflt"])
        return SO.String(name, default=d, **kw), d, lambda x: type(x) is str, same, same
    if t == "Bool":
        d = rng.random() < 0.5
        return SO.Bool(name, default=d, **kw), d, lambda x: type(x) is bool, same, same
    if t in ("Integer", "Float"):
        lo = rng.choice([None, None, 0, 1, -3] + ([0.5, -1.5] if t == "Float" else []))
        hi = rng.choice([None, None, 5, 4, 7] + ([2.5] if t == "Float" else []))
        d = rng.choice([1, 2, 3] if t == "Integer" else [1, 2, 1.5])
        if rng.random() < 0.15:
            lo, hi, d = rng.choice([(None, 0, 0), (-3, 0, -1), (0, None, 0), (0, 0, 0), (-2, -1, -1)])
        if lo is not None:
            kw["min"] = lo
        if hi is not None:
            kw["max"] = hi

        def okv(x):
            if isinstance(x, bool) or not isinstance(x, int if t == "Integer" else (int, float)):
                return None if isinstance(x, bool) else False
            if t == "Float":
                try:
                    x = float(x)
                except OverflowError:
                    return False
            if x != x:
                return lo is None and hi is None
            return (lo is None or x >= lo) and (hi is None or x <= hi)

        conv = same if t == "Integer" else (lambda x: float(x))
        return getattr(SO, t)(name, default=d, **kw), conv(d), okv, conv, same
    if t == "Select":
        opts = rng.sample(["a", "b", ("c", 3), ("d", {"deep": [1]})], rng.randrange(1, 5))
        m = {}
        for o in opts:
            k, val = o if isinstance(o, tuple) else (o, o)
            m[k] = val
        keys = list(m)
        if rng.random() < 0.5:
            d = rng.choice(keys)
            kw["default"] = d
        else:
            d = keys[0]
        return SO.Select(name, opts, **kw), d, lambda x: type(x) is str and x in m, same, lambda x: m[x]
    d = rng.choice([None, {}, {"x": {"y": 1}}])
    return SO.Mapping(name, **({"default": copy.deepcopy(d)} if d is not None else {}), **kw), d or {}, lambda x: type(x) is dict, same, same


def same(x):
    return x


def eq(a, b):
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    return a == b and type(a) is type(b)


class FakeBackend(BASE.Backend):
    pass


def bad_name(msg, name):
    return name not in str(msg)


def one(rng, bad):
    names = rng.sample(["aa", "bb", "cc", "dd"], rng.randrange(0, 4))
    decl = {n: declare(rng, n) for n in names}
    fields = [d[0] for d in decl.values()]
    req = {}
    for n in names:
        if rng.random() < 0.7:
            req[n] = copy.deepcopy(rng.choice(NUMS + JUNK + ["c", "d", 1, 2, 3, 1.5]))
    unknown = []
    if rng.random() < 0.15:
        unknown = [rng.choice(["zz", "AA", "aa ", "t_aa"])]
        req[unknown[0]] = 1
    got = []
    mode = rng.choice(["none", "one", "two", "varargs"])

    def h1(options):
        got.append((options, None))
        return {"handled": dict(options)}

    def h2(options, user):
        got.append((options, user))
        return {"handled": dict(options)}

    def h3(*args):
        got.append(args)
        return {"handled": dict(args[0])}

    handler = {"none": None, "one": h1, "two": h2, "varargs": h3}[mode]
    spec = SO.Options(*fields, handler=handler)
    user = User("u")
    configs = []

    class Cfg:
        def __init__(self, parent=None, **kw):
            configs.append(kw)
            self.kw = kw

    wrong = {n for n in req if n in decl and decl[n][2](req[n]) is False}
    maybe = {n for n in req if n in decl and decl[n][2](req[n]) is None}
    b = FakeBackend.__new__(FakeBackend)
    how = rng.choice(["plain", "fn", "afn"])

    class B:
        cluster_options = spec
        cluster_config_class = staticmethod(Cfg)
        get_cluster_options = BASE.Backend.get_cluster_options
        process_cluster_options = BASE.Backend.process_cluster_options

    b = B()
    if how == "fn":
        b.cluster_options = lambda u: spec
    elif how == "afn":

        async def f(u):
            return spec

        b.cluster_options = f
    sent = copy.deepcopy(req)
    # what parse_options alone says
    try:
        res, conf = asyncio.run(b.process_cluster_options(user, sent))
    except BASE.PublicException as e:
        if configs and any(True for _ in configs) and (wrong or unknown):
            bad("Options.parse_options::invalid-values-rejected", "configuration built before the request was rejected")
        if not wrong and not unknown and not maybe:
            bad("Options.parse_options::valid-requests-accepted", f"{req} refused: {e}")
        elif not maybe and all(bad_name(e, n) for n in list(wrong) + unknown) and not any(isinstance(req[n], int) and abs(req[n]) > 1e308 for n in wrong):
            bad("validate::error-names-the-option", f"{req} refused with {e}")
        return client(rng, bad, spec, decl)
    except Exception as e:
        bad("Backend.process_cluster_options::invalid-requests-refused", f"{req}: {e!r}")
        return
    if unknown:
        bad("Options.parse_options::unknown-options-rejected", f"{unknown} accepted")
        return
    if wrong:
        bad("Options.parse_options::invalid-values-rejected", f"{ {n: req[n] for n in wrong} } accepted by {[type(decl[n][0]).__name__ + str(decl[n][0].__dict__) for n in wrong]}")
        return
    want = {n: (d[3](sent[n]) if n in req else d[1]) for n, d in decl.items()}
    if set(res) != set(want) or not all(eq(res[n], want[n]) or n in maybe for n in want):
        bad("Options.parse_options::sent-or-default-value", f"{req} gave {res}, expected {want}")
        return
    try:
        json.dumps(res)
    except Exception as e:
        bad("Options.parse_options::serializable", repr(e))
    tgt = {decl[n][0].target: decl[n][4](res[n]) for n in decl}
    if handler is None:
        if len(configs) != 1 or not nanlike(configs[0], tgt):
            bad("Options.get_configuration::options-are-the-configuration", f"{configs} instead of {tgt}")
    else:
        if len(got) != 1 or not nanlike(dict(got[0][0]), tgt):
            bad("Options.get_configuration::handler-gets-the-values", f"{got} instead of {tgt}")
        elif mode in ("two", "varargs") and (len(got[0]) != 2 or got[0][1] is not user):
            bad("Options.get_configuration::handler-gets-the-user", f"{got[0]}")
        else:
            for k in tgt:
                if not eq(getattr(got[0][0], k), got[0][0][k]):
                    bad("Options.get_configuration::handler-gets-the-values-as-attributes", k)
        if len(configs) != 1 or set(configs[0]) != {"handled"} or not nanlike(configs[0]["handled"], tgt):
            bad("Options.get_configuration::handler-decides-the-configuration", f"{configs}")
    # defaults are not shared
    for n in decl:
        if n not in req and isinstance(res[n], dict):
            for x in list(res[n].values()):
                if isinstance(x, dict):
                    x["polluted"] = 1
            if rng.random() < 0.5:
                res[n]["polluted"] = 1
            again = spec.parse_options({})[n] if all(True for _ in [0]) else None
            if again != decl[n][1]:
                bad("Mapping.get_default::default-cannot-be-modified", f"default became {again}")
    client(rng, bad, spec, decl)


def nanlike(a, b):
    return set(a) == set(b) and all(eq(a[k], b[k]) for k in a)


def client(rng, bad, spec, decl):
    try:
        o = CO.Options._from_spec(json.loads(json.dumps(spec.get_specification())))
    except Exception as e:
        bad("client.Options._from_spec::client-understands-the-specification", repr(e))
        return
    if list(o) != list(decl):
        bad("client.Options._from_spec::declared-options-exist", f"{list(o)}")
        return
    for n, d in decl.items():
        if not (o[n] == d[1] or (o[n] != o[n] and d[1] != d[1])):
            bad("client.Options::default-is-the-declared-one", f"{n}: {o[n]!r} instead of {d[1]!r}")
    for _ in range(4):
        n = rng.choice(list(decl) + ["zz"])
        x = copy.deepcopy(rng.choice(NUMS + JUNK + ["c", "d", 1, 2]))
        before = dict(o)
        try:
            if rng.random() < 0.5:
                o[n] = x
            else:
                setattr(o, n, x)
        except Exception as e:
            if n in decl and decl[n][2](x) is True:
                bad("client.accepts-every-valid-value", f"{n}={x!r} refused: {e!r}")
            if not nanlike(dict(o), before):
                bad("client.rejected-values-change-nothing", f"{n}={x!r}")
            continue
        if n not in decl:
            bad("client.undeclared-options-rejected", f"{n} accepted")
            continue
        if decl[n][2](x) is False:
            bad("client.accepts-only-valid-values", f"{n}={x!r} accepted by {type(decl[n][0]).__name__} {decl[n][0].__dict__}")
        elif decl[n][2](x) and not eq(o[n], decl[n][3](x)):
            bad("client.value-as-set", f"{n}: {o[n]!r} instead of {x!r}")
