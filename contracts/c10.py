"""C10: memory and database agree."""
from contracts import dbfuncs
from contracts.dbmodel import *
from contracts.sqlmodel import *

dbfuncs.register("C10")

D = DB + ".DataManager."
A_SQL = [
    "SQLAlchemy core (contracts/sqlmodel.py): a transaction commits as a whole on normal exit and rolls back on an exception; insert/update/delete/select mean what SQL means; autoincrement ids are new",
]
C_COLS = ("status", "target", "count", "state", "scheduler_address", "dashboard_address", "api_address", "stop_time")
W_COLS = ("status", "target", "state", "stop_time", "close_expected")


def effective(it, e):
    """A logged UPDATE as [(id compared with, values)] (one per parameter set,
    generic ones as Part), or None when it is not of that form."""
    st, params = e[1], e[2]
    c = one_cond(st, "id")
    if c is None or it.resolve(c.attrs["op"]) not in ("==", "eq", "Eq"):
        return None
    rhs = c.attrs["rhs"]
    vals = dict(st.attrs["vals"] or {})

    def one(p):
        pd = {} if p is None else {k: x for k, x in p.d.values()}
        r = rhs
        if isinstance(r, Obj) and r.cls.name == "Bind":
            r = pd.pop(r.attrs["name"])
        v2 = {}
        for k, x in vals.items():
            if isinstance(x, Obj) and getattr(x.cls, "name", "") == "Bind":
                x = pd.pop(x.attrs["name"])
            v2[k] = x
        v2.update(pd)
        return r, v2

    if params is None:
        return [one(None)]
    params = it.resolve(params)
    if isinstance(params, VDict):
        return [one(params)]
    return [Part(x.sorts, x.guard, lambda *xs, x=x: one(x.val(*xs))) if isinstance(x, Part) else one(x) for x in it.iterate(params)]


def check_tx(v, sql, kind, table):
    """All statements are of the kind, on the table, inside one transaction."""
    st = sql.statements()
    v.prove("written-in-a-transaction", z3.BoolVal(bool(st) and all(e[3] and e[1].attrs["kind"] == kind for e in st)))
    v.prove("written-to-its-table", z3.BoolVal(all(e[1].attrs["table"].attrs["name"] == table for e in st)))
    v.prove("transaction-committed", z3.BoolVal(sql.log[-1] == ("commit",) and [e[0] for e in sql.log].count("begin") == 1))
    return st


def single(kind, cols):
    def f(v):
        it = v.it
        sql = SQL(v)
        sch = schema(v)[kind + "s"]
        dm = v.obj(DB + ".DataManager", db=sql.engine)
        at = {}
        for n in ("id",) + cols:
            at[n] = row_value(v, sch[n], "old")
        o = v.obj(DB + "." + kind.capitalize(), **at)
        sel = v.choose("all", *cols)
        keys = cols if sel == "all" else (sel,)
        kw = {k: row_value(v, sch[k], "new") for k in keys}
        v.case(lambda ev: {"kind": "update", "what": kind, "keys": list(keys), "fault": any(e[0] == "fault" for e in sql.log)})
        out = v.run(D + "update_" + kind, dm, o, **kw)
        fault = any(e[0] == "fault" for e in sql.log)
        same = lambda ks: z3.And([v.eq(o.attrs[k], at[k]) for k in ks] or [z3.BoolVal(True)])
        v.prove("only-the-given-fields-change", z3.And(same([k for k in ("id",) + cols if k not in keys]), z3.BoolVal(set(o.attrs) == set(at))))
        if out.kind == "raise":
            v.prove("fails-only-with-the-database", z3.BoolVal(fault))
            v.prove("memory-unchanged-when-refused", same(at))
            return
        v.cover("updated")
        v.prove("memory-has-the-new-values", z3.And([v.eq(o.attrs[k], kw[k]) for k in keys]))
        st = check_tx(v, sql, "update", kind + "s")
        seen = {}
        for e in st:
            for x in effective(it, e) or [None]:
                if x is None or isinstance(x, Part):
                    v.unreachable("only-its-own-row-is-written")
                    return
                v.prove("only-its-own-row-is-written", v.eq(x[0], at["id"]))
                seen.update(x[1])
        v.prove("database-has-the-same-values", z3.And([z3.BoolVal(set(seen) == set(keys))] + [v.eq(seen[k], kw[k]) for k in keys if k in seen]))

    return f


contract("C10", D + "update_cluster", "update_cluster", assumes=A_SQL)(single("cluster", C_COLS))
contract("C10", D + "update_worker", "update_worker", assumes=A_SQL)(single("worker", W_COLS))


class Heap:
    """Clusters and workers as an unbounded heap, without the rest of World."""

    def __init__(self, v, kind, cols):
        it, ctx = v.it, v.ctx
        self.cls = it.get_class(DB + "." + kind.capitalize())
        self.sort = kind.capitalize()
        self.st = {}
        js = it.get_class(DB + ".JobStatus")
        ty = dict(id=TInt(1), name=TStr(), status=TEnum(js), target=TEnum(js), count=TInt(0), state=TOpaque("json"), scheduler_address=TStr(),
                  dashboard_address=TStr(), api_address=TStr(), stop_time=TOpt(TInt(0)), close_expected=TInt(0))
        self.ty = ty
        for n in ("id", "name") + cols:
            self.st[n] = it.fields[(self.sort, n)] = Store(ctx, "h." + n, [ref_sort(self.sort)], ty[n])


def bulk(kind, cols):
    def f(v):
        it, ctx = v.it, v.ctx
        sql = SQL(v)
        h = Heap(v, kind, cols)
        S = ref_sort(h.sort)
        dm = v.obj(DB + ".DataManager", db=sql.engine)
        sel = v.choose("all", *cols)
        keys = cols if sel == "all" else (sel,)
        # new values: functions of the object (each object appears once)
        new = {k: Store(ctx, "new." + k, [S], h.ty[k]) for k in keys}
        G = z3.Function("in_updates", S, z3.BoolSort())

        def elem(x):
            d = VDict()
            for k in keys:
                d.d[hk(k)] = (k, new[k].read(x))
            d.level = 99
            return (SRef(h.cls, x), d)

        ups = VList([Part((h.sort,), lambda x: G(x), elem)])
        wit = z3.Const("wit", S)
        nonempty = v.choose("some", "none") == "some"
        if nonempty:
            ctx.know(h.sort, wit)
            ctx.assume(G(wit))
        else:
            ups = VList([])
        old = {n: s.snapshot() for n, s in h.st.items()}
        ctx.state["write_hook"] = None
        v.case(lambda ev: {"kind": "updates", "what": kind, "keys": list(keys), "fault": any(e[0] == "fault" for e in sql.log)})
        out = v.run(D + f"update_{kind}s", dm, ups)
        fault = any(e[0] == "fault" for e in sql.log)
        x = ctx.fresh("any", S)
        ctx.know(h.sort, x)
        cmp = lambda s1, s2: z3.And([a == b for a, b in zip(s1.comps(x), s2.comps(x))])
        v.prove("only-the-given-fields-change", z3.And([cmp(h.st[n], old[n]) for n in h.st if n not in keys]))
        if out.kind == "raise":
            v.prove("fails-only-with-the-database", z3.BoolVal(fault))
            v.prove("memory-unchanged-when-refused", z3.And([cmp(h.st[n], old[n]) for n in h.st]))
            return
        if not nonempty:
            v.prove("memory-unchanged-when-empty", z3.And([cmp(h.st[n], old[n]) for n in h.st]))
            return
        v.cover("updated")
        v.prove("memory-has-the-new-values", z3.Implies(G(x), z3.And([cmp(h.st[k], new[k]) for k in keys])))
        v.prove("others-unchanged", z3.Implies(z3.Not(G(x)), z3.And([cmp(h.st[k], old[k]) for k in keys])))
        st = check_tx(v, sql, "update", kind + "s")
        done = []
        for e in st:
            for p in effective(it, e) or [None]:
                if not isinstance(p, Part) or p.sorts != (h.sort,):
                    v.unreachable("only-its-own-row-is-written")
                    return
                rid, vals = p.val(x)
                v.prove("only-its-own-row-is-written", z3.Implies(p.guard(x), z3.And(G(x), v.eq(rid, old["id"].read(x)))))
                v.prove("database-has-the-same-values", z3.Implies(p.guard(x), z3.And([z3.BoolVal(set(vals) == set(keys))] + [v.eq(vals[k], new[k].read(x)) for k in keys if k in vals])))
                done.append(p.guard(x))
        v.prove("every-row-is-written", z3.Implies(G(x), z3.Or(done)))

    return f


A_BULK = A_SQL + ["callers pass updates with the same keys for every object and each object once (proved at the call sites: C10 dbmodel clause batch-has-uniform-keys)"]
contract("C10", D + "update_clusters", "update_clusters", assumes=A_BULK)(bulk("cluster", C_COLS))
contract("C10", D + "update_workers", "update_workers", assumes=A_BULK)(bulk("worker", W_COLS))


class Indexes:
    """The three indexes, of unknown contents, holding clusters."""

    def __init__(self, v):
        self.v = v
        it = v.it
        self.ids = SMap(v, lambda k: MISSING, name="id_to_cluster")
        self.names = SMap(v, lambda k: MISSING, name="name_to_cluster")
        self.user = {}
        self.users = UserMap(v)
        self.attrs = dict(id_to_cluster=self.ids.obj(), name_to_cluster=self.names.obj(), username_to_clusters=self.users.obj())


class UserMap(SMap):
    """defaultdict(dict) of unknown contents: inner dictionaries are SMaps."""

    def __init__(self, v, base=lambda k: MISSING):
        super().__init__(v, base, name="username_to_clusters")

    def missing(self, key):
        m = SMap(self.v, lambda k: MISSING, name="user_clusters").obj()
        self.set(key, m)
        return m


def creating(kind):
    def f(v):
        it, ctx = v.it, v.ctx
        sql = SQL(v)
        sch = schema(v)[kind + "s"]
        n = [0]
        ids = []

        def uid(it, a, k):
            t = ctx.fresh("uuid", z3.StringSort())
            ctx.assume(z3.Length(t) == 32)
            for o in ids:
                ctx.assume(t != o)
            ctx.mut_append(ids, t)
            return Obj(Fake("UUID"), {"hex": SStr(t)})

        it.lib["uuid.uuid4"] = uid
        now = v.int("now", 1)
        it.overrides["dask_gateway_server.utils.timestamp"] = lambda it, a, k: now
        cert, key = SBytes(z3.String("new_cert")), SBytes(z3.String("new_key"))
        kp = []

        def keypair(it, a, k):
            ctx.mut_append(kp, a[0])
            return (cert, key)

        it.overrides["dask_gateway_server.tls.new_keypair"] = keypair
        enc = z3.Function("encrypt", z3.StringSort(), z3.StringSort())
        it.overrides[D + "encrypt"] = lambda it, a, k: SBytes(enc(it.sterm(a[1])))
        it.overrides["dask_gateway_server.utils.FrozenAttrDict"] = Native("FrozenAttrDict", lambda it, a, k: Obj(Fake("Frozen"), {"of": a[0]}))
        it.lib["asyncio.get_running_loop"] = lambda it, a, k: Obj(Fake("Loop"), {"create_future": Native("create_future", lambda it, a, k: Obj(Fake("Future"), {}))})
        idx = Indexes(v)
        dm = v.obj(DB + ".DataManager", db=sql.engine, **idx.attrs)
        if kind == "cluster":
            user, options, config = v.str("user"), v.opaque("options", "json"), v.opaque("config", "json")
            args = (user, options, config)
        else:
            wm = SMap(v, lambda k: MISSING, name="workers")
            owner = v.obj(DB + ".Cluster", id=v.int("cid", 1), workers=wm.obj(), name=v.str("cname"))
            args = (owner,)
        v.case(lambda ev: {"kind": "create", "what": kind, "fault": any(e[0] == "fault" for e in sql.log)})
        out = v.run(D + "create_" + kind, dm, *args)
        fault = any(e[0] == "fault" for e in sql.log)
        ops = lambda m: [o for o in m.ops]
        if out.kind == "raise":
            v.prove("fails-only-with-the-database", z3.BoolVal(fault))
            v.prove("memory-unchanged-when-refused", z3.BoolVal(not (idx.ids.ops or idx.names.ops or idx.users.ops or (kind == "worker" and wm.ops))))
            return
        v.cover("created")
        o = it.resolve(out.val)
        st = check_tx(v, sql, "insert", kind + "s")
        v.prove("one-row-is-inserted", z3.BoolVal(len(st) == 1))
        if len(st) != 1:
            return
        row = dict(st[0][1].attrs["vals"] or {})
        if st[0][2] is not None:
            row.update({k: x for k, x in it.resolve(st[0][2]).d.values()})
        need = [n for n, c in sch.items() if c.attrs["kw"].get("nullable") is not True and n != "id"]
        v.prove("row-is-complete", z3.BoolVal(set(need) <= set(row) <= set(sch)))
        name = o.attrs["name"]
        g = lambda n: o.attrs[n]
        T = lambda x: it.sterm(x)
        is_js = lambda x, n: v.eq(x, v.cls(DB + ".JobStatus").enum[n])
        v.prove("name-is-new", z3.Or([T(name) == u for u in ids] or [z3.BoolVal(False)]))
        v.prove("starts-created-and-wanted-running", z3.And(is_js(g("status"), "CREATED"), is_js(g("target"), "RUNNING")))
        plain = ["name", "status", "target", "state", "start_time"] + (["count", "username", "scheduler_address", "dashboard_address", "api_address"] if kind == "cluster" else ["close_expected"])
        v.prove("row-equals-memory", z3.And([same_value(v, row[n], g(n)) if n in row else z3.BoolVal(False) for n in plain]))
        v.prove("memory-has-the-row-id", v.eq(g("id"), SInt(sql.newid_t)))
        v.prove("start-time-is-now", v.eq(g("start_time"), now))
        if kind == "cluster":
            v.prove("row-equals-memory", z3.And(same_value(v, row["options"], options), same_value(v, g("options"), options), same_value(v, row["config"], config), v.eq(g("username"), user)))
            cfg = it.resolve(g("config"))
            v.prove("row-equals-memory", same_value(v, cfg.attrs["of"] if isinstance(cfg, Obj) and cfg.cls.name == "Frozen" else cfg, config))
            tok = T(g("token"))
            v.prove("token-is-new-and-private", z3.And(z3.Or([tok == u for u in ids] or [z3.BoolVal(False)]), tok != T(name)))
            v.prove("token-is-stored-encrypted", T(row["token"]) == enc(tok))
            v.prove("certificate-is-its-own", z3.And(z3.BoolVal(len(kp) == 1), v.eq(kp[0], name) if kp else z3.BoolVal(False), v.eq(g("tls_cert"), cert), v.eq(g("tls_key"), key)))
            v.prove("certificate-is-stored-encrypted", T(row["tls_credentials"]) == enc(z3.Concat(z3.String("new_cert"), z3.StringVal(";"), z3.String("new_key"))))
            here = lambda m, k: z3.And(z3.BoolVal(len(m.ops) == 1 and m.ops[0][0] == "set" and it.resolve(m.ops[0][2]) is o), v.eq(m.ops[0][1], k) if m.ops else z3.BoolVal(False))
            v.prove("found-by-id", here(idx.ids, g("id")))
            v.prove("found-by-name", here(idx.names, name))
            uo = idx.users.ops
            ok = len(uo) == 1 and uo[0][0] == "set"
            v.prove("found-by-its-owner", z3.And(v.eq(uo[0][1], user), here(it.resolve(uo[0][2]).attrs["map"], name)) if ok else z3.BoolVal(False))
        else:
            v.prove("row-names-its-cluster", v.eq(row["cluster_id"], owner.attrs["id"]))
            v.prove("worker-knows-its-cluster", z3.BoolVal(it.resolve(g("cluster")) is owner))
            v.prove("found-by-its-cluster", z3.And(z3.BoolVal(len(wm.ops) == 1 and wm.ops[0][0] == "set" and it.resolve(wm.ops[0][2]) is o), v.eq(wm.ops[0][1], name) if wm.ops else z3.BoolVal(False)))

    return f


def same_value(v, a, b):
    a, b = v.it.resolve(a), v.it.resolve(b)
    if isinstance(a, VDict) and isinstance(b, VDict):
        return z3.BoolVal(not a.d and not b.d and not a.parts and not b.parts)
    return v.eq(a, b)


contract("C10", D + "create_cluster", "create_cluster", assumes=A_SQL + ["uuid.uuid4 never repeats"])(creating("cluster"))
contract("C10", D + "create_worker", "create_worker", assumes=A_SQL + ["uuid.uuid4 never repeats"])(creating("worker"))


# ------------------------------------------------------------------- loading


def future(v):
    done = {}
    o = Obj(Fake("Future"), {})
    ctx = v.ctx

    def set_result(it, a, k):
        o.attrs["__done__"] = True

    o.attrs.update({"__done__": False, "done": Native("done", lambda it, a, k: o.attrs["__done__"]), "set_result": Native("set_result", lambda it, a, k: it.setattr(o, "__done__", True))})
    return o


def loop_lib(v):
    v.it.lib["asyncio.get_running_loop"] = lambda it, a, k: Obj(Fake("Loop"), {"create_future": Native("create_future", lambda it, a, k: future(v))})


@contract("C10", D + "__init__", "load", assumes=A_SQL + ["foreign keys are enforced by the database", "decode_token/decode_tls_credentials invert the encoding (C11)"], weight=2)
def load(v):
    """Loop rule: the indexes have arbitrary contents before a row is loaded;
    loading it adds exactly that row's object."""
    it, ctx = v.it, v.ctx
    loop_lib(v)
    url = v.choose("sqlite:////data/db.sqlite", "sqlite:///:memory:", "postgresql://db")
    state = {"loaded": []}
    dec_t = z3.Function("dec_token", z3.StringSort(), z3.StringSort())
    dec_c = z3.Function("dec_cert", z3.StringSort(), z3.StringSort())
    dec_k = z3.Function("dec_key", z3.StringSort(), z3.StringSort())
    it.overrides[D + "decode_token"] = lambda it, a, k: SStr(dec_t(it.bterm(a[1])))
    it.overrides[D + "decode_tls_credentials"] = lambda it, a, k: (SBytes(dec_c(it.bterm(a[1]))), SBytes(dec_k(it.bterm(a[1]))))
    it.overrides["dask_gateway_server.utils.FrozenAttrDict"] = Native("FrozenAttrDict", lambda it, a, k: Obj(Fake("Frozen"), {"of": a[0]}))
    now = v.int("now", 1)
    it.overrides["dask_gateway_server.utils.timestamp"] = lambda it, a, k: now
    it.lib["cryptography.fernet.Fernet"] = lambda it, a, k: Obj(Fake("Fernet"), {})
    it.lib["cryptography.fernet.MultiFernet"] = lambda it, a, k: Obj(Fake("MultiFernet"), {})
    listeners = []
    it.lib["sqlalchemy.event.listens_for"] = lambda it, a, k: Native("listens", lambda it, b, kk: ctx.mut_append(listeners, (a[1], b[0])) or b[0])
    JS = v.cls(DB + ".JobStatus")

    def on_select(it, st):
        t = st.attrs["table"].attrs["name"]
        v.prove("every-row-is-loaded", z3.BoolVal(not st.attrs["where_"] and st.attrs["cols"] is None))
        return Obj(Fake("Result"), {"__aloop__": Native("rows", lambda it, a, k: rows(t, a[0], a[1]))})

    sql = SQL(v, faults=True, on_select=on_select)
    dm = v.obj(DB + ".DataManager")

    def havoc():
        owners = []

        def user_base(k):
            if v.choose("known-user", "new-user") == "new-user":
                return MISSING
            m = SMap(v, lambda k: MISSING, name="user_clusters")
            ctx.mut_append(owners, (k, m))
            return m.obj()

        class U(UserMap):
            def missing(self, key):
                m = SMap(self.v, lambda k: MISSING, name="user_clusters")
                ctx.mut_append(owners, (key, m))
                self.set(key, m.obj())
                return m.obj()

        found = []

        def by_id(k):
            wm = SMap(v, lambda k: MISSING, name="workers")
            o = Obj(v.cls(DB + ".Cluster"), {"id": k, "workers": wm.obj()})
            ctx.mut_append(found, (k, o, wm))
            return o

        ids = SMap(v, by_id, name="id_to_cluster")
        names = SMap(v, lambda k: MISSING, name="name_to_cluster")
        users = U(v, user_base)
        for n, m in (("id_to_cluster", ids), ("name_to_cluster", names), ("username_to_clusters", users)):
            if n not in dm.attrs:
                it.unsupported(f"no index {n} before loading")
            it.setattr(dm, n, m.obj())
        return ids, names, users, owners, found

    def rows(t, node, env):
        if t in state["loaded"]:
            it.unsupported("rows read twice")
        ids, names, users, owners, found = havoc()
        if v.choose("end", "row") == "end":
            ctx.mut_append(state["loaded"], t)
            return
        sch = schema(v)[t]
        row = Obj(Fake("Row"), {n: row_value(v, c, "row_" + t) for n, c in sch.items() if n != "cluster_id"})
        if t == "workers":
            row.attrs["cluster_id"] = v.int("row_cluster_id", 1)
        g = lambda n: row.attrs[n]
        for n in ("status", "target"):
            ctx.assume(z3.And(g(n).t >= 1, g(n).t <= 6))
        v.case(lambda ev: {"kind": "load", "what": t, "status": ev(g("status")), "target": ev(g("target"))})
        it.assign(node.target, row, env)
        it.ex_block(node.body, env)
        here = lambda m, k: z3.And(z3.BoolVal(len(m.ops) == 1 and m.ops[0][0] == "set"), v.eq(m.ops[0][1], k) if m.ops else z3.BoolVal(False))
        if t == "clusters":
            v.cover("cluster-loaded")
            if not ids.ops:
                v.unreachable("found-by-id")
                raise dbfuncs.StopBody
            o = it.resolve(ids.ops[0][2])
            a = o.attrs
            v.prove("found-by-id", here(ids, g("id")))
            v.prove("found-by-name", z3.And(here(names, g("name")), z3.BoolVal(bool(names.ops) and it.resolve(names.ops[0][2]) is o)))
            ok = [x for x in owners if x[1].ops]
            v.prove("found-by-its-owner", z3.And(v.eq(ok[0][0], g("username")), here(ok[0][1], g("name")), z3.BoolVal(it.resolve(ok[0][1].ops[0][2]) is o)) if len(ok) == 1 else z3.BoolVal(False))
            plain = ("id", "name", "username", "options", "status", "target", "count", "state", "scheduler_address", "dashboard_address", "api_address", "start_time", "stop_time")
            for n in plain:
                v.prove("cluster-is-rebuilt-as-stored", v.eq(a[n], g(n)) if n in a else z3.BoolVal(False))
            cfg = it.resolve(a["config"])
            v.prove("cluster-is-rebuilt-as-stored", v.eq(cfg.attrs["of"] if isinstance(cfg, Obj) and cfg.cls.name == "Frozen" else cfg, g("config")))
            v.prove("credentials-are-rebuilt", z3.And(v.eq(a["token"], SStr(dec_t(it.bterm(g("token"))))), v.eq(a["tls_cert"], SBytes(dec_c(it.bterm(g("tls_credentials"))))), v.eq(a["tls_key"], SBytes(dec_k(it.bterm(g("tls_credentials")))))))
            s = g("status").t
            hb = it.resolve(a["last_heartbeat"])
            v.prove("running-clusters-get-a-heartbeat-time", z3.Implies(s == RUNNING, z3.BoolVal(hb is not None) if not isinstance(hb, SOpt) else z3.Not(hb.none)))
            v.prove("nothing-else-is-remembered", z3.And(v.eq(a["worker_start_failure_count"], 0), v.eq(a["added_to_proxies"], False), z3.BoolVal(isinstance(it.resolve(a["workers"]), VDict) and not it.resolve(a["workers"]).d)))
            isset = lambda f: it.truth(it.call(it.getattr(a[f], "is_set"), [], {}))
            v.prove("waiters-see-a-started-cluster", z3.BoolVal(bool(isset("ready"))) == (s >= RUNNING))
            v.prove("waiters-see-a-finished-cluster", z3.BoolVal(bool(isset("shutdown"))) == (s >= STOPPED))
        else:
            v.cover("worker-loaded")
            v.prove("clusters-are-loaded-first", z3.BoolVal(state["loaded"] == ["clusters"]))
            ok = [x for x in found if x[2].ops]
            if len(ok) != 1:
                v.unreachable("found-by-its-cluster")
                raise dbfuncs.StopBody
            key, c, wm = ok[0]
            o = it.resolve(wm.ops[0][2])
            a = o.attrs
            v.prove("found-by-its-cluster", z3.And(v.eq(key, g("cluster_id")), here(wm, g("name")), z3.BoolVal(it.resolve(a["cluster"]) is c)))
            for n in ("id", "name", "status", "target", "state", "start_time", "stop_time", "close_expected"):
                v.prove("worker-is-rebuilt-as-stored", v.eq(a[n], g(n)) if n in a else z3.BoolVal(False))
            v.prove("indexes-are-left-alone", z3.BoolVal(not ids.ops and not names.ops and not users.ops))
        raise dbfuncs.StopBody

    try:
        out = v.run(D + "__init__", dm, url, (b"key",))
    except dbfuncs.StopBody:
        v.rep.paths += 1
        return
    fault = any(e[0] == "fault" for e in sql.log)
    if out.kind == "raise":
        v.prove("loading-fails-only-with-the-database", z3.BoolVal(fault))
        return
    v.cover("loaded")
    v.prove("clusters-and-workers-are-loaded", z3.BoolVal(state["loaded"] == ["clusters", "workers"]))
    v.prove("uses-the-database", z3.BoolVal(it.resolve(dm.attrs.get("db")) is sql.engine and any(e[0] == "create_all" for e in ctx.events)))
    # rows of workers disappear with their cluster
    fk = [x for x in schema(v)["workers"]["cluster_id"].attrs["args"] if isinstance(x, Obj) and x.cls.name == "ForeignKey"]
    v.prove("worker-rows-go-with-their-cluster", z3.BoolVal(len(fk) == 1 and fk[0].attrs["target"] == "clusters.id" and fk[0].attrs["kw"].get("ondelete") == "CASCADE"))
    if url.startswith("sqlite"):
        done = []
        cur = Obj(Fake("cursor"), {"execute": Native("execute", lambda it, a, k: done.append(a[0])), "close": Native("close", lambda it, a, k: None)})
        for ev, f in listeners:
            if ev == "connect":
                it.call(f, [Obj(Fake("dbapi"), {"cursor": Native("cursor", lambda it, a, k: cur)}), None])
        v.prove("sqlite-enforces-foreign-keys", z3.BoolVal(any(isinstance(x, str) and x.replace(" ", "").lower().rstrip(";") in ("pragmaforeign_keys=on", "pragmaforeign_keys=1") for x in done)))
    v.prove("names-are-unique-in-the-database", z3.BoolVal(schema(v)["clusters"]["name"].attrs["kw"].get("unique") is True))


# ----------------------------------------------------------------- forgetting


@contract("C10", D + "cleanup_expired", "cleanup_expired", assumes=A_SQL)
def cleanup_expired(v):
    """Loop rule for the forgetting loop: arbitrary indexes, one arbitrary id."""
    it, ctx = v.it, v.ctx
    DS = ref_sort("ExpiredRow")
    G, idof = z3.Function("expired", DS, z3.BoolSort()), z3.Function("expired_id", DS, z3.IntSort())
    now, age = v.int("now", 0), v.real("max_age")
    it.overrides["dask_gateway_server.utils.timestamp"] = lambda it, a, k: now
    cutoffs = []
    want = None
    none = v.choose("some", "none") == "none"
    wit = z3.Const("witness", DS)
    if not none:
        ctx.know("ExpiredRow", wit)
        ctx.assume(G(wit))

    def is_expired(conds):
        if len(conds) != 1 or not isinstance(conds[0], Obj) or conds[0].cls.name != "Cond":
            return z3.BoolVal(False)
        c = conds[0].attrs
        return z3.And(z3.BoolVal(c["col"].attrs["name"] == "stop_time" and c["col"].attrs["table"].attrs["name"] == "clusters" and c["op"] in ("<", "<=")), v.eq(c["rhs"], SReal(z3.ToReal(now.t) - age.t * 1000)))

    def on_select(it, st):
        v.prove("only-old-finished-clusters-are-removed", is_expired(st.attrs["where_"]))
        cols = st.attrs["cols"]
        if cols is None or [c.attrs["name"] for c in cols] != ["id"]:
            it.unsupported("select of other columns")
        return VList([] if none else [Part(("ExpiredRow",), lambda x: G(x), lambda x: (SInt(idof(x)),))])

    sql = SQL(v, on_select=on_select)
    name, user = v.str("cname"), v.str("cuser")
    maps = {}

    def cluster(k):
        return Obj(v.cls(DB + ".Cluster"), {"id": k, "name": name, "username": user})

    ids = SMap(v, cluster, name="id_to_cluster")
    names = SMap(v, lambda k: Obj(v.cls(DB + ".Cluster"), {}), name="name_to_cluster")
    inner = SMap(v, lambda k: Obj(v.cls(DB + ".Cluster"), {}), name="user_clusters")
    left = z3.Bool("owner_has_others")
    io = inner.obj()
    io.attrs["__bool__"] = Native("bool", lambda it, a, k: SBool(left) if any(o[0] == "del" for o in inner.ops) else True)
    io.attrs["__len__"] = Native("len", lambda it, a, k: SInt(z3.If(left, 1, 0)) if any(o[0] == "del" for o in inner.ops) else 1)
    asked = []

    def userbase(k):
        ctx.mut_append(asked, k)
        return io

    users = SMap(v, userbase, name="username_to_clusters")
    dm = v.obj(DB + ".DataManager", db=sql.engine, id_to_cluster=ids.obj(), name_to_cluster=names.obj(), username_to_clusters=users.obj())
    untouched = lambda: z3.BoolVal(not (ids.ops or names.ops or users.ops or inner.ops))
    v.case(lambda ev: {"kind": "cleanup", "fault": any(e[0] == "fault" for e in sql.log)})

    def for_hook(it, n, env, is_async):
        import ast
        x = it.resolve(it.ev(n.iter, env))
        if not isinstance(x, VList) or not any(isinstance(p, Part) for p in x.items):
            items = it.iterate(x, n)
            it.loop(items, n.target, lambda e: it.ex_block(n.body, e), env, n, lambda: it.ex_block(n.orelse, env))
            return True
        (p,) = x.items
        if v.choose("end", "one") == "end":
            return True
        i = ctx.fresh("one", DS)
        ctx.know("ExpiredRow", i)
        ctx.assume(p.guard(i))
        v.cover("forgotten")
        v.prove("only-committed-removals-are-forgotten", z3.BoolVal(sql.committed()))
        it.assign(n.target, p.val(i), env)
        it.ex_block(n.body, env)
        gone = lambda m, k: z3.And(z3.BoolVal(len(m.ops) == 1 and m.ops[0][0] == "del"), v.eq(m.ops[0][1], k) if m.ops else z3.BoolVal(False))
        v.prove("forgotten-by-id", z3.And(gone(ids, SInt(idof(i))), G(i)))
        v.prove("forgotten-by-name", gone(names, name))
        v.prove("forgotten-by-its-owner", z3.And(gone(inner, name), v.eq(asked[0], user)) if len(asked) >= 1 else z3.BoolVal(False))
        v.prove("other-clusters-of-the-owner-are-kept", z3.Or(z3.BoolVal(not users.ops), z3.And(z3.Not(left), gone(users, user))))
        raise dbfuncs.StopBody

    ctx.state["for_hook"] = for_hook
    try:
        out = v.run(D + "cleanup_expired", dm, age)
    except dbfuncs.StopBody:
        v.rep.paths += 1
        return
    fault = any(e[0] == "fault" for e in sql.log)
    v.prove("memory-unchanged-when-refused", untouched())
    if out.kind == "raise":
        v.prove("fails-only-with-the-database", z3.BoolVal(fault))
        return
    dels = [e for e in sql.statements() if e[1].attrs["kind"] == "delete"]
    v.prove("removed-in-a-committed-transaction", z3.BoolVal(all(e[3] for e in sql.statements()) and sql.committed() and not any(e[1].attrs["kind"] not in ("delete", "select") for e in sql.statements())))
    if none:
        v.cover("nothing-to-remove")
        v.prove("nothing-is-removed", v.eq(out.val, 0))
        return
    x = ctx.fresh("anyrow", DS)
    ctx.know("ExpiredRow", x)
    ok = []
    for e in dels:
        v.prove("deletes-clusters", z3.BoolVal(e[1].attrs["table"].attrs["name"] == "clusters"))
        w = e[1].attrs["where_"]
        c = one_cond(e[1], "id")
        if c is None:
            v.prove("deletes-exactly-the-selected", is_expired(w))
            ok.append(G(x))
            continue
        r = c.attrs["rhs"]
        if isinstance(r, Obj) and r.cls.name == "Bind":
            for p in it.iterate(it.resolve(e[2])):
                if not isinstance(p, Part):
                    it.unsupported("delete parameters")
                d = p.val(x)
                val = it.getitem(d, r.attrs["name"])
                v.prove("deletes-exactly-the-selected", z3.Implies(p.guard(x), z3.And(G(x), v.eq(val, SInt(idof(x))))))
                ok.append(p.guard(x))
        else:
            for p in it.iterate(it.resolve(r)):
                if not isinstance(p, Part):
                    it.unsupported("delete parameters")
                v.prove("deletes-exactly-the-selected", z3.Implies(p.guard(x), z3.And(G(x), v.eq(p.val(x), SInt(idof(x))))))
                ok.append(p.guard(x))
    v.prove("every-selected-is-deleted", z3.Implies(G(x), z3.Or(ok or [z3.BoolVal(False)])))


# -------------------------------------------------------------------- columns


@contract("C10", DB + "._JSON.process_bind_param", "json_column", assumes=["json.loads(json.dumps(x)) == x for the values stored"])
def json_column(v):
    it, ctx = v.it, v.ctx
    VS = ref_sort("Val")
    dumps, loads = z3.Function("json_dumps", VS, z3.StringSort()), z3.Function("json_loads", z3.StringSort(), VS)
    x = v.opaque("x", "json")
    ctx.assume(loads(dumps(x.t)) == x.t)
    it.lib["json.dumps"] = lambda it, a, k: SStr(dumps(it.resolve(a[0]).t))
    it.lib["json.loads"] = lambda it, a, k: SOpaque("json", loads(it.bterm(a[0]) if not isinstance(it.resolve(a[0]), SStr) else a[0].t))
    o = v.obj(DB + "._JSON")
    out = v.run(DB + "._JSON.process_bind_param", o, x, None)
    if not v.ok_or(out, "stored"):
        return
    out2 = v.run(DB + "._JSON.process_result_value", o, out.val, None)
    if v.ok_or(out2, "loaded"):
        v.prove("loads-what-was-stored", v.eq(out2.val, x))


@contract("C10", DB + "._IntEnum.process_bind_param", "enum_column")
def enum_column(v):
    JS = v.cls(DB + ".JobStatus")
    x = v.enum("x", JS)
    o = v.obj(DB + "._IntEnum", _enumclass=JS)
    v.case(lambda ev: {"kind": "enum", "value": ev(x)})
    out = v.run(DB + "._IntEnum.process_bind_param", o, x, None)
    if not v.ok_or(out, "stored"):
        return
    out2 = v.run(DB + "._IntEnum.process_result_value", o, out.val, None)
    if v.ok_or(out2, "loaded"):
        v.prove("loads-what-was-stored", v.eq(out2.val, x))
    want = {c: "_IntEnum" for c in ("status", "target")}
    sql = SQL(v)
    for t, cols in schema(v).items():
        for c in ("status", "target"):
            nm, ty = col_type(cols[c])
            v.prove("statuses-are-stored-as-statuses", z3.BoolVal(nm == "_IntEnum" and ty.attrs["enum"] is JS))
        for c in ("state", "options", "config"):
            if c in cols:
                v.prove("states-are-stored-as-json", z3.BoolVal(col_type(cols[c])[0] == "_JSON"))


# -------------------------------------------------------------------- queries


@contract("C10", D + "list_clusters", "list_clusters")
def list_clusters(v):
    it, ctx = v.it, v.ctx
    w = World(v, inv=False)
    it.overrides.pop(D + "get_cluster"), it.overrides.pop(D + "active_clusters")
    MS = it.get_class("dask_gateway_server.models.ClusterStatus")
    pub = Store(ctx, "C.model_status", [CS], TEnum(MS))
    it.attr_hooks["Cluster.model_status"] = lambda it, o, n: pub.read(o.t)
    who = v.choose("everybody", "user", "unknown-user")
    user = v.str("user")
    sts = v.choose("active", "RUNNING", "STOPPED,FAILED", "PENDING,RUNNING,STOPPING", "none")
    statuses = None if sts == "active" else VList([MS.enum[n] for n in sts.split(",")] if sts != "none" else [])
    mine = Part(("Cluster",), lambda c: z3.And(w.isC(c), w.cg("username", c) == user.t), lambda c: (w.cf["name"].read(c), SRef(w.CC, c)))
    every = Part(("Cluster",), lambda c: w.isC(c), lambda c: (w.cf["name"].read(c), SRef(w.CC, c)))

    def dct(p):
        d = VDict()
        d.parts = [p] if p else []
        return d

    users = SMap(v, lambda k: dct(mine) if who == "user" else MISSING, name="username_to_clusters")
    if who == "unknown-user":
        ctx.forall_t(("Cluster",), lambda c: z3.Implies(w.isC(c), w.cg("username", c) != user.t), "unknown")
    dm = v.obj(DB + ".DataManager", name_to_cluster=dct(every), username_to_clusters=users.obj())
    v.case(lambda ev: {"kind": "list", "who": who, "statuses": sts})
    out = v.run(D + "list_clusters", dm, None if who == "everybody" else user, statuses)
    if not v.ok_or(out, "no-exception"):
        return
    v.cover(who)
    v.prove("listing-changes-nothing", z3.BoolVal(not users.ops))
    c = ctx.fresh("anyc", CS)
    ctx.know("Cluster", c)
    want = [w.isC(c)]
    if who != "everybody":
        want.append(w.cg("username", c) == user.t)
    if statuses is None:
        want.append(w.cg("target", c) < STOPPED)
    else:
        want.append(z3.Or([pub.comps(c)[0] == m.value for m in statuses.items] or [z3.BoolVal(False)]))
    have = []
    for p in it.iterate(it.resolve(out.val)):
        if not isinstance(p, Part):
            it.unsupported("list")
        r = it.resolve(p.val(c))
        v.prove("lists-clusters", r.t == c)
        have.append(p.guard(c))
    have = z3.Or(have or [z3.BoolVal(False)])
    v.prove("never-lists-somebody-elses-cluster", z3.Implies(z3.And(have, z3.BoolVal(who != "everybody")), w.cg("username", c) == user.t))
    v.prove("lists-exactly-the-matching-clusters", have == z3.And(want))


@contract("C10", D + "get_cluster", "get_cluster")
def get_cluster(v):
    it = v.it
    known = v.choose("known", "unknown") == "known"
    name = v.str("name")
    o = v.obj(DB + ".Cluster", name=name)
    m = SMap(v, lambda k: o if known and it.eq(k, name) is not False else MISSING)
    dm = v.obj(DB + ".DataManager", name_to_cluster=m.obj())
    out = v.run(D + "get_cluster", dm, name)
    if v.ok_or(out, "no-exception"):
        v.prove("finds-it-by-name", z3.BoolVal(it.resolve(out.val) is (o if known else None)))


@contract("C10", D + "active_clusters", "active_clusters")
def active_clusters(v):
    it, ctx = v.it, v.ctx
    w = World(v, inv=False)
    it.overrides.pop(D + "active_clusters")
    d = VDict()
    d.parts = [Part(("Cluster",), lambda c: w.isC(c), lambda c: (w.cf["name"].read(c), SRef(w.CC, c)))]
    dm = v.obj(DB + ".DataManager", name_to_cluster=d)
    out = v.run(D + "active_clusters", dm)
    if not v.ok_or(out, "no-exception"):
        return
    c = ctx.fresh("anyc", CS)
    ctx.know("Cluster", c)
    have = []
    for p in it.iterate(it.resolve(out.val)):
        v.prove("lists-clusters", it.resolve(p.val(c)).t == c)
        have.append(p.guard(c))
    v.prove("exactly-the-active-clusters", z3.Or(have or [z3.BoolVal(False)]) == z3.And(w.isC(c), w.cg("target", c) < STOPPED))
