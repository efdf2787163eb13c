"""Assumed contract of SQLAlchemy core as DataManager uses it: tables as the
source declares them, statements as records, transactions that commit or fail
as a whole.  Symbolic dictionaries for the in-memory indexes."""
import ast

import z3

from pyvc.verify import *
from pyvc.libs import simple_cm

DB = "dask_gateway_server.backends.db_base"
MISSING = object()


# ------------------------------------------------------------------ statements


def column(table, name, args, kw):
    def cmp(it, a, k):
        return Obj(Fake("Cond"), {"op": a[0], "col": col, "rhs": a[1]})

    col = Obj(Fake("Column"), {"name": name, "table": table, "args": args, "kw": kw, "__cmp__": Native("cmp", cmp)})
    col.attrs["__eq__"] = col.attrs["__cmp__"]
    col.attrs["in_"] = Native("in_", lambda it, a, k: Obj(Fake("Cond"), {"op": "in", "col": col, "rhs": a[0]}))
    return col


def stmt(kind, table, where=(), vals=None, cols=None):
    s = Obj(Fake("Stmt"), {"kind": kind, "table": table, "where_": list(where), "vals": vals, "cols": cols})

    def where_(it, a, k):
        return stmt(kind, table, list(where) + list(a), vals, cols)

    def values_(it, a, k):
        d = dict(vals or {})
        for x in a:
            x = it.resolve(x)
            if not isinstance(x, VDict) or x.parts:
                it.unsupported("values() of something else than a dict")
            d.update({kk: vv for kk, vv in x.d.values()})
        d.update(k)
        return stmt(kind, table, where, d, cols)

    s.attrs["where"] = Native("where", where_)
    s.attrs["values"] = Native("values", values_)
    return s


def table(it, a, k):
    name = a[0]
    cols = {}
    t = Obj(Fake("Table"), {"name": name})
    for c in a[2:]:
        if isinstance(c, Obj) and getattr(c.cls, "name", "") == "ColumnDecl":
            cols[c.attrs["name"]] = column(t, c.attrs["name"], c.attrs["args"], c.attrs["kw"])
    t.attrs["columns"] = cols
    t.attrs["c"] = Obj(Fake("Columns"), dict(cols, __closed__=True))
    for kind in ("insert", "update", "delete", "select"):
        t.attrs[kind] = Native(kind, lambda it, a, k, kind=kind: stmt(kind, t))
    return t


def select(it, a, k):
    cols = [it.resolve(x) for x in a]
    if len(cols) == 1 and cols[0].cls.name == "Table":
        return stmt("select", cols[0])
    return stmt("select", cols[0].attrs["table"], cols=cols)


SQL_LIB = {
    "sqlalchemy.MetaData": lambda it, a, k: Obj(Fake("MetaData"), {"create_all": Native("create_all", lambda it, a, k: it.ctx.event("create_all"))}),
    "sqlalchemy.Column": lambda it, a, k: Obj(Fake("ColumnDecl"), {"name": a[0], "args": list(a[1:]), "kw": dict(k)}),
    "sqlalchemy.Table": table,
    "sqlalchemy.ForeignKey": lambda it, a, k: Obj(Fake("ForeignKey"), {"target": a[0], "kw": dict(k)}),
    "sqlalchemy.bindparam": lambda it, a, k: Obj(Fake("Bind"), {"name": a[0]}),
    "sqlalchemy.select": select,
    "sqlalchemy.Unicode": lambda it, a, k: Obj(Fake("Unicode"), {}),
    "sqlalchemy.BINARY": lambda it, a, k: Obj(Fake("BINARY"), {}),
    "sqlalchemy.create_engine": lambda it, a, k: it.ctx.state["engine"],
    "sqlalchemy.and_": lambda it, a, k: Obj(Fake("And"), {"conds": list(a)}),
}


class SQL:
    """Database engine: `with engine.begin() as conn`, any statement or the
    commit may fail."""

    def __init__(self, v, faults=True, on_select=None):
        self.v = v
        self.faults = faults
        self.on_select = on_select
        it = v.it
        it.lib.update(SQL_LIB)
        it.overrides[DB + "._IntEnum"] = lambda it, a, k: Obj(Fake("_IntEnum"), {"enum": a[0]})
        it.overrides[DB + "._JSON"] = Native("_JSON", lambda it, a, k: Obj(Fake("_JSON"), {}))
        self.conn = Obj(Fake("Connection"), {"execute": Native("execute", self.execute)})
        self.open = False
        self.log = []
        self.engine = Obj(Fake("Engine"), {"begin": Native("begin", self.begin)})
        v.ctx.state["engine"] = self.engine

    def put(self, e):
        self.v.ctx.mut_append(self.log, e)

    def fault(self, what):
        if self.faults and self.v.choose("ok", "fault") == "fault":
            self.put(("fault", what))
            self.v.it.raise_(RuntimeError, f"database error in {what}")

    def begin(self, it, a, k):
        def enter(it, a, k):
            self.put(("begin",))
            return self.conn

        def exit_(it, a, k):
            if a[0] is not None:
                self.put(("rollback",))
                return False
            self.fault("commit")
            self.put(("commit",))
            return False

        return Obj(Fake("Transaction"), {"__enter__": Native("enter", enter), "__exit__": Native("exit", exit_)})

    def execute(self, it, a, k):
        s = it.resolve(a[0])
        if not isinstance(s, Obj) or s.cls.name != "Stmt":
            it.unsupported("execute of something else than a statement")
        params = a[1] if len(a) > 1 else None
        opened = [e[0] for e in self.log if e[0] in ("begin", "commit", "rollback")]
        self.put(("sql", s, params, bool(opened) and opened[-1] == "begin"))
        self.fault("execute")
        at = s.attrs
        if at["kind"] == "insert":
            i = self.v.ctx.fresh("newid", z3.IntSort())
            self.v.ctx.assume(i >= 1)
            self.newid_t = i
            return Obj(Fake("Result"), {"inserted_primary_key": (SInt(i),), "newid": SInt(i)})
        if at["kind"] == "select":
            if self.on_select is None:
                it.unsupported("select")
            rows = self.on_select(it, s)
            if isinstance(rows, Obj):
                return rows
            r = Obj(Fake("Result"), {})
            for n in ("fetchall", "all"):
                r.attrs[n] = Native(n, lambda it, a, k: rows)
            r.attrs["__iter__"] = r.attrs["all"]
            r.attrs["rows"] = rows
            return r
        return Obj(Fake("Result"), {})

    # -- reading the log
    def statements(self):
        return [e for e in self.log if e[0] == "sql"]

    def committed(self):
        return any(e[0] == "commit" for e in self.log)


def schema(v):
    return {t: v.it.global_lookup(v.it.repo.load(DB), t).attrs["columns"] for t in ("clusters", "workers")}


def col_type(c):
    for a in c.attrs["args"]:
        if isinstance(a, ExtV):
            return a.path.split(".")[-1], a
        if isinstance(a, Obj) and a.cls.name != "ForeignKey":
            return a.cls.name, a
        if isinstance(a, Native):
            return a.name, a
        if isinstance(a, Obj):
            return "Integer", a
    return None, None


def row_value(v, c, tag):
    """Arbitrary value a column can hold."""
    nm, ty = col_type(c)
    n = f"{tag}_{c.attrs['name']}"
    if nm == "Integer":
        x = v.int(n)
    elif nm == "Unicode":
        x = v.str(n)
    elif nm == "_IntEnum":
        x = v.enum(n, ty.attrs["enum"])
    elif nm == "_JSON":
        x = v.opaque(n, "json")
    elif nm in ("BINARY", "LargeBinary"):
        x = SBytes(z3.String(n))
    else:
        raise Unsupported(f"column type {nm}")
    return v.opt(n, x) if c.attrs["kw"].get("nullable") is True else x


def one_cond(st, colname):
    """The statement's only condition, when it is on the given column."""
    w = st.attrs["where_"]
    if len(w) == 1 and isinstance(w[0], Obj) and w[0].cls.name == "Cond":
        c = w[0]
        if c.attrs["col"].attrs["name"] == colname and c.attrs["col"].attrs["table"] is st.attrs["table"]:
            return c
    return None


# ------------------------------------------------------------ symbolic dicts


class SMap:
    """Dictionary of unbounded, unknown contents: base gives, for key terms,
    MISSING or the value (deciding by forking); writes are an overlay."""

    def __init__(self, v, base, values=None, name="dict", keyfn=None):
        self.v = v
        self.base = base
        self.ops = []
        self.values = values
        self.name = name
        self.memo = []

    def lookup(self, key):
        it = self.v.it
        for op, k2, val in reversed(self.ops):
            e = it.eq(k2, key)
            if e is True or (e is not False and self.v.ctx.branch(e)):
                return val if op == "set" else MISSING
        return self.from_base(key)

    def from_base(self, key):
        it = self.v.it
        for k2, val in self.memo:
            e = it.eq(k2, key)
            if e is True or (e is not False and self.v.ctx.branch(e)):
                return val
        val = self.base(key)
        self.v.ctx.mut_append(self.memo, (key, val))
        return val

    def set(self, key, val):
        self.v.ctx.mut_append(self.ops, ("set", key, val))

    def delete(self, key):
        self.v.ctx.mut_append(self.ops, ("del", key, None))

    def obj(self):
        it = self.v.it

        def getitem(it, a, k):
            r = self.lookup(a[0])
            if r is MISSING:
                return self.missing(a[0])
            return r

        def get(it, a, k):
            r = self.lookup(a[0])
            return (a[1] if len(a) > 1 else None) if r is MISSING else r

        def pop(it, a, k):
            r = self.lookup(a[0])
            if r is MISSING:
                if len(a) > 1:
                    return a[1]
                it.raise_(KeyError, a[0])
            self.delete(a[0])
            return r

        def delitem(it, a, k):
            if self.lookup(a[0]) is MISSING:
                it.raise_(KeyError, a[0])
            self.delete(a[0])

        def setdefault(it, a, k):
            r = self.lookup(a[0])
            if r is MISSING:
                r = a[1] if len(a) > 1 else None
                self.set(a[0], r)
            return r

        def vals(it, a, k):
            if self.values is None or self.ops:
                it.unsupported(f"values of {self.name}")
            return self.values()

        at = {
            "__getitem__": Native("getitem", getitem), "get": Native("get", get), "pop": Native("pop", pop),
            "__setitem__": Native("setitem", lambda it, a, k: self.set(a[0], a[1])), "__delitem__": Native("delitem", delitem),
            "__contains__": Native("contains", lambda it, a, k: self.lookup(a[0]) is not MISSING), "setdefault": Native("setdefault", setdefault),
            "values": Native("values", vals), "map": self,
        }
        at.update(self.extra())
        return Obj(Fake(self.name), at)

    def missing(self, key):
        self.v.it.raise_(KeyError, key)

    def extra(self):
        return {}
