"""C21: credentials on disk."""
import asyncio

import z3

from pyvc.libs import noop_log
from pyvc.verify import *
from .c20 import INPROC, JQ, LOCAL, PBS, World
from .c25 import at, same

LAUNCH = "dask_gateway_server.backends.jobqueue.launcher"
SEC = "dask_gateway.client.GatewaySecurity"
STR = z3.StringSort()
A_FS = ["os.makedirs, os.open, tempfile, shutil.rmtree and open create and remove files as documented, or raise"]


class Disk:
    """What the code does to the disk; every operation may fail."""

    def __init__(self, v, faults=True):
        self.v, self.it, self.ctx = v, v.it, v.ctx
        self.log, self.nfail, self.asked, self.faults = [], [], [], faults
        L = v.it.lib
        L["os.makedirs"] = lambda it, a, k: self.op("dir", a[0], a[1] if len(a) > 1 else k.get("mode", 0o777), exist_ok=k.get("exist_ok", a[2] if len(a) > 2 else False))
        L["os.mkdir"] = lambda it, a, k: self.op("dir", a[0], a[1] if len(a) > 1 else k.get("mode", 0o777))
        L["tempfile.mkdtemp"] = lambda it, a, k: self.temp(k)
        L["tempfile.TemporaryDirectory"] = lambda it, a, k: self.tempdir(k)
        L["os.open"] = lambda it, a, k: self.op("open", a[0], a[2] if len(a) > 2 else k.get("mode", 0o777), flags=a[1]) or self.file(a[0])
        L["os.fdopen"] = lambda it, a, k: a[0]
        L["builtins.open"] = self.open
        L["os.chown"] = lambda it, a, k: self.op("chown", a[0], None, who=(a[1], a[2]))
        L["os.close"] = lambda it, a, k: None
        L["shutil.rmtree"] = self.rmtree
        L["os.path.exists"] = lambda it, a, k: self.exists(a[0])

    def exists(self, path):
        b = self.ctx.fresh("exists", z3.BoolSort())
        self.ctx.mut_append(self.asked, (path, b))
        return self.it.mkbool(b)

    def absent(self, path):
        """The code was told that there is no such path."""
        return z3.Or([z3.And(same(self.v, p, path), z3.Not(b)) for p, b in self.asked] + [z3.BoolVal(False)])

    def op(self, kind, path, mode, **kw):
        it, ctx = self.it, self.ctx
        if self.faults and ctx.branch(ctx.fresh(kind + "_fails", z3.BoolSort())):
            ctx.mut_append(self.nfail, (kind, path))
            it.raise_(OSError, "no")
        ctx.mut_append(self.log, (kind, path, mode, kw))

    def temp(self, k):
        p = SStr(self.ctx.fresh("tempdir", STR))
        self.ctx.assume(z3.And(p.t != z3.StringVal(""), z3.Not(z3.SuffixOf(z3.StringVal("/"), p.t))))
        self.op("dir", p, 0o700, temp=True)
        return p

    def tempdir(self, k):
        v = self.v
        p = self.temp(k)

        def leave(it2, a, k2):
            self.ctx.mut_append(self.log, ("rmtree", p, None, {}))
            return False

        return v.fake("TemporaryDirectory", name=p, __enter__=v.native(lambda it2, a, k2: p), __exit__=v.native(leave), cleanup=v.native(leave))

    def file(self, path):
        v = self.v

        def write(it2, a, k2):
            self.op("write", path, None, data=a[0])

        def leave(it2, a, k2):
            self.ctx.mut_append(self.log, ("close", path, None, {}))
            return False

        f = v.fake("File", write=v.native(write), close=v.native(leave), flush=v.native(lambda *x: None), __exit__=v.native(leave))
        f.attrs["__enter__"] = v.native(lambda it2, a, k2: f)
        return f

    def open(self, it, a, k):
        mode = a[1] if len(a) > 1 else k.get("mode", "r")
        if not (isinstance(mode, str) and mode in ("w", "wb", "x", "xb")):
            it.unsupported("open mode")
        self.op("open", a[0], 0o666, flags=None)
        return self.file(a[0])

    def rmtree(self, it, a, k):
        if k.get("ignore_errors", len(a) > 1 and a[1]) is True:
            self.ctx.mut_append(self.log, ("rmtree", a[0], None, {}))
            return
        self.op("rmtree", a[0], None)

    def of(self, *kinds):
        return [e for e in self.log if e[0] in kinds]

    def private(self, e):
        return isinstance(e[2], int) and e[2] & 0o077 == 0

    def content(self, path):
        """Everything written to path, in order."""
        out = []
        for e in self.of("write"):
            out.append((same(self.v, e[1], path), e[3]["data"]))
        return out

    def holds(self, path, data, clause):
        c = self.content(path)
        self.v.prove(clause, z3.And(z3.Sum([z3.If(x, 1, 0) for x, _ in c] + [z3.IntVal(0)]) == 1, *[z3.Implies(x, same(self.v, d, data)) for x, d in c]))


def inside(v, path, d):
    return z3.PrefixOf(z3.Concat(v.it.sterm(v.it.resolve(d)), z3.StringVal("/")), v.it.sterm(v.it.resolve(path)))


# ---------------------------------------------------------------- local
@contract("C21", LOCAL + ".setup_working_directory", "local_setup", assumes=A_FS + ["a cluster's name is no absolute path"], budget=300)
def local_setup(v):
    it, ctx = v.it, v.ctx
    w = World(v, LOCAL)
    disk = Disk(v)
    v.expect_covers("done", "failed")
    base = SStr(z3.String("clusters_directory")) if v.choose("configured", "temporary") == "configured" else ""
    name = w.cluster.attrs["name"].t
    v.assume(z3.Not(z3.PrefixOf(z3.StringVal("/"), name)))
    if base != "":
        v.assume(z3.And(base.t != z3.StringVal(""), z3.Not(z3.SuffixOf(z3.StringVal("/"), base.t))))
    w.o.attrs["clusters_directory"] = base
    # paths are not re-joined from absolute parts
    handed = []

    def perms(it2, a, k):
        if ctx.branch(ctx.fresh("chown_fails", z3.BoolSort())):
            ctx.mut_append(disk.nfail, "chown")
            it.raise_(OSError, "chown")
        ctx.mut_append(disk.log, ("owner", list(it.to_pylist(a[0])), a[1], {}))

    w.o.attrs["set_file_permissions"] = v.native(perms)
    it.lib["os.path.join"] = lambda it2, a, k: SStr(z3.Concat(*[y for i, x in enumerate(a) for y in ([z3.StringVal("/")] if i else []) + [it.sterm(it.resolve(x))]]))
    v.case(lambda ev: {"kind": "local"})
    out = v.run(LOCAL + ".setup_working_directory", w.o, w.cluster)
    v.prove("created-for-the-owner-only", z3.BoolVal(all(disk.private(e) for e in disk.of("dir", "open"))))
    made = disk.of("dir", "open")
    if not out.ok:
        v.cover("failed")
        v.prove("fails-only-if-the-system-fails", z3.BoolVal(bool(disk.nfail)))
        # whatever was written is removed, or its removal was tried
        if disk.of("write"):
            root = made[0][1]
            tried = [e for e in disk.of("rmtree")] + [("rmtree", x[1]) for x in disk.nfail if x[0] == "rmtree"]
            v.prove("a-failed-setup-leaves-no-credentials", z3.Or([same(v, e[1], root) for e in tried] + [disk.absent(root)]))
        return
    v.cover("done")
    v.prove("a-failed-step-is-reported", z3.BoolVal(not disk.nfail))
    root = it.resolve(out.val)
    if base != "":
        v.prove("own-directory", it.sterm(root) == z3.Concat(base.t, z3.StringVal("/"), name))
    else:
        v.prove("own-directory", z3.Or([same(v, e[1], root) for e in disk.of("dir") if e[3].get("temp")]))
    v.prove("private-directory", z3.Or([same(v, e[1], root) for e in disk.of("dir")]))
    v.prove("all-inside-its-directory", z3.And([z3.Or(same(v, e[1], root), inside(v, e[1], root)) for e in made]))
    # where the processes are told to look
    other = v.fake("Cluster", state=v.pydict({"workdir": root}))
    paths = it.to_pylist(v.run(LOCAL + ".get_tls_paths", w.o, other).val)
    disk.holds(paths[0], w.cluster.attrs["tls_cert"], "certificate-of-its-own-cluster")
    disk.holds(paths[1], w.cluster.attrs["tls_key"], "key-of-its-own-cluster")
    v.prove("nothing-else-is-written", z3.And([z3.Or(same(v, e[1], paths[0]), same(v, e[1], paths[1])) for e in disk.of("write")]))
    own = disk.of("owner")
    v.prove("handed-to-the-owner", z3.And([z3.BoolVal(len(own) == 1)] + [z3.And(same(v, own[0][2], w.cluster.attrs["username"]), *[z3.Or([same(v, e[1], p) for p in own[0][1]]) for e in made])]) if own else z3.BoolVal(False))
    v.prove("written-before-handed-over", z3.BoolVal(bool(own) and disk.log.index(own[0]) > max([disk.log.index(e) for e in disk.of("write", "dir", "open")] or [0])))


@contract("C21", LOCAL + ".set_file_permissions", "local_owner", assumes=["pwd.getpwnam knows the user, else raises"])
def local_owner(v):
    it, ctx = v.it, v.ctx
    P = ref_sort("Path")
    n = v.int("paths", 0)
    path = z3.Function("path", z3.IntSort(), STR)
    uid, gid = v.int("uid"), v.int("gid")
    user = v.str("user")
    it.overrides["dask_gateway_server.backends.local.getpwnam"] = lambda it2, a, k: (v.prove("looks-up-the-owner", same(v, a[0], user)), v.fake("passwd", pw_uid=uid, pw_gid=gid))[1]
    it.lib["os.chown"] = lambda it2, a, k: ctx.event("chown", *[it.resolve(x) for x in a])
    v.case(lambda ev: {"kind": "local"})
    out = v.run(LOCAL + ".set_file_permissions", v.obj(LOCAL, log=noop_log()), VList([SSeq(n.t, lambda i: SStr(path(i)))]), user)
    if not v.ok_or(out, "owner-set"):
        return
    i = ctx.fresh("i", z3.IntSort())
    ctx.know("Int", i)
    v.assume(z3.And(i >= 0, i < n.t))
    hits = []
    for p in v.event_parts("chown"):
        xs = (i,)
        e = p.val(*xs)
        args = e[1:] if isinstance(e, tuple) and e and e[0] == "chown" else e
        hits.append(z3.And(p.guard(*xs), same(v, args[0], SStr(path(i))), same(v, args[1], uid), same(v, args[2], gid)))
    v.prove("every-path-belongs-to-the-owner", z3.Or(hits) if hits else z3.BoolVal(False))


@contract("C21", LOCAL + ".cleanup_working_directory", "local_cleanup", assumes=A_FS)
def local_cleanup(v):
    it = v.it
    disk = Disk(v)
    d = v.str("workdir")
    v.case(lambda ev: {"kind": "local"})
    out = v.run(LOCAL + ".cleanup_working_directory", v.obj(LOCAL, log=noop_log()), d)
    v.prove("never-fails", z3.BoolVal(out.ok))
    tried = [e[1] for e in disk.of("rmtree")] + [x[1] for x in disk.nfail if x[0] == "rmtree"]
    v.prove("removes-the-directory-and-nothing-else", z3.And([same(v, p, d) for p in tried] + [z3.BoolVal(len(disk.log) == len(disk.of("rmtree")))]))
    v.prove("removes-what-exists", z3.Or([z3.BoolVal(bool(tried)), disk.absent(d)]))


def stop(v, cls):
    it, ctx = v.it, v.ctx
    st = {}
    if v.choose("dir", "nodir") == "dir":
        st["workdir"] = v.str("workdir")
    if v.choose("pid", "nopid") == "pid":
        st["pid"] = v.int("pid")
    how = v.choose("stops", "fails", "cancelled")
    cl = v.fake("Cluster", name=v.str("cluster_name"), state=v.pydict(dict(st)))
    cleaned, stopped = [], []

    def stop_process(it2, a, k):
        ctx.mut_append(stopped, a[0] if a else None)
        if how == "fails":
            it.raise_(RuntimeError, "stop")
        if how == "cancelled":
            it.raise_(asyncio.CancelledError)

    o = v.obj(cls, log=noop_log(), cleanup_working_directory=v.native(lambda it2, a, k: ctx.mut_append(cleaned, a[0])))
    if cls == LOCAL:
        o.attrs["stop_process"] = v.afn(stop_process)
    else:
        other = v.fake("Scheduler", close=v.afn(lambda it2, a, k: v.prove("stops-only-its-own-scheduler", z3.BoolVal(False))), stop=v.native(lambda *x: None))
        sched = v.fake("Scheduler", close=v.afn(stop_process), stop=v.native(lambda *x: None))
        d = v.pydict({"some-other": other})
        v.assume(v.eq(cl.attrs["name"], "some-other") == z3.BoolVal(False))
        if "pid" in st:
            it.setitem(d, cl.attrs["name"], sched)
        o.attrs["schedulers"] = d
    v.case(lambda ev: {"kind": "local" if cls == LOCAL else "inprocess"})
    out = v.run(cls + ".do_stop_cluster", o, cl)
    if "workdir" in st:
        v.prove("own-directory-is-removed-whatever-fails", z3.And([z3.BoolVal(len(cleaned) >= 1)] + [same(v, x, st["workdir"]) for x in cleaned]))
    else:
        v.prove("nothing-to-remove", z3.BoolVal(not cleaned))
    v.prove("a-running-scheduler-is-stopped", z3.BoolVal(len(stopped) == ("pid" in st)))
    v.prove("only-a-failed-stop-fails", z3.BoolVal(out.ok == (how == "stops" or not stopped)))


contract("C21", LOCAL + ".do_stop_cluster", "local_stop")(lambda v: stop(v, LOCAL))
contract("C21", INPROC + ".do_stop_cluster", "inprocess_stop")(lambda v: stop(v, INPROC))


@contract("C21", LOCAL + ".do_start_cluster", "local_start")
def local_start(v):
    """The directory is recorded as soon as it exists, so that stopping finds it."""
    it, ctx = v.it, v.ctx
    cls = LOCAL if v.choose("local", "inprocess") == "local" else INPROC
    w = World(v, cls)
    d = v.str("new_workdir")
    fails = v.choose("ok", "fails") == "fails"
    log = []
    w.o.attrs["setup_working_directory"] = v.native(lambda it2, a, k: ctx.mut_append(log, ("setup", a[0])) or d)

    def go(it2, a, k):
        ctx.mut_append(log, ("start",))
        if fails:
            it.raise_(RuntimeError, "start")
        return v.int("new_pid")

    for n in ("get_scheduler_command", "get_scheduler_env", "get_gateway_client"):
        w.o.attrs[n] = v.native(lambda it2, a, k: v.opaque("any"))
    if cls == LOCAL:
        w.o.attrs["start_process"] = v.afn(go)
    else:
        w.o.attrs["schedulers"] = v.pydict({})
        w.o.attrs["get_security"] = v.native(go)
        it.overrides["dask_gateway_server.backends.inprocess.GatewaySchedulerService"] = v.opaque("service")
        it.lib["distributed.Scheduler"] = lambda it2, a, k: v.fake("Scheduler", __await__=v.afn(lambda *x: None))
    v.ctx.state["yield_hook"] = lambda it2, x, env: ctx.mut_append(log, ("yield", x))
    v.case(lambda ev: {"kind": "local"})
    out = v.run(cls + ".do_start_cluster", w.o, w.cluster)
    v.prove("set-up-for-its-own-cluster", z3.BoolVal(bool(log) and log[0][0] == "setup" and log[0][1] is w.cluster and sum(e[0] == "setup" for e in log) == 1))
    v.prove("recorded-at-once", z3.And(z3.BoolVal(len(log) > 1 and log[1][0] == "yield"), same(v, at(it, log[1][1], "workdir"), d)) if len(log) > 1 and log[1][0] == "yield" else z3.BoolVal(False))
    v.prove("every-record-keeps-the-directory", z3.And([same(v, at(it, e[1], "workdir"), d) for e in log if e[0] == "yield"]))
    v.prove("fails-only-when-the-start-fails", z3.BoolVal(out.ok == (not fails)))


# ---------------------------------------------------------------- job queues
@contract("C21", LAUNCH + ".start", "launcher_start", assumes=A_FS, budget=300)
def launcher_start(v):
    it, ctx = v.it, v.ctx
    disk = Disk(v)
    v.expect_covers("submitted", "refused", "no-files")
    sd = v.str("staging_dir") if v.choose("staged", "plain") == "staged" else None
    if sd is not None:
        v.assume(z3.And(sd.t != z3.StringVal(""), z3.Not(z3.SuffixOf(z3.StringVal("/"), sd.t))))
    key, cert = v.str("key"), v.str("cert")
    ran = []
    ended = v.choose("exits", "raises")
    code = v.int("returncode")

    def run_command(it2, a, k):
        ctx.mut_append(ran, (list(a), dict(k), len(disk.log)))
        if ended == "raises":
            it.raise_(OSError, "no such program")
        ctx.mut_append(disk.log, ("answer", None, None, {"ok": True}))
        return code

    def finish(it2, a, k):
        ctx.mut_append(disk.log, ("answer", None, None, dict(k)))

    it.overrides[LAUNCH + ".run_command"] = run_command
    it.overrides[LAUNCH + ".finish"] = finish
    cmd, env, stdin = VList([v.str("cmd")]), v.pydict({"E": v.str("e")}), v.str("stdin")
    v.case(lambda ev: {"kind": "launcher"})
    files = v.pydict({"dask.pem": key, "dask.crt": cert}) if sd is not None else None
    out = v.run(LAUNCH + ".start", cmd, env, stdin=stdin, staging_dir=sd, files=files)
    if sd is None:
        v.cover("no-files")
        v.prove("nothing-on-disk", z3.BoolVal(not disk.of("dir", "open", "write", "rmtree")))
    if ran:
        a, k, when = ran[0]
        v.prove("submits-what-it-is-told", z3.And(z3.BoolVal(len(ran) == 1 and a[0] is cmd and (a[1] if len(a) > 1 else k.get("env")) is env), same(v, a[2] if len(a) > 2 else k.get("stdin"), stdin)))
    if sd is None:
        return
    made = disk.of("dir")
    v.prove("private-directory", z3.And([z3.BoolVal(all(disk.private(e) for e in made) and all(e[3].get("exist_ok") is False for e in made))] + [same(v, e[1], sd) for e in made]))
    v.prove("all-inside-its-directory", z3.And([inside(v, e[1], sd) for e in disk.of("open", "write")]))
    v.prove("directory-comes-first", z3.BoolVal(not disk.of("open") or bool(made) and disk.log.index(made[0]) < disk.log.index(disk.of("open")[0])))
    gone = [e for e in disk.of("rmtree")]
    v.prove("removes-only-its-directory", z3.And([same(v, e[1], sd) for e in gone]))
    v.prove("an-existing-directory-is-left-alone", z3.BoolVal(bool(made) or not gone))
    if ran and ended == "exits" and out.ok:
        ok = code.t == 0
        pem, crt = [SStr(z3.Concat(sd.t, z3.StringVal("/" + n))) for n in ("dask.pem", "dask.crt")]
        disk.holds(pem, key, "key-of-its-own-cluster")
        disk.holds(crt, cert, "certificate-of-its-own-cluster")
        v.prove("written-before-the-job-is-submitted", z3.BoolVal(all(disk.log.index(e) < ran[0][2] for e in disk.of("write", "open", "dir"))))
        v.prove("kept-exactly-for-a-submitted-job", z3.BoolVal(len(gone) == 0) == ok)
        v.cover("refused" if gone else "submitted")
        return
    v.prove("a-failure-leaves-no-credentials", z3.BoolVal(not made or bool(gone)))
    v.prove("a-failure-is-reported", z3.BoolVal(not out.ok or bool(ran) and ended == "raises" or any(e[3].get("ok") is False for e in disk.of("answer"))))


@contract("C21", LAUNCH + ".stop", "launcher_stop", assumes=A_FS)
def launcher_stop(v):
    it, ctx = v.it, v.ctx
    disk = Disk(v)
    sd = v.str("staging_dir") if v.choose("staged", "plain") == "staged" else None
    if sd is not None:
        v.assume(sd.t != z3.StringVal(""))
    ran = []
    it.overrides[LAUNCH + ".run_command"] = lambda it2, a, k: ctx.mut_append(ran, (list(a), dict(k), len(disk.log)))
    it.overrides[LAUNCH + ".finish"] = lambda it2, a, k: ctx.mut_append(disk.log, ("answer", None, None, dict(k)))
    cmd, env = VList([v.str("cmd")]), v.pydict({"E": v.str("e")})
    v.case(lambda ev: {"kind": "launcher"})
    out = v.run(LAUNCH + ".stop", cmd, env, staging_dir=sd)
    v.ok_or(out, "never-fails")
    tried = [e[1] for e in disk.of("rmtree")] + [x[1] for x in disk.nfail if x[0] == "rmtree"]
    failed = bool([x for x in disk.nfail if x[0] == "rmtree"])
    v.prove("removes-only-its-directory", z3.And([z3.BoolVal(sd is not None)] + [same(v, p, sd) for p in tried]) if tried else z3.BoolVal(True))
    if sd is not None:
        v.prove("own-directory-is-removed", z3.Or([z3.BoolVal(bool(tried)), disk.absent(sd)]))
    v.prove("a-failed-removal-is-reported", z3.BoolVal(not failed or any(e[3].get("ok") is False for e in disk.of("answer"))))
    v.prove("the-job-is-stopped", z3.BoolVal(failed or len(ran) == 1 and ran[0][0][0] is cmd and (ran[0][0][1] if len(ran[0][0]) > 1 else ran[0][1].get("env")) is env))


@contract("C21", LAUNCH + ".main", "launcher_main")
def launcher_main(v):
    it, ctx = v.it, v.ctx
    action = v.choose("start", "stop", "other", "none")
    args = {"cmd": VList([v.str("cmd")]), "env": v.pydict({}), "staging_dir": v.str("staging_dir")}
    if action == "start":
        args.update(stdin=v.str("stdin"), files=v.pydict({"dask.pem": v.str("key")}))
    d = v.pydict({**args, **({"action": action} if action != "none" else {})})
    it.lib["json.load"] = lambda it2, a, k: d
    it.lib["sys.stdin"] = v.opaque("stdin")
    calls = []
    for n in ("start", "stop", "finish"):
        it.overrides[f"{LAUNCH}.{n}"] = lambda it2, a, k, n=n: ctx.mut_append(calls, (n, list(a), dict(k)))
    v.case(lambda ev: {"kind": "launcher"})
    out = v.run(LAUNCH + ".main")
    v.ok_or(out, "done")
    v.prove("one-action", z3.BoolVal(len(calls) == 1))
    n, a, k = calls[0]
    if action in ("start", "stop"):
        v.prove("does-what-it-is-told", z3.And([z3.BoolVal(n == action and not a and set(k) == set(args))] + [same(v, k[x], y) if x in k else z3.BoolVal(False) for x, y in args.items()]))
    else:
        v.prove("refuses-anything-else", z3.BoolVal(n == "finish" and k.get("ok") is False))


def jobqueue(v, what):
    it, ctx = v.it, v.ctx
    w = World(v, PBS)
    calls = []
    w.cluster.attrs["state"] = v.pydict({"job_id": v.str("job_id"), "staging_dir": v.str("staging_dir")}) if v.choose("started", "unstarted") == "started" else v.pydict({})

    def do_as_user(it2, a, k):
        if a:
            k = dict(k, user=a[0], **({"action": a[1]} if len(a) > 1 else {}))
        ctx.mut_append(calls, k)
        return (v.int("exit_code"), v.str("out"), v.str("err"))

    w.o.attrs["do_as_user"] = v.afn(do_as_user)
    w.o.attrs["get_stop_cmd_env"] = v.native(lambda it2, a, k: (v.prove("stops-its-own-job", same(v, a[0], z3_str("job_id"))), (v.str("stop_cmd"), v.str("stop_env")))[1])
    v.case(lambda ev: {"kind": "jobqueue"})
    out = v.run(JQ + ".do_stop_cluster", w.o, w.cluster)
    if not w.cluster.attrs["state"].d:
        v.prove("nothing-to-stop", z3.BoolVal(out.ok and not calls))
        return
    v.prove("stopped-once", z3.BoolVal(len(calls) == 1))
    for k in calls[:1]:
        v.prove("as-the-owner", z3.And(same(v, k.get("user"), w.cluster.attrs["username"]), same(v, k.get("action"), "stop")))
        v.prove("removes-its-own-directory", same(v, k.get("staging_dir"), z3_str("staging_dir")))
    fine = z3.Or(z3.Int("exit_code") == 0, z3.Contains(z3.String("err"), z3.StringVal("Job has finished")))
    v.prove("a-failed-stop-is-reported", fine if out.ok else z3.Not(fine))


def z3_str(n):
    return SStr(z3.String(n))


contract("C21", JQ + ".do_stop_cluster", "jobqueue_stop")(lambda v: jobqueue(v, "stop"))


@contract("C21", JQ + ".do_start_cluster", "jobqueue_start")
def jobqueue_start(v):
    from .c20 import start_job

    start_job(v)


# ---------------------------------------------------------------- client
@contract("C21", SEC + ".get_connection_args", "client_copies", assumes=A_FS + ["tempfile.TemporaryDirectory and mkdtemp create private directories"])
def client_copies(v):
    it, ctx = v.it, v.ctx
    disk = Disk(v)
    v.expect_covers("loaded", "failed")
    key, cert = v.str("key"), v.str("cert")
    loaded = []

    def load(it2, a, k):
        ctx.mut_append(loaded, (a[0], a[1] if len(a) > 1 else k.get("keyfile"), len(disk.of("rmtree"))))
        if ctx.branch(ctx.fresh("load_fails", z3.BoolSort())):
            ctx.mut_append(disk.nfail, ("load", None))
            it.raise_(ValueError, "bad certificate")

    context = v.fake("SSLContext", load_cert_chain=v.native(load), verify_mode=None, check_hostname=True)
    ca = []

    def create(it2, a, k):
        ctx.mut_append(ca, k.get("cafile"))
        return context

    it.lib["ssl.create_default_context"] = create
    it.lib["ssl.Purpose.SERVER_AUTH"] = v.opaque("server-auth")
    req = v.opaque("cert-required")
    it.lib["ssl.CERT_REQUIRED"] = req
    o = v.obj(SEC, tls_key=key, tls_cert=cert)
    v.case(lambda ev: {"kind": "client"})
    out = v.run(SEC + ".get_connection_args", o, v.str("role"))
    dirs = disk.of("dir")
    v.prove("private-directory", z3.BoolVal(all(disk.private(e) for e in dirs)))
    v.prove("copies-only-in-private-directories", z3.And([z3.Or([inside(v, e[1], d[1]) for d in dirs]) for e in disk.of("open", "write")]))
    v.prove("copies-are-removed-whatever-fails", z3.And([z3.Or([same(v, d[1], r[1]) for r in disk.of("rmtree")] + [z3.BoolVal(False)]) for d in dirs]))
    if not out.ok:
        v.cover("failed")
        v.prove("fails-only-if-the-system-fails", z3.BoolVal(bool(disk.nfail)))
        return
    v.cover("loaded")
    v.prove("loaded-before-removed", z3.BoolVal(len(loaded) == 1 and loaded[0][2] == 0))
    disk.holds(loaded[0][0], cert, "loads-the-certificate")
    disk.holds(loaded[0][1], key, "loads-the-key")
    v.prove("closed-before-loaded", z3.BoolVal(len(disk.of("close")) >= 2))
    v.prove("trusts-only-its-own-certificate", same(v, ca[0], loaded[0][0]) if len(ca) == 1 else z3.BoolVal(False))
    v.prove("verifies-the-other-side", z3.BoolVal(it.resolve(context.attrs["verify_mode"]) is req))
    r = it.resolve(out.val)
    v.prove("uses-what-was-loaded", z3.BoolVal(it.resolve(at(it, r, "ssl_context")) is context and at(it, r, "require_encryption") is True))
