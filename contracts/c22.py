"""C22: liveness checks."""
import errno

import z3

from pyvc.libs import noop_log
from pyvc.verify import *
from .c25 import at, same

B = "dask_gateway_server.backends."
LOCAL, INPROC, JQ = B + "local.LocalBackend", B + "inprocess.InProcessBackend", B + "jobqueue.base.JobQueueBackend"
PBS, SLURM, YARN = B + "jobqueue.pbs.PBSBackend", B + "jobqueue.slurm.SlurmBackend", B + "yarn.YarnBackend"
STR = z3.StringSort()
OBJ = ref_sort("Checked")


class Objs:
    """The list of objects to check: any number, each with its own name."""

    def __init__(self, v, key, has=None):
        self.v, self.it, self.ctx = v, v.it, v.ctx
        it, ctx = v.it, v.ctx
        n = v.int("how_many", 0)
        self.n = n.t
        self.at = z3.Function("checked", z3.IntSort(), OBJ)
        self.name, self.byname = z3.Function("name_of", OBJ, STR), z3.Function("named", STR, OBJ)
        self.has = z3.Function("has_job", OBJ, z3.BoolSort())
        self.key = key
        ctx.forall(("Checked",), lambda x: self.byname(self.name(x)) == x, "unique-names")
        idx = z3.Function("checked_index", OBJ, z3.IntSort())
        ctx.forall(("Int",), lambda i: idx(self.at(i)) == i, "distinct")
        ctx.state["inverse"] = {"name_of": self.byname, "checked": idx}
        cls = Fake("Checked")
        self.cls = cls
        self.jobs = {}
        it.attr_hooks["Checked.name"] = lambda it2, o, nm: SStr(self.name(o.t))
        self.seq = VList([SSeq(self.n, lambda i: SRef(cls, self.at(i)))])

        def state(it2, o, nm):
            def get(it3, a, k):
                if a[0] != self.key:
                    it.unsupported("state entry")
                if not it.ctx.branch(self.has(o.t)):
                    return a[1] if len(a) > 1 else None
                return self.job(o.t)

            def getitem(it3, a, k):
                r = get(it3, a, k)
                if r is None:
                    it.raise_(KeyError, a[0])
                return r

            return v.fake("state", get=v.native(get), __getitem__=v.native(getitem), __contains__=v.native(lambda it3, a, k: it.mkbool(self.has(o.t))))

        it.attr_hooks["Checked.state"] = state

    def job(self, t):
        raise NotImplementedError

    def answer(self, r, alive, clause):
        """r is the list of answers: one for each object, in order."""
        v, it, ctx = self.v, self.it, self.ctx
        r = it.resolve(r)
        if not isinstance(r, (VList, SSeq)):
            v.prove(clause, z3.BoolVal(False))
            return
        items = r.items if isinstance(r, VList) else [r]
        if not all(isinstance(x, SSeq) for x in items) or len(items) > 1:
            if not items:
                v.prove(clause, self.n == 0)
                return
            it.unsupported("order of the answers")
        i = ctx.fresh("which", z3.IntSort())
        ctx.know("Int", i)
        v.assume(z3.And(i >= 0, i < self.n))
        ctx.know("Checked", self.at(i))
        ctx.know("Str", self.name(self.at(i)))
        v.prove("one-answer-for-each", items[0].n == self.n)
        a = items[0].at(i)
        v.prove(clause, it.truth_term(a) == alive(self.at(i)) if not isinstance(it.truth_term(a), bool) else z3.BoolVal(it.truth_term(a)) == alive(self.at(i)))


# ---------------------------------------------------------------- processes
def signal_world(v):
    it = v.it
    running = z3.Function("process_exists", z3.IntSort(), z3.BoolSort())
    denied = z3.Function("process_of_another_user", z3.IntSort(), z3.BoolSort())

    def kill(it2, a, k):
        pid = it._nt(it.num_or_none(it.resolve(a[0])), False)
        v.prove("only-asks", v.eq(a[1], 0))
        if not it.ctx.branch(running(pid)):
            e = it.make_exc(OSError, SStr(z3.String("no_such_process")))
            e.attrs["errno"] = errno.ESRCH
            raise PyRaise(e)
        if it.ctx.branch(denied(pid)):
            e = it.make_exc(PermissionError, SStr(z3.String("not_permitted")))
            e.attrs["errno"] = errno.EPERM
            raise PyRaise(e)

    it.lib["os.kill"] = kill
    it.lib["errno.ESRCH"] = errno.ESRCH
    return running, denied


def local_check(v, which):
    it, ctx = v.it, v.ctx
    running, denied = signal_world(v)
    v.expect_covers("checked")
    pid = z3.Function("pid_of", OBJ, z3.IntSort())
    objs = Objs(v, "pid")
    objs.job = lambda t: SInt(pid(t))
    ctx.forall(("Checked",), lambda x: pid(x) > 0, "pids")
    o = v.obj(LOCAL, log=noop_log())
    v.case(lambda ev: {"kind": "local"})
    out = v.run(LOCAL + "." + which, o, objs.seq)
    if not out.ok:
        w = ctx.fresh("refused", OBJ)
        v.prove("fails-only-when-the-system-refuses", z3.BoolVal(out.exc_name() == "PermissionError"))
        v.cover("refused")
        return
    v.cover("checked")
    objs.answer(out.val, lambda x: z3.And(objs.has(x), running(pid(x))), "alive-exactly-if-its-process-exists")


def inproc_check(v, which):
    it, ctx = v.it, v.ctx
    objs = Objs(v, "pid")
    known, closed = z3.Function("known_name", STR, z3.BoolSort()), z3.Function("closed_name", STR, z3.BoolSort())
    CL = Obj(Fake("Status"), {})
    OTHER = Obj(Fake("Status"), {})
    srv = Fake("Server")
    SRV = ref_sort("Server")
    byname = z3.Function("server_named", STR, SRV)
    nameof = z3.Function("server_name", SRV, STR)
    ctx.forall(("Str",), lambda x: nameof(byname(x)) == x, "servers")
    it.lib["distributed.core.Status.closed"] = CL
    it.attr_hooks["Server.status"] = lambda it2, o, n: CL if ctx.branch(closed(nameof(o.t))) else OTHER
    d = VDict()
    d.parts = [Part(("Str",), lambda x: known(x), lambda x: (SStr(x), SRef(srv, byname(x))))]
    other = VDict()
    known2 = z3.Function("other_known_name", STR, z3.BoolSort())
    other.parts = [Part(("Str",), lambda x: known2(x), lambda x: (SStr(x), SRef(srv, z3.Function("other_server_named", STR, SRV)(x))))]
    o = v.obj(INPROC, log=noop_log(), schedulers=d if which == "do_check_clusters" else other, workers=d if which == "do_check_workers" else other)
    v.case(lambda ev: {"kind": "inprocess"})
    out = v.run(INPROC + "." + which, o, objs.seq)
    if not v.ok_or(out, "checked"):
        return
    v.cover("checked")
    objs.answer(out.val, lambda x: z3.And(known(objs.name(x)), z3.Not(closed(objs.name(x)))), "alive-exactly-if-its-server-runs")


for _w in ("do_check_clusters", "do_check_workers"):
    contract("C22", LOCAL + "." + _w, "local_" + _w, assumes=["os.kill(pid, 0) tells whether the process exists", "names are unique"])(lambda v, w=_w: local_check(v, w))
    contract("C22", INPROC + "." + _w, "inprocess_" + _w, assumes=["names are unique"])(lambda v, w=_w: inproc_check(v, w))


# ---------------------------------------------------------------- job queues
def jq_check(v, which):
    it, ctx = v.it, v.ctx
    objs = Objs(v, "job_id")
    jid = z3.Function("job_of", OBJ, STR)
    objs.job = lambda t: SStr(jid(t))
    listed, active = z3.Function("listed", STR, z3.BoolSort()), z3.Function("job_active", STR, z3.BoolSort())
    states = VDict()
    states.parts = [Part(("Str",), lambda x: listed(x), lambda x: (SStr(x), SBool(active(x))))]
    asked = []
    fails = v.choose("answers", "fails") == "fails"

    def check(it2, a, k):
        ctx.mut_append(asked, it.resolve(a[0]))
        if fails:
            it.raise_(Exception, "status check failed")
        return states

    o = v.obj(JQ, log=noop_log(), check_jobs=v.afn(check))
    v.case(lambda ev: {"kind": "jobs"})
    out = v.run(JQ + "." + which, o, objs.seq)
    if fails and asked:
        v.cover("fails")
        v.prove("a-failed-query-is-reported", z3.BoolVal(not out.ok))
        return
    if not v.ok_or(out, "checked"):
        return
    v.cover("checked")
    objs.answer(out.val, lambda x: z3.And(objs.has(x), listed(jid(x)), active(jid(x))), "alive-exactly-if-its-own-job-is-active")
    # every job was asked about
    x = ctx.fresh("some", z3.IntSort())
    ctx.know("Int", x)
    ctx.know("Checked", objs.at(x))
    v.assume(z3.And(x >= 0, x < objs.n, objs.has(objs.at(x))))
    if asked:
        r = it.contains(asked[0], SStr(jid(objs.at(x))))
        v.prove("asks-about-every-job", z3.BoolVal(r) if isinstance(r, bool) else (r.t if isinstance(r, SBool) else r))
    else:
        v.prove("asks-about-every-job", z3.BoolVal(False))


for _w in ("do_check_clusters", "do_check_workers"):
    contract("C22", JQ + "." + _w, "jobs_" + _w, assumes=["names are unique"])(lambda v, w=_w: jq_check(v, w))


@contract("C22", JQ + ".check_jobs", "check_jobs")
def check_jobs(v):
    it, ctx = v.it, v.ctx
    v.expect_covers("answered", "failed", "nothing-to-ask")
    started = []
    ids = VList([v.str("id1"), v.str("id2")][: {"none": 0, "one": 1, "two": 2}[v.choose("none", "one", "two")]])
    code = v.int("exit_code")
    text = v.str("stdout")

    def spawn(a, k):
        ctx.mut_append(started, (a, k))
        return v.fake("Process", returncode=code, communicate=v.afn(lambda it2, a2, k2: (v.fake("raw", decode=v.native(lambda *x: text)), v.fake("raw", decode=v.native(lambda *x: v.str("stderr"))))))

    it.lib["asyncio.create_subprocess_exec"] = lambda it2, a, k: Coro(lambda: spawn(a, k), "spawn")
    states = v.pydict({"x": True})
    cmd, env = VList([v.str("status_cmd"), v.str("status_arg")]), v.pydict({})
    o = v.obj(JQ, log=noop_log())

    def status_cmd(it2, a, k):
        v.prove("asks-about-the-given-jobs", z3.BoolVal(it.resolve(a[0]) is ids))
        return (cmd, env)

    def parse(it2, a, k):
        v.prove("reads-the-answer", v.eq(a[0], text))
        return states

    o.attrs["get_status_cmd_env"], o.attrs["parse_job_states"] = v.native(status_cmd), v.native(parse)
    v.case(lambda ev: {"kind": "jobs"})
    out = v.run(JQ + ".check_jobs", o, ids)
    if not ids.items:
        v.cover("nothing-to-ask")
        v.prove("no-jobs-no-query", z3.BoolVal(out.ok and isinstance(it.resolve(out.val), VDict) and not it.resolve(out.val).d))
        return
    v.prove("one-query", z3.BoolVal(len(started) == 1))
    if started:
        v.prove("runs-the-status-command", z3.And([z3.BoolVal(len(started[0][0]) == 2)] + [same(v, x, y) for x, y in zip(started[0][0], cmd.items)]))
    if out.ok:
        v.cover("answered")
        v.prove("an-error-is-never-an-answer", code.t == 0)
        v.prove("the-answer-of-the-command", z3.BoolVal(it.resolve(out.val) is states))
    else:
        v.cover("failed")
        v.prove("fails-only-on-an-error", code.t != 0)


LINE = ref_sort("Line")


def parse_states(v, cls, slurm):
    it, ctx = v.it, v.ctx
    n = v.int("lines", 0)
    at_ = z3.Function("line", z3.IntSort(), LINE)
    field = z3.Function("field", LINE, z3.IntSort(), STR)
    lineof = z3.Function("line_of_job", STR, LINE)
    cls_ = Fake("Line")
    J = lambda x: field(x, z3.IntVal(0))
    jobf = z3.Function("job_field", LINE, STR)
    lidx = z3.Function("line_index", LINE, z3.IntSort())
    ctx.state["inverse"] = {"job_field": lineof, "line": lidx}
    ctx.forall(("Line",), lambda x: lineof(jobf(x)) == x, "one-line-per-job")
    seq = SSeq(n.t, lambda i: SRef(cls_, at_(i)))
    ctx.forall(("Int",), lambda i: lidx(at_(i)) == i, "lines-are-distinct")
    stf = 1 if slurm else 4
    f = lambda x: [SStr(jobf(x))] + [SStr(field(x, z3.IntVal(i))) for i in range(1, 6)]
    it.attr_hooks["Line.split"] = lambda it2, o, nm: v.native(lambda it3, a, k: VList(f(o.t)[:2] if slurm else f(o.t)))

    def lines(it2, a, k):
        if slurm:
            return VList([seq])

        def get(it3, a3, k3):
            if isinstance(a3[0], slice) and a3[0].start == 2 and a3[0].stop is None and a3[0].step is None:
                return VList([seq])
            it.unsupported("part of the output")

        return v.fake("lines", __getitem__=v.native(get))

    text = v.fake("stdout", splitlines=v.native(lines))
    v.case(lambda ev: {"kind": "jobs"})
    out = v.run(cls + ".parse_job_states", v.obj(cls), text)
    if not v.ok_or(out, "parsed"):
        return
    v.cover("parsed")
    d = it.resolve(out.val)
    i = ctx.fresh("i", z3.IntSort())
    ctx.know("Int", i)
    v.assume(z3.And(i >= 0, i < n.t))
    x = at_(i)
    ctx.know("Line", x)
    g = v.attempt(lambda: it.getitem(d, SStr(jobf(x))))
    alive = ("R", "CG", "PD", "CF") if slurm else ("R", "Q", "H")
    if not v.ok_or(g, "every-job-of-the-answer-is-known"):
        return
    st = field(x, z3.IntVal(stf))
    t = it.truth_term(g.val)
    t = z3.BoolVal(t) if isinstance(t, bool) else t
    v.prove("pending-or-running-jobs-are-alive-others-not", t == z3.Or([st == z3.StringVal(s) for s in alive]))


for _l, _c in (("pbs", PBS), ("slurm", SLURM)):
    contract("C22", _c + ".parse_job_states", "parse_" + _l, assumes=["the status command prints one line per job, in its documented format"])(lambda v, c=_c, s=_l == "slurm": parse_states(v, c, s))
    contract("C22", _c + ".get_status_cmd_env", "status_command_" + _l)(lambda v, c=_c, s=_l == "slurm": status_command(v, c, s))


def status_command(v, cls, slurm):
    it = v.it
    ids = [v.str("id1"), v.str("id2"), v.str("id3")][: 1 + ["a", "b", "c"].index(v.choose("a", "b", "c"))]
    o = v.obj(cls, status_command=v.str("status_command"))
    v.case(lambda ev: {"kind": "jobs"})
    out = v.run(cls + ".get_status_cmd_env", o, VList(list(ids)))
    if not v.ok_or(out, "built"):
        return
    cmd, env = it.to_pylist(out.val)
    xs = it.to_pylist(cmd)
    v.prove("status-command", same(v, xs[0], o.attrs["status_command"]))
    if slurm:
        t = z3.StringVal("--job=")
        parts = [t]
        for i, x in enumerate(ids):
            if i:
                parts.append(z3.StringVal(","))
            parts.append(x.t)
        want = z3.Concat(*parts)
        v.prove("asks-about-exactly-the-jobs", z3.Or([it.sterm(it.resolve(x)) == want for x in xs]))
        k = [i for i, x in enumerate(xs) if it.resolve(x) == "-o"]
        v.prove("asks-for-id-and-state", z3.BoolVal(len(k) == 1 and "-h" in xs and it.resolve(xs[k[0] + 1]) == "%i %t"))
    else:
        v.prove("asks-about-exactly-the-jobs", z3.And([z3.BoolVal(len(xs) == 2 + len(ids) and xs[1] == "-x")] + [same(v, a, b) for a, b in zip(xs[2:], ids)]))


# ---------------------------------------------------------------- YARN
@contract("C22", YARN + ".do_check_clusters", "yarn_clusters", assumes=["names are unique"])
def yarn_clusters(v):
    it, ctx = v.it, v.ctx
    objs = Objs(v, "app_id")
    app = z3.Function("app_of", OBJ, STR)
    objs.job = lambda t: SStr(app(t))
    stt = z3.Function("app_state", STR, STR)
    fails = z3.Function("report_fails", STR, z3.BoolSort())
    o = v.obj(YARN, log=noop_log(), skein_client=v.fake("skein", application_report="application-report"))

    def apply(it2, a, k):
        if a[0] != "application-report":
            it.unsupported("call of " + repr(a[0]))
        t = it.sterm(it.resolve(a[1]))
        if ctx.branch(fails(t)):
            it.raise_(ValueError, "unknown application")
        return v.fake("report", state=SStr(stt(t)))

    o.attrs["async_apply"] = v.afn(apply)
    v.case(lambda ev: {"kind": "yarn"})
    out = v.run(YARN + ".do_check_clusters", o, objs.seq)
    if not out.ok:
        v.cover("fails")
        v.prove("fails-only-when-a-query-fails", z3.BoolVal(out.exc_name() == "ValueError"))
        return
    v.cover("checked")
    dead = ("FAILED", "KILLED", "FINISHED")
    objs.answer(out.val, lambda x: z3.And(objs.has(x), z3.And([stt(app(x)) != z3.StringVal(s) for s in dead])), "alive-exactly-if-its-application-has-not-ended")


@contract("C22", YARN + ".do_check_workers", "yarn_workers", bounded="three workers in at most two clusters", assumes=["names are unique"])
def yarn_workers(v):
    it, ctx = v.it, v.ctx
    c1, c2 = v.fake("Cluster", name=v.str("c1")), v.fake("Cluster", name=v.str("c2"))
    layout = v.choose("111", "112", "121", "122")
    cl = [c1 if x == "1" else c2 for x in layout]
    ws, ids = [], []
    for i in range(3):
        has = v.choose(f"job{i}", f"nojob{i}").startswith("job")
        cid = v.str(f"container{i}")
        ids.append(cid if has else None)
        ws.append(v.fake("Worker", name=f"w{i}", cluster=cl[i], state=v.pydict({"container_id": cid} if has else {})))
    fail = {id(c1): v.choose("ok1", "fails1") == "fails1"}
    fail[id(c2)] = v.choose("ok2", "fails2") == "fails2" if c2 in cl else False
    act = {id(c): [v.str(f"active{n}{i}") for i in range(2)] for n, c in (("1", c1), ("2", c2))}
    o = v.obj(YARN, log=noop_log())

    def client(it2, a, k):
        c = it.resolve(a[0])
        return v.fake("app", get_containers=("containers", c))

    def apply(it2, a, k):
        kind, c = a[0]
        v.prove("asks-for-workers", same(v, VList(list(it.to_pylist(k.get("services")))), ["dask.worker"]))
        if fail[id(c)]:
            it.raise_(ValueError, "gone")
        return VList([v.fake("container", id=x) for x in act[id(c)]])

    o.attrs["_get_app_client"], o.attrs["async_apply"] = v.afn(client), v.afn(apply)
    v.case(lambda ev: {"kind": "yarn"})
    out = v.run(YARN + ".do_check_workers", o, VList(list(ws)))
    if not v.ok_or(out, "checked"):
        return
    v.cover("checked")
    r = it.to_pylist(out.val)
    v.prove("one-answer-for-each", z3.BoolVal(len(r) == 3))
    for i, x in enumerate(r[:3]):
        t = it.truth_term(x)
        t = z3.BoolVal(t) if isinstance(t, bool) else t
        alive = z3.BoolVal(False) if ids[i] is None or fail[id(cl[i])] else z3.Or([ids[i].t == y.t for y in act[id(cl[i])]])
        v.prove("alive-exactly-if-its-own-container-is-active", t == alive)
