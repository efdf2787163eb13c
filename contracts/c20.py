"""C20: environment, command line and resources of started processes."""
import z3

from pyvc.models import to_str
from pyvc.verify import *
from . import c25
from .c25 import KC, PodWorld, at, same
from .loops import StopBody, run

B = "dask_gateway_server.backends."
DB = B + "db_base.DBBackendBase"
LOCAL = B + "local.LocalBackend"
INPROC = B + "inprocess.InProcessBackend"
JQ = B + "jobqueue.base.JobQueueBackend"
PBS, SLURM, YARN = B + "jobqueue.pbs.PBSBackend", B + "jobqueue.slurm.SlurmBackend", B + "yarn.YarnBackend"
STR = z3.StringSort()
A_OPT = ["names and values of environment variables are strings"]
A_INH = ["an administrator does not list the gateway's own variables in inherited_environment"]

for _w in ("scheduler", "worker"):

    @contract("C20", KC + ".make_pod", "make_pod_" + _w)
    def _f(v, w=_w):
        c25.pod(v, w)


TLS = {"scheduler": ["DASK_DISTRIBUTED__COMM__TLS__SCHEDULER__KEY", "DASK_DISTRIBUTED__COMM__TLS__SCHEDULER__CERT"],
       "worker": ["DASK_DISTRIBUTED__COMM__TLS__WORKER__KEY", "DASK_DISTRIBUTED__COMM__TLS__WORKER__CERT"]}


class World:
    """A backend and a cluster with a configuration of unknown content."""

    def __init__(self, v, cls, env="any", state=()):
        self.v, self.it, self.ctx = v, v.it, v.ctx
        it = v.it
        self.has, self.val = z3.Function("user_has", STR, z3.BoolSort()), z3.Function("user_env", STR, STR)
        d = VDict()
        if env == "any":
            d.parts = [Part(["Str"], lambda x: self.has(x), lambda x: (SStr(x), SStr(self.val(x))))]
        else:
            d = v.pydict({"MY_VAR": v.str("my_var"), "OTHER": v.str("other_var")})
        self.user = d
        S = v.str
        c = {"environment": d}
        for w in ("scheduler", "worker"):
            c[w + "_cmd"] = VList([S(w + "_exe"), S(w + "_exe2")])
            c[w + "_setup"] = S(w + "_setup")
            c[w + "_cores"], c[w + "_memory"] = v.int(w + "_cores", 1), v.int(w + "_memory", 10240)
        c["worker_threads"] = v.int("worker_threads", 1)
        c["adaptive_period"], c["idle_timeout"] = v.real("adaptive_period"), v.real("idle_timeout")
        for n in ("queue", "account", "project", "partition", "qos"):
            c[n] = S("cfg_" + n)
        c["use_stagein"] = v.bool("use_stagein")
        self.c = c
        self.config = v.fake("Config", **c)
        self.cluster = v.fake("Cluster", name=S("cluster_name"), token=S("cluster_token"), username=S("owner"), config=self.config, scheduler_address=S("scheduler_address"),
                              state=v.pydict({"workdir": S("workdir"), "staging_dir": S("staging_dir"), **dict(state)}), tls_cert=SBytes(z3.String("tls_cert")), tls_key=SBytes(z3.String("tls_key")))
        self.o = v.obj(cls, api_url=S("api_url"), cluster_heartbeat_period=v.int("heartbeat_period", 1), inherited_environment=VList([]), submit_command=S("submit_command"),
                       gateway_hostname=S("gateway_host"), dask_gateway_jobqueue_launcher=S("launcher"), log=self.log())
        self.worker = v.fake("Worker", name=S("worker_name"), cluster=self.cluster, state=v.pydict({}))

    def log(self):
        from pyvc.libs import noop_log

        return noop_log() if callable(noop_log) else noop_log

    def call(self, name, *a, **k):
        it = self.it
        return self.v.attempt(lambda: it.call(it.getattr(self.o, name), list(a), k))


def own_paths(v, w):
    cert, key = v.str("cert_path"), v.str("key_path")

    def paths(it, a, k):
        v.prove("tls-files-of-its-own-cluster", z3.BoolVal(it.resolve(a[0]) is w.cluster))
        return (cert, key)

    w.o.attrs["get_tls_paths"] = v.native(paths)
    return cert, key


def check_env(v, w, e, who, paths, extra=()):
    """The gateway's own variables, whatever the user configured; the user's
    others as configured."""
    it = v.it
    e = it.resolve(e)
    g = lambda k: at(it, e, k)
    cl = w.cluster.attrs
    want = {"DASK_GATEWAY_API_URL": w.o.attrs["api_url"], "DASK_GATEWAY_API_TOKEN": cl["token"], "DASK_GATEWAY_CLUSTER_NAME": cl["name"], "DASK_DISTRIBUTED__COMM__REQUIRE_ENCRYPTION": "True"}
    if who:
        want["DASK_DISTRIBUTED__COMM__TLS__CA_FILE"] = paths[0]
        want[TLS[who][0]], want[TLS[who][1]] = paths[1], paths[0]
    want.update(extra)
    for k, x in want.items():
        v.prove("own-" + k.split("__")[-1].lower().replace("dask_gateway_", "").replace("_", "-"), same(v, g(k), x))
    x = z3.String("any_variable")
    v.assume(z3.And([x != z3.StringVal(k) for k in want] + [w.has(x)]))
    r = g(SStr(x))
    v.prove("user-variables-are-kept", same(v, r, SStr(w.val(x))))
    v.prove("user-configuration-not-modified", z3.BoolVal(not w.user.d and len(w.user.parts) == 1))


def inherit_hook(v, w):
    """Invariant: every iteration only copies the variable it is about."""
    it, ctx = v.it, v.ctx
    osenv, oshas = z3.Function("os_env", STR, STR), z3.Function("os_has", STR, z3.BoolSort())
    osd = v.fake("os.environ", __getitem__=v.native(lambda it2, a, k: SStr(osenv(it.sterm(it.resolve(a[0]))))),
                 __contains__=v.native(lambda it2, a, k: it.mkbool(oshas(it.sterm(it.resolve(a[0]))))))
    it.lib["os.environ"] = osd
    names = v.fake("inherited")
    w.o.attrs["inherited_environment"] = names

    def hook(it2, n, env, is_async):
        if it.resolve(it.ev(n.iter, env)) is not names:
            return False
        if v.choose("end", "one") == "end":
            return True
        k = z3.String("inherited_name")
        reserved = ["DASK_GATEWAY_API_URL", "DASK_GATEWAY_API_TOKEN", "DASK_GATEWAY_CLUSTER_NAME", "DASK_DISTRIBUTED__COMM__REQUIRE_ENCRYPTION", "DASK_DISTRIBUTED__COMM__TLS__CA_FILE"] + TLS["scheduler"] + TLS["worker"]
        v.assume(z3.And([k != z3.StringVal(x) for x in reserved]))
        dicts = [x for x in env.vars.values() if isinstance(it.resolve(x), VDict)]
        if len(dicts) != 1:
            it.unsupported("inherited environment", n)
        (dname,) = [x for x, y in env.vars.items() if isinstance(it.resolve(y), VDict)]
        writes = []
        rec = v.fake("env", __setitem__=v.native(lambda it3, a, kk: ctx.mut_append(writes, a)))
        ctx.mut_dict(env.vars, dname, rec)
        it.assign(n.target, SStr(k), env)
        try:
            it.ex_block(n.body, env)
        except ContinueEx:
            pass
        v.prove("only-the-inherited-variable-is-copied", z3.And(z3.BoolVal(len(writes) <= 1), *[z3.And(v.eq(a[0], SStr(k)), v.eq(a[1], SStr(osenv(k)))) for a in writes]))
        v.rep.paths += 1
        raise StopBody

    ctx.state["for_hook"] = hook


def env_contract(label, cls, who):
    def f(v):
        w = World(v, cls)
        paths = own_paths(v, w)
        local = cls in (LOCAL, INPROC, B + "local.UnsafeLocalBackend")
        if local:
            inherit_hook(v, w)
        name = {"scheduler": "get_scheduler_env", "worker": "get_worker_env", None: "get_env"}[who]
        v.case(lambda ev: {"kind": "env", "backend": label, "who": who})
        try:
            out = w.call(name, w.cluster)
        except StopBody:
            return
        v.rep.paths += 1
        if not v.ok_or(out, "environment-built"):
            return
        v.cover("built")
        check_env(v, w, out.val, who, paths, {"USER": w.cluster.attrs["username"]} if local else {})

    f.__name__ = f"env_{label}_{who or 'common'}"
    contract("C20", cls + "." + {"scheduler": "get_scheduler_env", "worker": "get_worker_env", None: "get_env"}[who], f.__name__, assumes=A_OPT + (A_INH if "local" in label else []))(f)


for _l, _c in (("local", LOCAL), ("pbs", PBS), ("slurm", SLURM), ("yarn", YARN)):
    for _w in ("scheduler", "worker"):
        env_contract(_l, _c, _w)
env_contract("local", LOCAL, None)


# ---------------------------------------------------------------- commands
def flags(v, lst, n):
    """Values given to option n."""
    it = v.it
    xs = [it.resolve(x) for x in it.to_pylist(lst)]
    return [xs[i + 1] if i + 1 < len(xs) else c25.MISS for i, x in enumerate(xs) if isinstance(x, str) and x == n]


def option(v, lst, n, want, clause=None):
    got = flags(v, lst, n)
    v.prove(clause or "option" + n.replace("--", "-"), same(v, got[0], want) if len(got) == 1 else z3.BoolVal(False))


def starts_with(v, lst, first):
    it = v.it
    xs = it.to_pylist(lst)
    v.prove("configured-program", z3.And([z3.BoolVal(len(xs) >= len(first))] + [same(v, a, b) for a, b in zip(xs, first)]))
    return xs


def cmd_scheduler(v, cls):
    it = v.it
    w = World(v, cls)
    host = "127.0.0.1" if cls == LOCAL else "0.0.0.0"
    v.case(lambda ev: {"kind": "command", "who": "scheduler"})
    out = w.call("get_scheduler_command", w.cluster)
    v.rep.paths += 1
    if not v.ok_or(out, "command-built"):
        return
    v.cover("built")
    r = out.val
    starts_with(v, r, w.c["scheduler_cmd"].items)
    option(v, r, "--protocol", "tls", "tls-is-forced")
    option(v, r, "--host", host)
    option(v, r, "--port", "0")
    option(v, r, "--preload", "dask_gateway.scheduler_preload")
    option(v, r, "--dg-api-address", host + ":0")
    option(v, r, "--dashboard-address", host + ":0")
    option(v, r, "--dg-heartbeat-period", to_str(it, w.o.attrs["cluster_heartbeat_period"]))
    option(v, r, "--dg-adaptive-period", to_str(it, w.c["adaptive_period"]))
    option(v, r, "--dg-idle-timeout", to_str(it, w.c["idle_timeout"]))
    v.prove("configuration-not-modified", z3.BoolVal(len(w.c["scheduler_cmd"].items) == 2))


def cmd_worker(v, cls):
    it = v.it
    w = World(v, cls)
    given = v.choose("own-address", "given-address") == "given-address"
    v.case(lambda ev: {"kind": "command", "who": "worker"})
    nm = w.worker.attrs["name"]
    out = w.call("get_worker_command", w.cluster, nm, **({"scheduler_address": "$ADDRESS"} if given else {}))
    v.rep.paths += 1
    if not v.ok_or(out, "command-built"):
        return
    v.cover("built")
    xs = starts_with(v, out.val, w.c["worker_cmd"].items)
    v.prove("address-of-its-own-scheduler", same(v, xs[2], "$ADDRESS" if given else w.cluster.attrs["scheduler_address"]))
    option(v, out.val, "--name", nm, "own-name")
    yarn = cls == YARN
    option(v, out.val, "--nthreads", "$SKEIN_RESOURCE_VCORES" if yarn else to_str(it, w.c["worker_threads"]))
    option(v, out.val, "--memory-limit", "${SKEIN_RESOURCE_MEMORY}MiB" if yarn else to_str(it, w.c["worker_memory"]))
    v.prove("configuration-not-modified", z3.BoolVal(len(w.c["worker_cmd"].items) == 2))


for _l, _c in (("local", LOCAL), ("pbs", PBS), ("slurm", SLURM), ("yarn", YARN)):
    contract("C20", _c + ".get_scheduler_command", "scheduler_command_" + _l)(lambda v, c=_c: cmd_scheduler(v, c))
    contract("C20", _c + ".get_worker_command", "worker_command_" + _l)(lambda v, c=_c: cmd_worker(v, c))


def kube_cmd(v, who):
    it = v.it
    w = PodWorld(v)
    c = w.config(who)
    ns, name = v.str("namespace"), v.str("name")
    v.case(lambda ev: {"kind": "command", "who": "kube-" + who})
    out = v.attempt(lambda: it.call(it.getattr(w.o, f"get_{who}_command"), [ns, name, c]))
    v.rep.paths += 1
    if not v.ok_or(out, "command-built"):
        return
    v.cover("built")
    r = out.val
    xs = starts_with(v, r, w.c[who + "_cmd"].items)
    if who == "scheduler":
        option(v, r, "--protocol", "tls", "tls-is-forced")
        option(v, r, "--port", "8786")
        option(v, r, "--dg-api-address", ":8788")
        option(v, r, "--dashboard-address", ":8787")
        option(v, r, "--preload", "dask_gateway.scheduler_preload")
        option(v, r, "--dg-adaptive-period", to_str(it, w.c["adaptive_period"]))
        option(v, r, "--dg-idle-timeout", to_str(it, w.c["idle_timeout"]))
        option(v, r, "--dg-heartbeat-period", "0", "heartbeats-are-pulled-by-the-controller")
    else:
        svc = v.attempt(lambda: it.call(it.getattr(w.o, "make_service_name"), [name])).val
        addr = it.binop("+", it.binop("+", it.binop("+", it.binop("+", "tls://", svc), "."), ns), ":8786")
        v.prove("address-of-its-own-scheduler", same(v, xs[1], addr))
        option(v, r, "--name", "$(DASK_GATEWAY_WORKER_NAME)", "own-name")
        option(v, r, "--nthreads", to_str(it, w.c["worker_threads"]))
        option(v, r, "--memory-limit", to_str(it, w.c["worker_memory_limit"]))


for _w in ("scheduler", "worker"):
    contract("C20", f"{KC}.get_{_w}_command", "kube_command_" + _w)(lambda v, w=_w: kube_cmd(v, w))


@contract("C20", KC + ".get_env", "kube_env", assumes=A_OPT)
def kube_env(v):
    it = v.it
    w = PodWorld(v)
    c = w.config("worker")
    ns, name = v.str("namespace"), v.str("name")
    v.case(lambda ev: {"kind": "env", "backend": "kube", "who": None})
    out = v.run(KC + ".get_env", w.o, ns, name, c)
    if not v.ok_or(out, "environment-built"):
        return
    v.cover("built")
    p = "/etc/dask-credentials/"
    want = {"DASK_GATEWAY_API_URL": w.o.attrs["api_url"], "DASK_GATEWAY_CLUSTER_NAME": it.binop("+", it.binop("+", ns, "."), name), "DASK_GATEWAY_API_TOKEN": p + "api-token",
            "DASK_DISTRIBUTED__COMM__TLS__CA_FILE": p + "dask.crt"}
    for k in TLS["scheduler"] + TLS["worker"]:
        want[k] = p + ("dask.pem" if k.endswith("KEY") else "dask.crt")
    got = {}
    items = it.resolve(out.val).items
    parts = [x for x in items if isinstance(x, (Part, SSeq))]
    for x in items:
        if x in parts:
            continue
        n = at(it, x, "name")
        if not isinstance(n, str):
            v.prove("known-names", z3.BoolVal(False))
            return
        got.setdefault(n, []).append(at(it, x, "value"))
    for k, x in want.items():
        v.prove("own-" + k.split("__")[-1].lower().replace("dask_gateway_", "").replace("_", "-"), same(v, got[k][0], x) if len(got.get(k, [])) == 1 else z3.BoolVal(False))
    x = z3.String("any_variable")
    v.assume(w.user_has(x))
    res = z3.Or([x == z3.StringVal(k) for k in want])
    found = z3.BoolVal(False)
    for p in parts:
        if not isinstance(p, Part) or p.sorts != ("Str",):
            it.unsupported("environment entries")
        y = p.val(x)
        ok = z3.And(p.guard(x), same(v, at(it, y, "name"), SStr(x)), same(v, at(it, y, "value"), SStr(w.user_env(x))))
        found = z3.Or(found, ok)
        v.prove("user-variables-never-override", z3.Implies(p.guard(x), z3.And(z3.Not(res), ok)))
    v.prove("user-variables-are-kept", z3.Or(res, found))


# ---------------------------------------------------------------- job queues
def memory_words(v, fn, units, floor):
    it = v.it
    n = v.int("n", floor)
    v.case(lambda ev: {"kind": "memory", "n": ev(n)})
    out = v.run(fn, n)
    if not v.ok_or(out, "formatted"):
        return
    r = it.resolve(out.val)
    # "<number><unit>"
    t = it.sterm(r)
    m = z3.Int("amount")
    goals = []
    for unit, size in units:
        goals.append(z3.And(t == z3.Concat(z3.IntToStr(m), z3.StringVal(unit)), m * size >= n.t, (m - 1) * size < n.t))
    kids = t.children() if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT else []
    unit = kids[-1].as_string() if kids and z3.is_string_value(kids[-1]) else None
    sizes = dict(units)
    if unit not in sizes or len(kids) != 2:
        v.prove("amount-with-a-unit", z3.BoolVal(False))
        return
    v.cover(unit)
    size = sizes[unit]
    # the smallest number of units that is at least the requested memory
    q = (n.t + size - 1) / size
    v.prove("at-least-the-configured-memory-rounded-up-to-the-unit", t == z3.Concat(z3.IntToStr(q), z3.StringVal(unit)))


@contract("C20", PBS.rsplit(".", 1)[0] + ".qsub_format_memory", assumes=["division of memory sizes is exact (below 2**53 bytes)"])
def qsub_memory(v):
    v.expect_covers("GB", "MB", "kB", "B")
    memory_words(v, B + "jobqueue.pbs.qsub_format_memory", [("GB", 2**30), ("MB", 2**20), ("kB", 2**10), ("B", 1)], 0)


@contract("C20", SLURM.rsplit(".", 1)[0] + ".slurm_format_memory", assumes=["division of memory sizes is exact (below 2**53 bytes)", "at least 10 KiB of memory are configured"])
def slurm_memory(v):
    v.expect_covers("G", "M", "K")
    memory_words(v, B + "jobqueue.slurm.slurm_format_memory", [("G", 2**30), ("M", 2**20), ("K", 2**10)], 10240)


def submit(v, label, cls):
    it, ctx = v.it, v.ctx
    pbs = label == "pbs"
    w = World(v, cls, env="named")
    who = v.choose("scheduler", "worker")
    v.expect_covers("scheduler", "worker")
    fm = z3.Function("format_memory", z3.IntSort(), STR)
    it.overrides[cls.rsplit(".", 1)[0] + (".qsub_format_memory" if pbs else ".slurm_format_memory")] = lambda it2, a, k: SStr(fm(it._nt(it.num_or_none(it.resolve(a[0])), False)))
    if pbs:
        for x in ("scheduler", "worker"):
            w.config.attrs[x + "_resource_list"] = "select=1:ncpus={cores}:mem={memory}:who=" + x
    staging = v.str("staging_directory")

    def staged(it2, a, k):
        v.prove("staging-directory-of-its-own-cluster", z3.BoolVal(it.resolve(a[0]) is w.cluster))
        return staging

    w.o.attrs["get_staging_directory"] = v.native(staged)
    own_paths(v, w)
    v.case(lambda ev: {"kind": "submit", "backend": label, "who": who})
    out = w.call("get_submit_cmd_env_stdin", w.cluster, *([w.worker] if who == "worker" else []))
    v.rep.paths += 1
    if not v.ok_or(out, "submission-built"):
        return
    v.cover(who)
    r = it.to_pylist(out.val)
    if len(r) != 3:
        v.prove("submission", z3.BoolVal(False))
        return
    cmd, env, stdin = [it.resolve(x) for x in r]
    xs = [it.resolve(x) for x in it.to_pylist(cmd)]
    v.prove("submit-command", same(v, xs[0], w.o.attrs["submit_command"]))
    want_env = w.call(f"get_{who}_env", w.cluster).val
    v.prove("environment-of-the-process", same(v, env, {k: x for k, x in want_env.d.values()}))
    names = ",".join(sorted(k for k, _ in want_env.d.values()))
    command = w.call("get_scheduler_command", w.cluster) if who == "scheduler" else w.call("get_worker_command", w.cluster, w.worker.attrs["name"])
    line = it.sterm(it.resolve(it.call(it.getattr(" ", "join"), [command.val])))
    mem = fm(w.c[who + "_memory"].t)
    cores = it.sterm(to_str(it, w.c[who + "_cores"]))
    if pbs:
        res = z3.Concat(z3.StringVal("select=1:ncpus="), cores, z3.StringVal(":mem="), mem, z3.StringVal(":who=" + who))
        option(v, cmd, "-l", SStr(res), "requests-the-configured-resources")
        option(v, cmd, "-v", names, "passes-on-the-environment")
        script = flags(v, cmd, "-c")
        v.prove("runs-setup-and-command", same(v, script[0], SStr(z3.Concat(w.c[who + "_setup"].t, z3.StringVal("\n"), line))) if len(script) == 1 else z3.BoolVal(False))
        for f, n in (("-q", "queue"), ("-A", "account"), ("-P", "project")):
            got = flags(v, cmd, f)
            v.prove("configured-" + n, z3.And(same(v, got[0], w.c[n])) if got else w.c[n].t == z3.StringVal(""))
        stage = [x for x in xs if isinstance(x, SStr) and z3.is_app(x.t) and x.t.num_args() and z3.is_string_value(x.t.arg(0)) and x.t.arg(0).as_string().startswith("-Wstagein=")]
        want = z3.Concat(z3.StringVal("-Wstagein=.@"), w.o.attrs["gateway_hostname"].t, z3.StringVal(":"), staging.t, z3.StringVal("/*"))
        v.prove("credentials-are-staged-in", z3.If(w.c["use_stagein"].t, z3.And(z3.BoolVal(len(stage) == 1), *[x.t == want for x in stage[:1]]), z3.BoolVal(not stage)))
    else:
        has = lambda s: z3.Or([it.sterm(x) == s for x in xs])
        cat = lambda *t: z3.Concat(*[z3.StringVal(x) if isinstance(x, str) else x for x in t])
        v.prove("requests-the-configured-cores", has(cat("--cpus-per-task=", cores)))
        v.prove("requests-the-configured-memory", has(cat("--mem=", mem)))
        v.prove("passes-on-the-environment", has(z3.StringVal("--export=" + names)))
        v.prove("runs-in-the-staging-directory", has(cat("--chdir=", staging.t)))
        for f, n in (("--partition=", "partition"), ("--account=", "account"), ("--qos=", "qos")):
            v.prove("configured-" + n, z3.Or(w.c[n].t == z3.StringVal(""), has(cat(f, w.c[n].t))))
        v.prove("runs-setup-and-command", same(v, stdin, SStr(cat("#!/bin/sh\n", w.c[who + "_setup"].t, "\n", line))))


for _l, _c in (("pbs", PBS), ("slurm", SLURM)):
    contract("C20", _c + ".get_submit_cmd_env_stdin", "submit_" + _l, assumes=A_OPT)(lambda v, l=_l, c=_c: submit(v, l, c))


@contract("C20", JQ + ".start_job", "start_job")
def start_job(v):
    """What the job is started with is what the batch system gets, as the
    cluster's owner."""
    it, ctx = v.it, v.ctx
    w = World(v, PBS)
    started, sent = [], []
    which = v.choose("scheduler", "worker")
    v.expect_covers("ok", "refused")
    code = v.int("exit_code")
    stdout = v.str("stdout")

    def popen(it2, a, k):
        ctx.mut_append(started, (a, k))

        def communicate(it3, a3, k3):
            ctx.mut_append(sent, a3[0])
            return (v.fake("raw", decode=v.native(lambda it4, a4, k4: v.fake("text"))), v.fake("raw", decode=v.native(lambda it4, a4, k4: v.str("launcher_stderr"))))

        return v.fake("Process", communicate=v.afn(communicate), returncode=v.int("launcher_code"))

    it.lib["asyncio.create_subprocess_exec"] = lambda it2, a, k: Coro(lambda: popen(it2, a, k), "create_subprocess_exec")
    payload = []
    it.lib["json.dumps"] = lambda it2, a, k: ctx.mut_append(payload, a[0]) or SStr(z3.String("payload"))
    result = v.pydict({"ok": v.bool("launcher_ok"), "error": v.str("launcher_error"), "returncode": code, "stdout": stdout, "stderr": v.str("job_stderr")})
    it.lib["json.loads"] = lambda it2, a, k: result
    cmd, env, stdin = VList([v.str("cmd")]), v.pydict({"E": v.str("e")}), v.opaque("stdin")
    w.o.attrs["get_submit_cmd_env_stdin"] = v.native(lambda it2, a, k: ctx.mut_append(asked, [it.resolve(x) for x in list(a) + list(k.values())]) or (cmd, env, stdin))
    asked = []
    sd = v.str("staging_directory")
    w.o.attrs["get_staging_directory"] = v.native(lambda it2, a, k: sd)
    w.o.attrs["parse_job_id"] = v.native(lambda it2, a, k: it.resolve(a[0]))
    v.case(lambda ev: {"kind": "start_job", "who": which})
    yields = []
    v.ctx.state["yield_hook"] = lambda it2, x, env: ctx.mut_append(yields, x)
    fn = JQ + (".do_start_cluster" if which == "scheduler" else ".do_start_worker")
    out = v.run(fn, w.o, w.cluster if which == "scheduler" else w.worker)
    v.prove("started-once", z3.BoolVal(len(started) == 1 and len(payload) == 1 and len(sent) == 1))
    if len(started) != 1 or len(payload) != 1:
        return
    a, k = started[0]
    want = ["sudo", "-nHu", w.cluster.attrs["username"], w.o.attrs["dask_gateway_jobqueue_launcher"]]
    v.prove("runs-as-the-owner", z3.And([z3.BoolVal(len(a) == 4)] + [same(v, x, y) for x, y in zip(a, want)]))
    v.prove("no-environment-of-the-gateway", z3.BoolVal(isinstance(it.resolve(k.get("env")), VDict) and not it.resolve(k["env"]).d and not it.resolve(k["env"]).parts))
    p = payload[0]
    v.prove("submits-its-own-job", z3.And(z3.BoolVal(len(asked) == 1 and asked[0][0] is w.cluster and (which == "scheduler" and len([x for x in asked[0] if x is not None]) == 1 or which == "worker" and len(asked[0]) == 2 and asked[0][1] is w.worker)),
                                          same(v, at(it, p, "action"), "start"), same(v, at(it, p, "cmd"), cmd), same(v, at(it, p, "env"), env), same(v, at(it, p, "stdin"), stdin)))
    if which == "scheduler":
        dec = lambda b: SStr(b.t)
        v.prove("staged-credentials-are-its-own", z3.And(same(v, at(it, p, "staging_dir"), sd), same(v, at(it, p, "files", "dask.pem"), SStr(z3.String("tls_key"))), same(v, at(it, p, "files", "dask.crt"), SStr(z3.String("tls_cert")))))
    good = z3.And(z3.Int("launcher_code") == 0, z3.Bool("launcher_ok"), code.t == 0)
    if out.ok:
        v.cover("ok")
        v.prove("job-started-only-if-submitted", good)
        y = yields[-1] if yields else None
        v.prove("records-its-job", same(v, at(it, y, "job_id"), stdout) if y is not None else z3.BoolVal(False))
        if which == "scheduler" and y is not None:
            v.prove("records-its-staging-directory", same(v, at(it, y, "staging_dir"), sd))
    else:
        v.cover("refused")
        v.prove("failure-only-if-not-submitted", z3.Not(good))


# ---------------------------------------------------------------- local
@contract("C20", LOCAL + ".start_process", "start_process", assumes=["os.open, os.close and asyncio.create_subprocess_exec behave as documented"])
def start_process(v):
    it, ctx = v.it, v.ctx
    w = World(v, LOCAL)
    v.expect_covers("started", "failed")
    log = []
    rec = lambda *a: ctx.mut_append(log, a)
    pre = v.fake("preexec")

    def make_pre(it2, a, k):
        v.prove("runs-as-its-own-owner", z3.BoolVal(it.resolve(a[0]) is w.cluster))
        return pre

    w.o.attrs["make_preexec_fn"] = v.native(make_pre)
    fails = v.choose("ok", "open-fails", "spawn-fails")

    def os_open(it2, a, k):
        if fails == "open-fails":
            it.raise_(OSError, "exists")
        rec("open", a[0])
        return 7

    it.lib["os.open"] = os_open
    it.lib["os.close"] = lambda it2, a, k: rec("close", a[0])

    def spawn(a, k):
        if fails == "spawn-fails":
            it.raise_(OSError, "not found")
        rec("spawn", a, k)
        return v.fake("Process", pid=v.int("pid"))

    it.lib["asyncio.create_subprocess_exec"] = lambda it2, a, k: Coro(lambda: spawn(a, k), "spawn")
    cmd = VList([v.str("cmd0"), v.str("cmd1")])
    env = v.pydict({"E": v.str("e")})
    v.case(lambda ev: {"kind": "local"})
    out = v.run(LOCAL + ".start_process", w.o, w.cluster, cmd, env, v.str("log_name"))
    opened, closed = [e for e in log if e[0] == "open"], [e for e in log if e[0] == "close"]
    v.prove("log-file-descriptor-is-closed", z3.BoolVal(len(opened) == len(closed)))
    if fails != "ok":
        v.cover("failed")
        v.prove("failure-is-reported", z3.BoolVal(not out.ok))
        return
    if not v.ok_or(out, "process-started"):
        return
    v.cover("started")
    sp = [e for e in log if e[0] == "spawn"]
    if len(sp) != 1:
        v.prove("started-once", z3.BoolVal(False))
        return
    _, a, k = sp[0]
    v.prove("own-command", z3.And([z3.BoolVal(len(a) == 2)] + [same(v, x, y) for x, y in zip(a, cmd.items)]))
    v.prove("own-environment", z3.BoolVal(it.resolve(k.get("env")) is env))
    v.prove("user-is-switched-before-the-command-runs", z3.BoolVal(k.get("preexec_fn") is pre))
    v.prove("returns-its-process", v.eq(out.val, SInt(z3.Int("pid"))))


@contract("C20", LOCAL + ".make_preexec_fn", "preexec", assumes=["the password database maps the owner to his own user and group"])
def preexec(v):
    it, ctx = v.it, v.ctx
    w = World(v, LOCAL)
    uid, gid = v.int("uid"), v.int("gid")
    log = []

    def getpw(it2, a, k):
        v.prove("user-of-the-cluster", v.eq(a[0], w.cluster.attrs["username"]))
        return v.fake("pw", pw_uid=uid, pw_gid=gid, pw_dir=v.str("home"))

    it.overrides[B + "local.getpwnam"] = getpw
    it.lib["pwd.getpwnam"] = getpw
    grp = z3.DeclareSort("Grp")
    it.lib["grp.getgrall"] = lambda it2, a, k: VList([])
    fail = v.choose("ok", "setgid-fails", "setgroups-fails", "setuid-fails")

    def sysc(name):
        def fn(it2, a, k):
            ctx.mut_append(log, (name, a))
            if fail == name + "-fails":
                it.raise_(PermissionError, name)
        return fn

    for n in ("setgid", "setgroups", "setuid", "chdir"):
        it.lib["os." + n] = sysc(n)
    v.case(lambda ev: {"kind": "local"})
    out = v.run(LOCAL + ".make_preexec_fn", w.o, w.cluster)
    if not v.ok_or(out, "prepared"):
        return
    v.prove("gateway-itself-keeps-its-user", z3.BoolVal(not log))
    r = v.attempt(lambda: it.call(out.val, []))
    names = [n for n, _ in log]
    if fail in ("setgid-fails", "setuid-fails"):
        v.prove("no-process-without-the-owners-identity", z3.BoolVal(not r.ok))
        return
    if not v.ok_or(r, "switches-user"):
        return
    v.cover("switched")
    d = dict(log)
    v.prove("group-before-user", z3.BoolVal(names.count("setgid") == 1 and names.count("setuid") == 1 and names.index("setgid") < names.index("setuid") and "setgroups" in names and names.index("setgroups") < names.index("setuid")))
    v.prove("identity-of-the-owner", z3.And(v.eq(d["setgid"][0], gid), v.eq(d["setuid"][0], uid)) if "setgid" in d and "setuid" in d else z3.BoolVal(False))
    v.prove("runs-in-its-own-directory", v.eq(d["chdir"][0], w.cluster.attrs["state"].d[hk("workdir")][1]) if "chdir" in d else z3.BoolVal(False))


def local_start(v, who):
    it, ctx = v.it, v.ctx
    w = World(v, LOCAL)
    wd = v.str("new_workdir")
    env, cmd = v.pydict({"E": v.str("e")}), VList([v.str("c")])
    own = lambda a: it.resolve(a[0]) is w.cluster
    checks = []

    def mk(n, val):
        def fn(it2, a, k):
            v.prove(n + "-of-its-own-cluster", z3.BoolVal(own(a)))
            if n == "worker-command":
                v.prove("worker-command-with-its-own-name", v.eq((list(a) + list(k.values()))[1], w.worker.attrs["name"]))
            return val
        return v.native(fn)

    w.o.attrs["get_scheduler_command"] = mk("scheduler-command", cmd) if who == "scheduler" else v.native(lambda it2, a, k: VList([]))
    w.o.attrs["get_worker_command"] = mk("worker-command", cmd) if who == "worker" else v.native(lambda it2, a, k: VList([]))
    w.o.attrs["get_scheduler_env"] = mk("scheduler-environment", env) if who == "scheduler" else v.native(lambda it2, a, k: v.pydict({}))
    w.o.attrs["get_worker_env"] = mk("worker-environment", env) if who == "worker" else v.native(lambda it2, a, k: v.pydict({}))
    w.o.attrs["setup_working_directory"] = mk("working-directory", wd)
    started = []
    pid = v.int("pid")

    def start(it2, a, k):
        ctx.mut_append(started, (list(a) + list(k.values()), len(yields)))
        return pid

    w.o.attrs["start_process"] = v.afn(start)
    yields = []
    ctx.state["yield_hook"] = lambda it2, x, env: ctx.mut_append(yields, x)
    v.case(lambda ev: {"kind": "local"})
    out = v.run(LOCAL + (".do_start_cluster" if who == "scheduler" else ".do_start_worker"), w.o, w.cluster if who == "scheduler" else w.worker)
    if not v.ok_or(out, "started"):
        return
    v.cover("started")
    v.prove("started-once-with-its-own-command-and-environment", z3.BoolVal(len(started) == 1 and it.resolve(started[0][0][0]) is w.cluster and it.resolve(started[0][0][1]) is cmd and it.resolve(started[0][0][2]) is env))
    last = yields[-1] if yields else None
    v.prove("records-its-process", same(v, at(it, last, "pid"), pid) if last is not None else z3.BoolVal(False))
    if who == "scheduler":
        v.prove("records-its-directory", z3.And([same(v, at(it, y, "workdir"), wd) for y in yields]))
        v.prove("directory-is-recorded-before-the-process-starts", z3.BoolVal(bool(started) and started[0][1] >= 1))


for _w in ("scheduler", "worker"):
    contract("C20", LOCAL + (".do_start_cluster" if _w == "scheduler" else ".do_start_worker"), "local_start_" + _w)(lambda v, w=_w: local_start(v, w))


# ---------------------------------------------------------------- YARN
def skein(it, v):
    for n in ("Master", "Resources", "Service", "ApplicationSpec", "Security", "ApplicationClient"):
        def mk(it2, a, k, n=n):
            return Obj(Fake(n), {"g_args": tuple(a), **{x: it.resolve(y) for x, y in k.items()}})

        it.lib["skein." + n] = mk
    it.lib["skein.File.from_dict"] = lambda it2, a, k: Obj(Fake("File"), {"of": a[0]})


@contract("C20", YARN + "._build_specification", "yarn_specification")
def yarn_spec(v):
    it, ctx = v.it, v.ctx
    w = World(v, YARN, env="named")
    skein(it, v)
    extra = v.choose("no-files", "files") == "files"
    w.config.attrs["localize_files"] = v.pydict({"data.txt": v.str("user_file")} if extra else {})
    own_paths(v, w)
    crt, key = v.str("local_cert"), v.str("local_key")
    v.case(lambda ev: {"kind": "yarn"})
    out = v.run(YARN + "._build_specification", w.o, w.cluster, crt, key)
    if not v.ok_or(out, "specification-built"):
        return
    v.cover("built")
    s = it.resolve(out.val)
    g = lambda o, n: o.attrs.get(n, c25.MISS) if isinstance(o, Obj) else c25.MISS
    m = g(s, "master")
    svc = it.resolve(g(s, "services"))
    if not (isinstance(m, Obj) and isinstance(svc, VDict) and len(svc.d) == 1 and not svc.parts):
        v.prove("one-kind-of-worker", z3.BoolVal(False))
        return
    ws = at(it, svc, "dask.worker")
    v.prove("runs-as-the-owner", same(v, g(s, "user"), w.cluster.attrs["username"]))
    v.prove("configured-queue", same(v, g(s, "queue"), w.c["queue"]))
    for who, o in (("scheduler", m), ("worker", ws)):
        res = g(o, "resources")
        v.prove(who + "-cores", same(v, g(res, "vcores"), w.c[who + "_cores"]))
        v.prove(who + "-memory", same(v, g(res, "memory"), it.binop("+", to_str(it, w.c[who + "_memory"]), " b")))
        env = w.call(f"get_{who}_env", w.cluster).val
        v.prove(who + "-environment", same(v, g(o, "env"), {k: x for k, x in env.d.values()}))
        command = w.call("get_scheduler_command", w.cluster) if who == "scheduler" else w.call("get_worker_command", w.cluster, "$DASK_GATEWAY_WORKER_NAME", scheduler_address="$DASK_GATEWAY_SCHEDULER_ADDRESS")
        line = it.sterm(it.resolve(it.call(it.getattr(" ", "join"), [command.val])))
        v.prove(who + "-runs-setup-and-command", same(v, g(o, "script"), SStr(z3.Concat(w.c[who + "_setup"].t, z3.StringVal("\n"), line))))
        want = {"dask.crt": crt, "dask.pem": key}
        if extra:
            want["data.txt"] = it.getitem(w.config.attrs["localize_files"], "data.txt")
        v.prove(who + "-files", same(v, g(o, "files"), want))
    v.prove("no-workers-until-asked", same(v, g(ws, "instances"), 0))
    sec = g(m, "security")
    v.prove("own-security", z3.And(same(v, g(sec, "cert_bytes"), SBytes(z3.String("tls_cert"))), same(v, g(sec, "key_bytes"), SBytes(z3.String("tls_key")))))


@contract("C20", YARN + ".do_start_worker", "yarn_worker")
def yarn_worker(v):
    it, ctx = v.it, v.ctx
    w = World(v, YARN)
    asked = []
    cid = v.str("container_id")

    def client(it2, a, k):
        v.prove("application-of-its-own-cluster", z3.BoolVal(it.resolve(a[0]) is w.cluster))
        return v.fake("app", add_container="add-container")

    def apply(it2, a, k):
        ctx.mut_append(asked, (list(a), k))
        return v.fake("container", id=cid)

    w.o.attrs["_get_app_client"], w.o.attrs["async_apply"] = v.afn(client), v.afn(apply)
    yields = []
    ctx.state["yield_hook"] = lambda it2, x, n: ctx.mut_append(yields, x)
    v.case(lambda ev: {"kind": "yarn"})
    out = v.run(YARN + ".do_start_worker", w.o, w.worker)
    if not v.ok_or(out, "started"):
        return
    v.cover("started")
    v.prove("one-container", z3.BoolVal(len(asked) == 1 and asked[0][0][:2] == ["add-container", "dask.worker"]))
    if not asked:
        return
    v.prove("own-name-and-scheduler", same(v, asked[0][1].get("env"), {"DASK_GATEWAY_WORKER_NAME": w.worker.attrs["name"], "DASK_GATEWAY_SCHEDULER_ADDRESS": w.cluster.attrs["scheduler_address"]}))
    v.prove("records-its-container", same(v, at(it, yields[-1], "container_id"), cid) if yields else z3.BoolVal(False))


# ---------------------------------------------------------------- in process
@contract("C20", INPROC + ".get_security", "inprocess_identity")
def inprocess(v):
    it, ctx = v.it, v.ctx
    w = World(v, INPROC)
    cert, key = own_paths(v, w)
    it.lib["distributed.Security"] = lambda it2, a, k: Obj(Fake("Security"), dict(k))
    got = []
    it.overrides["dask_gateway.scheduler_preload.make_gateway_client"] = lambda it2, a, k: ctx.mut_append(got, k) or v.fake("client")
    it.lib["dask_gateway.scheduler_preload.make_gateway_client"] = it.overrides["dask_gateway.scheduler_preload.make_gateway_client"]
    v.case(lambda ev: {"kind": "local"})
    out = w.call("get_security", w.cluster)
    v.rep.paths += 1
    if not v.ok_or(out, "security"):
        return
    s = it.resolve(out.val).attrs
    want = {"tls_ca_file": cert, "tls_scheduler_cert": cert, "tls_scheduler_key": key, "tls_worker_cert": cert, "tls_worker_key": key}
    v.prove("own-tls-files", z3.And([same(v, s.get(n, c25.MISS), x) for n, x in want.items()]))
    out = w.call("get_gateway_client", w.cluster)
    if not v.ok_or(out, "client"):
        return
    cl = w.cluster.attrs
    v.prove("own-identity", z3.And([z3.BoolVal(len(got) == 1)] + [same(v, got[0].get(n, c25.MISS), x) for n, x in (("cluster_name", cl["name"]), ("api_token", cl["token"]), ("api_url", w.o.attrs["api_url"]))] if got else [z3.BoolVal(False)]))
