"""Environment, command line and submission of every backend."""
import asyncio
import json
import math
import os
import pwd
import random
import types

from . import c25
from .backends import CLASSES, Patch, Proc, Spawn, cluster, local, make, pbs, slurm, Obj

TLSV = {"scheduler": ("DASK_DISTRIBUTED__COMM__TLS__SCHEDULER__KEY", "DASK_DISTRIBUTED__COMM__TLS__SCHEDULER__CERT"),
        "worker": ("DASK_DISTRIBUTED__COMM__TLS__WORKER__KEY", "DASK_DISTRIBUTED__COMM__TLS__WORKER__CERT")}
KINDS = ("env", "command", "submit", "memory", "start_job", "local", "yarn", "kube")


def cases(tier, seed):
    rng = random.Random(seed)
    n = {"quick": 5000, "deep": 30000, "thorough": 200000}[tier]
    for i in range(n):
        yield {"kind": ["submit", "kube", "memory", "start_job", "local", "pod"][i % 6], "seed": rng.randrange(1 << 30)}


def run(case):
    k = case["kind"]
    if k == "pod":
        return c25.run(case)
    fns = {"env": [submit, kube], "command": [submit, kube], "submit": [submit], "yarn": [submit], "memory": [memory], "start_job": [start_job], "local": [localrun], "kube": [kube]}.get(k)
    if fns is None:
        return []
    if "n" in case:
        return [x for x in memory_one(int(case["n"]))]
    for s in [case["seed"]] if "seed" in case else range(300):
        for fn in fns:
            out = []
            fn(random.Random(s), lambda c, m: out.append((c, m)))
            if out:
                return out
    return []


PW = types.SimpleNamespace(pw_dir="/home/x", pw_uid=1234, pw_gid=2345)


def conf(rng, name):
    kw = {"environment": {k: rng.choice([f"user{i}", f"user{i}", "", "0", "a b", "x=y", "None"]) for i, k in enumerate(rng.sample(c25.USERENV, rng.randint(0, 7)))}, "worker_cores": rng.choice([1, 2, 5]), "scheduler_cores": rng.choice([1, 3]),
          "worker_memory": rng.choice([20000, 2**20, 2**30, 2**30 + 1, 7 * 2**30, 2**34 + 5]), "scheduler_memory": rng.choice([2**30, 2**33, 10 * 2**20 + 7]), "adaptive_period": rng.choice([1, 2.5]),
          "idle_timeout": rng.choice([0, 30.5]), "scheduler_cmd": rng.choice([["dask-scheduler"], ["run", "sched"]]), "worker_cmd": rng.choice([["dask-worker"], ["run", "work"]])}
    if rng.random() < 0.5:
        kw["worker_threads"] = rng.choice([1, 4])
    if name in ("pbs", "slurm", "yarn"):
        kw["scheduler_setup"], kw["worker_setup"] = rng.choice(["", "source a"]), rng.choice(["", "source b"])
    if name == "pbs":
        kw["use_stagein"] = rng.random() < 0.5
        for k in ("queue", "account", "project"):
            kw[k] = rng.choice(["", k + "1"])
        if rng.random() < 0.4:
            kw["worker_resource_list"] = "ncpus={cores},mem={memory}"
    if name == "slurm":
        for k in ("partition", "account", "qos"):
            kw[k] = rng.choice(["", k + "1"])
    if name == "yarn":
        kw["queue"] = "q1"
    return kw


def amount(s):
    for u, n in (("GB", 2**30), ("MB", 2**20), ("kB", 2**10), ("B", 1), ("G", 2**30), ("M", 2**20), ("K", 2**10)):
        if s.endswith(u):
            return int(s[: -len(u)]) * n, n
    return int(s), 1


def memory_one(n):
    for fn, lo in ((pbs.qsub_format_memory, 0), (slurm.slurm_format_memory, 10240)):
        if n < lo:
            continue
        got, unit = amount(fn(n))
        if got < n or got - n >= max(unit, 1) or (unit > 1 and n < 10 * unit):
            yield (f"{fn.__name__}::at-least-the-configured-memory-rounded-up-to-the-unit", f"{n} -> {fn(n)}")


def memory(rng, bad):
    n = rng.choice([rng.randint(0, 20000), rng.randint(10240, 2**25), rng.randint(0, 2**42), 10 * 2 ** rng.choice([10, 20, 30]) + rng.randint(-1, 1), 2 ** rng.randint(0, 45)])
    for c, m in memory_one(n):
        bad(c, m)


def opt(cmd, n):
    xs = [cmd[i + 1] for i, x in enumerate(cmd[:-1]) if x == n]
    return xs[0] if len(xs) == 1 else xs


def expect_env(b, c, env, who, paths, bad, name, extra=()):
    want = {"DASK_GATEWAY_API_URL": b.api_url, "DASK_GATEWAY_API_TOKEN": c.token, "DASK_GATEWAY_CLUSTER_NAME": c.name, "DASK_DISTRIBUTED__COMM__REQUIRE_ENCRYPTION": "True",
            "DASK_DISTRIBUTED__COMM__TLS__CA_FILE": paths[0], TLSV[who][0]: paths[1], TLSV[who][1]: paths[0], **dict(extra)}
    for k, x in want.items():
        if env.get(k) != x:
            bad(f"{name}.get_{who}_env::{k}", f"{env.get(k)!r} instead of {x!r} (user configured {dict(c.config.environment)})")
    for k, x in c.config.environment.items():
        if name == "local" and k in b.inherited_environment and k in os.environ:
            x = os.environ[k]
        if k not in want and env.get(k) != x:
            bad(f"{name}.get_{who}_env::user-variables-are-kept", f"{k}: {env.get(k)!r}")
    for k in env:
        if k not in want and k not in c.config.environment and k not in ("PATH", "LANG", "PYTHONPATH", "CONDA_ROOT", "CONDA_DEFAULT_ENV", "VIRTUAL_ENV", "LC_ALL"):
            bad(f"{name}.get_{who}_env::only-configured-variables", k)


def submit(rng, bad):
    name = rng.choice(["local", "pbs", "slurm", "yarn"])
    b = make(name)
    b.api_url = f"http://gw{rng.randint(0, 9)}/api"
    b.cluster_heartbeat_period = rng.choice([5, 17])
    kw = conf(rng, name)
    cs = [cluster(rng, name, i, {"workdir": f"/w/{i}"}, **kw) for i in range(2)]
    c = rng.choice(cs)
    who = rng.choice(["scheduler", "worker"])
    w = Obj(name=f"wk{rng.randint(0, 99)}", cluster=c, state={})
    with Patch(pwd, getpwnam=lambda u: types.SimpleNamespace(pw_dir="/home/" + u, pw_uid=1, pw_gid=1)):
        d = f"/home/{c.username}/.dask-gateway/{c.name}"
        paths = {"local": (f"/w/{cs.index(c)}/.certs/dask.crt", f"/w/{cs.index(c)}/.certs/dask.pem"), "yarn": ("dask.crt", "dask.pem"),
                 "slurm": (d + "/dask.crt", d + "/dask.pem"), "pbs": ("dask.crt", "dask.pem") if kw.get("use_stagein") else (d + "/dask.crt", d + "/dask.pem")}[name]
        env = getattr(b, f"get_{who}_env")(c)
        expect_env(b, c, env, who, paths, bad, name, {"USER": c.username} if name == "local" else {})
        cmd = b.get_scheduler_command(c) if who == "scheduler" else b.get_worker_command(c, w.name)
        host = "127.0.0.1" if name == "local" else "0.0.0.0"
        if who == "scheduler":
            want = {"--protocol": "tls", "--host": host, "--port": "0", "--dg-api-address": host + ":0", "--dashboard-address": host + ":0", "--preload": "dask_gateway.scheduler_preload",
                    "--dg-heartbeat-period": str(b.cluster_heartbeat_period), "--dg-adaptive-period": str(float(kw["adaptive_period"])), "--dg-idle-timeout": str(float(kw["idle_timeout"]))}
        else:
            want = {"--name": w.name, "--nthreads": str(kw.get("worker_threads", kw["worker_cores"])), "--memory-limit": str(kw["worker_memory"])}
            if name == "yarn":
                want.update({"--nthreads": "$SKEIN_RESOURCE_VCORES", "--memory-limit": "${SKEIN_RESOURCE_MEMORY}MiB"})
            if cmd[len(kw["worker_cmd"])] != c.scheduler_address:
                bad(f"{name}.get_worker_command::address-of-its-own-scheduler", f"{cmd}")
        if cmd[: len(kw[who + "_cmd"])] != kw[who + "_cmd"]:
            bad(f"{name}.command::configured-program", f"{cmd}")
        for k, x in want.items():
            g = opt(cmd, k)
            if g != x and not (k.endswith(("period", "timeout")) and not isinstance(g, list) and float(g) == float(x)):
                bad(f"{name}.get_{who}_command::option{k}", f"{opt(cmd, k)!r} instead of {x!r}")
        if name == "yarn":
            s = b._build_specification(c, "/tmp/crt", "/tmp/pem")
            o = s.master if who == "scheduler" else s.services["dask.worker"]
            ok = s.user == c.username and s.queue == "q1" and o.resources.vcores == kw[who + "_cores"] and o.resources.memory == "%d b" % kw[who + "_memory"] and o.env == env and \
                o.files.get("dask.crt") == "/tmp/crt" and o.files.get("dask.pem") == "/tmp/pem" and s.master.security.kw == {"cert_bytes": c.tls_cert, "key_bytes": c.tls_key}
            if not ok:
                bad("yarn._build_specification::own-resources-and-files", f"{o.kw} {s.kw}")
            return
        if name == "local":
            return
        scmd, senv, stdin = b.get_submit_cmd_env_stdin(c, w) if who == "worker" else b.get_submit_cmd_env_stdin(c)
        if senv != env:
            bad(f"{name}.submit::environment-of-the-process", f"{senv}")
        if scmd[0] != b.submit_command:
            bad(f"{name}.submit::submit-command", f"{scmd}")
        line = " ".join(cmd)
        names = set(env)
        if name == "slurm":
            get = lambda p: [x[len(p):] for x in scmd if x.startswith(p)]
            chk = {"--cpus-per-task=": str(kw[who + "_cores"]), "--chdir=": d, "--job-name=": "dask-gateway"}
            for k in ("partition", "account", "qos"):
                if kw[k]:
                    chk[f"--{k}="] = kw[k]
                elif get(f"--{k}="):
                    bad(f"slurm.submit::configured-{k}", f"{scmd}")
            for k, x in chk.items():
                if get(k) != [x]:
                    bad(f"slurm.submit::{k}", f"{get(k)} instead of {x}")
            mem = get("--mem=")
            if len(mem) != 1 or mem[0] != slurm.slurm_format_memory(kw[who + "_memory"]):
                bad("slurm.submit::requests-the-configured-memory", f"{mem} for {kw[who + '_memory']}")
            if [set(x.split(",")) for x in get("--export=")] != [names]:
                bad("slurm.submit::passes-on-the-environment", f"{get('--export=')}")
            if stdin != "#!/bin/sh\n" + kw[who + "_setup"] + "\n" + line:
                bad("slurm.submit::runs-setup-and-command", f"{stdin!r}")
        else:
            tmpl = kw.get("worker_resource_list", "select=1:ncpus={cores}:mem={memory}") if who == "worker" else "select=1:ncpus={cores}:mem={memory}"
            if opt(scmd, "-l") != tmpl.format(cores=kw[who + "_cores"], memory=pbs.qsub_format_memory(kw[who + "_memory"])):
                bad("pbs.submit::requests-the-configured-resources", f"{opt(scmd, '-l')}")
            if set(str(opt(scmd, "-v")).split(",")) != names:
                bad("pbs.submit::passes-on-the-environment", f"{opt(scmd, '-v')}")
            if opt(scmd, "-c") != kw[who + "_setup"] + "\n" + line:
                bad("pbs.submit::runs-setup-and-command", f"{opt(scmd, '-c')!r}")
            for f, k in (("-q", "queue"), ("-A", "account"), ("-P", "project")):
                if opt(scmd, f) != (kw[k] or []):
                    bad(f"pbs.submit::configured-{k}", f"{scmd}")
            st = [x for x in scmd if x.startswith("-Wstagein")]
            if st != ([f"-Wstagein=.@{b.gateway_hostname}:{d}/*"] if kw["use_stagein"] else []):
                bad("pbs.submit::credentials-are-staged-in", f"{st}")


def kube(rng, bad):
    c = c25.controller(rng)
    kw = c25.make(rng)
    cfg = c25.FrozenAttrDict(c25.KubeClusterConfig(**kw).to_dict())
    ns, name = rng.choice(["ns", "prod"]), f"c{rng.randint(0, 99)}"
    env = [c25.plain(x) for x in c.get_env(ns, name, cfg)]
    names = [x["name"] for x in env]
    p = "/etc/dask-credentials/"
    want = {"DASK_GATEWAY_API_URL": c.api_url, "DASK_GATEWAY_CLUSTER_NAME": f"{ns}.{name}", "DASK_GATEWAY_API_TOKEN": p + "api-token", "DASK_DISTRIBUTED__COMM__TLS__CA_FILE": p + "dask.crt"}
    for k in TLSV["scheduler"] + TLSV["worker"]:
        want[k] = p + ("dask.pem" if k.endswith("KEY") else "dask.crt")
    want = {**kw["environment"], **want}
    if {x["name"]: x.get("value") for x in env} != want or len(names) != len(set(names)):
        bad("kube.get_env::own-identity", f"{env} instead of {want}")
    cmd = c25.plain(c.get_scheduler_command(ns, name, cfg))
    exp = {"--protocol": "tls", "--port": "8786", "--dashboard-address": ":8787", "--dg-api-address": ":8788", "--preload": "dask_gateway.scheduler_preload", "--dg-heartbeat-period": "0",
           "--dg-adaptive-period": str(cfg.adaptive_period), "--dg-idle-timeout": str(cfg.idle_timeout)}
    for k, x in exp.items():
        if opt(cmd, k) != x:
            bad(f"kube.get_scheduler_command::option{k}", f"{opt(cmd, k)!r} instead of {x!r}")
    if cmd[: len(kw["scheduler_cmd"])] != kw["scheduler_cmd"]:
        bad("kube.get_scheduler_command::configured-program", f"{cmd}")
    cmd = c25.plain(c.get_worker_command(ns, name, cfg))
    exp = {"--name": "$(DASK_GATEWAY_WORKER_NAME)", "--nthreads": str(kw["worker_threads"]), "--memory-limit": str(kw.get("worker_memory_limit", kw["worker_memory"]))}
    for k, x in exp.items():
        if opt(cmd, k) != x:
            bad(f"kube.get_worker_command::option{k}", f"{opt(cmd, k)!r} instead of {x!r}")
    n = len(kw["worker_cmd"])
    if cmd[:n] != kw["worker_cmd"] or cmd[n] != f"tls://{c.make_service(name)['metadata']['name']}.{ns}:8786":
        bad("kube.get_worker_command::address-of-its-own-scheduler", f"{cmd}")


def start_job(rng, bad):
    name = rng.choice(["pbs", "slurm"])
    b = make(name)
    b.api_url = "http://gw/api"
    c = cluster(rng, name, rng.randint(0, 3), {"staging_dir": "/s/x", "job_id": "17"}, **conf(rng, name))
    w = Obj(name=f"wk{rng.randint(0, 99)}", cluster=c, state={"job_id": "18"})
    who = rng.choice(["scheduler", "worker"])
    lc = rng.choice([0, 0, 0, 1])
    res = {"ok": rng.random() < 0.8, "error": "bad", "returncode": rng.choice([0, 0, 0, 3]), "stdout": " 123\n", "stderr": ""}
    stop = rng.random() < 0.3
    if stop:
        res["stderr"] = rng.choice(["", "Job has finished", "error"])

    async def go():
        if stop:
            await (b.do_stop_cluster(c) if who == "scheduler" else b.do_stop_worker(w))
            return None
        return [x async for x in (b.do_start_cluster(c) if who == "scheduler" else b.do_start_worker(w))]

    with Patch(pwd, getpwnam=lambda u: types.SimpleNamespace(pw_dir="/home/" + u, pw_uid=1, pw_gid=1)):
        proc = Proc(lc, json.dumps(res).encode())
        with Spawn(proc) as sp:
            try:
                r = asyncio.run(go())
                err = None
            except Exception as e:
                r, err = None, e
        want = b.get_submit_cmd_env_stdin(c, w) if who == "worker" else b.get_submit_cmd_env_stdin(c)
        d = b.get_staging_directory(c)
    good = lc == 0 and res["ok"] and (res["returncode"] == 0 or stop and "Job has finished" in res["stderr"])
    if (err is None) != good:
        bad(f"{name}.start_job::job-started-only-if-submitted", f"{res} launcher exit {lc}: {err!r}")
    if len(sp.calls) != 1:
        bad(f"{name}.start_job::started-once", f"{len(sp.calls)}")
        return
    cmd, kw = sp.calls[0]
    if cmd != ("sudo", "-nHu", c.username, b.dask_gateway_jobqueue_launcher) or kw.get("env") != {}:
        bad(f"{name}.start_job::runs-as-the-owner", f"{cmd} {kw.get('env')}")
    p = json.loads(proc.sent.decode())
    if stop:
        ok = p["action"] == "stop" and p["cmd"] == [b.cancel_command, "17" if who == "scheduler" else "18"] and p.get("staging_dir") == ("/s/x" if who == "scheduler" else None)
        if not ok:
            bad(f"{name}.stop_job::cancels-its-own-job", f"{p}")
        return
    ok = p["action"] == "start" and [p["cmd"], p["env"], p["stdin"]] == [want[0], want[1], want[2]]
    if not ok:
        bad(f"{name}.start_job::submits-its-own-job", f"{p}")
    if who == "scheduler" and (p["staging_dir"] != d or p["files"] != {"dask.pem": c.tls_key.decode(), "dask.crt": c.tls_cert.decode()}):
        bad(f"{name}.start_job::staged-credentials-are-its-own", f"{p['staging_dir']} {p['files']}")
    if good and (r[-1].get("job_id") != "123" or who == "scheduler" and r[-1].get("staging_dir") != d):
        bad(f"{name}.start_job::records-its-job", f"{r}")


def localrun(rng, bad):
    """LocalBackend.start_process and the identity switch; the system calls
    are replaced by stand-ins that only record."""
    import grp
    import tempfile

    b = make("local")
    b.api_url = "http://gw/api"
    log = []
    fail = rng.choice([None, None, "setuid", "setgroups", "setgid"])

    def rec(n):
        def fn(*a):
            log.append((n, a))
            if n == fail:
                raise PermissionError(n)
        return fn

    groups = [types.SimpleNamespace(gr_gid=i, gr_mem=m) for i, m in ((5, ["user0"]), (6, ["user1", "user0"]), (7, []))]
    with tempfile.TemporaryDirectory() as tmp:
        cs = [cluster(rng, "local", i, {"workdir": f"{tmp}/{i}"}, **conf(rng, "local")) for i in range(2)]
        for i in range(2):
            os.makedirs(f"{tmp}/{i}/logs")
        c = rng.choice(cs)
        uid = {"user0": 1000, "user1": 1001}
        local.getpwnam.cache_clear()
        with Patch(pwd, getpwnam=lambda u: types.SimpleNamespace(pw_uid=uid[u], pw_gid=uid[u] + 50, pw_dir="/h")), Patch(grp, getgrall=lambda: groups), \
                Patch(os, setuid=rec("setuid"), setgid=rec("setgid"), setgroups=rec("setgroups"), chdir=rec("chdir"), chown=rec("chown")), Spawn(Proc(pid=99)) as sp:
            who = rng.choice(["scheduler", "worker"])
            w = Obj(name="wk1", cluster=c, state={})
            b.setup_working_directory = lambda cl: cl.state["workdir"]

            async def go():
                return [x async for x in (b.do_start_cluster(c) if who == "scheduler" else b.do_start_worker(w))]

            try:
                r = asyncio.run(go())
            except Exception as e:
                bad("local.start::started", repr(e))
                return
            if log:
                bad("local.make_preexec_fn::gateway-itself-keeps-its-user", f"{log}")
                return
            cmd, kw = sp.calls[0]
            env = getattr(b, f"get_{who}_env")(c)
            want = b.get_scheduler_command(c) if who == "scheduler" else b.get_worker_command(c, "wk1")
            if len(sp.calls) != 1 or list(cmd) != want or kw.get("env") != env or r[-1].get("pid") != 99:
                bad("local.start::started-once-with-its-own-command-and-environment", f"{sp.calls} {r}")
            try:
                kw["preexec_fn"]()
                ok = True
            except BaseException:
                ok = False
            finally:
                local.getpwnam.cache_clear()
        if fail in ("setuid", "setgid"):
            if ok:
                bad("local.preexec::no-process-without-the-owners-identity", f"{log}")
            return
        ns = [n for n, _ in log]
        d = dict(log)
        good = ok and d.get("setuid") == (uid[c.username],) and d.get("setgid") == (uid[c.username] + 50,) and d.get("chdir") == (c.state["workdir"],) and \
            list(d.get("setgroups", [[None]])[0]) == [g.gr_gid for g in groups if c.username in g.gr_mem] and ns.index("setgid") < ns.index("setuid") and ns.index("setgroups") < ns.index("setuid")
        if not good:
            bad("local.preexec::identity-of-the-owner", f"{log}")
