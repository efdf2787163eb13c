"""Liveness checks of every backend against simulated processes, queues and applications."""
import asyncio
import errno
import os
import random
import types

from .backends import Obj, Patch, Proc, Spawn, make

from distributed.core import Status

KINDS = ("local", "inprocess", "pbs", "slurm", "yarn")


def cases(tier, seed):
    rng = random.Random(seed)
    n = {"quick": 4000, "deep": 20000, "thorough": 200000}[tier]
    for i in range(n):
        yield {"kind": KINDS[i % 5], "seed": rng.randrange(1 << 30)}


def run(case):
    ks = [case["kind"]] if case["kind"] in KINDS else ["pbs", "slurm"] if case["kind"] == "jobs" else []
    for s in [case["seed"]] if "seed" in case else range(300):
        for k in ks:
            out = []
            rng = random.Random(s)
            asyncio.run(asyncio.wait_for(globals()[k](rng, rng.choice(["clusters", "workers"]), lambda c, m: out.append((c, f"{k} seed {s}: {m}"))), 20))
            if out:
                return out
    return []


async def ask(b, which, objs):
    try:
        return await getattr(b, f"do_check_{which}")(objs)
    except Exception as e:
        return e


def compare(bad, r, want, what=""):
    if isinstance(r, BaseException):
        bad("checked", f"the check raised {type(r).__name__}: {r} {what}")
    elif len(r) != len(want):
        bad("one-answer-for-each", f"{len(r)} answers for {len(want)} objects {what}")
    elif [bool(x) for x in r] != want:
        bad("alive-exactly-if-its-own-job-is-active", f"answers {list(r)}, expected {want} {what}")


async def local(rng, which, bad):
    b = make("local")
    alive = {p for p in range(100, 108) if rng.random() < 0.5}
    objs = [Obj(name=f"n{i}", state=rng.choice([{}, {"pid": 100 + i}])) for i in range(rng.randint(0, 6))]

    def kill(pid, sig):
        if sig != 0:
            bad("only-asks", f"signal {sig} sent to {pid}")
        if pid not in alive:
            raise ProcessLookupError(errno.ESRCH, "No such process")

    with Patch(os, kill=kill):
        r = await ask(b, which, objs)
    compare(bad, r, [o.state.get("pid") in alive for o in objs])


async def inprocess(rng, which, bad):
    b = make("inprocess")
    b.schedulers, b.workers = {}, {}
    objs = [Obj(name=f"n{i}", state={}) for i in range(rng.randint(0, 6))]
    want = []
    mine, other = (b.schedulers, b.workers) if which == "clusters" else (b.workers, b.schedulers)
    for o in objs:
        k = rng.choice(["none", "run", "init", "closed"])
        if k != "none":
            mine[o.name] = Obj(status={"run": Status.running, "init": Status.init, "closed": Status.closed}[k])
        if rng.random() < 0.3:
            other[o.name] = Obj(status=Status.running)
        want.append(k in ("run", "init"))
    compare(bad, await ask(b, which, objs), want)


async def jobs(rng, which, bad, b, render, alive, states):
    objs = [Obj(name=f"n{i}", state=rng.choice([{}, {"job_id": str(rng.randint(1, 20) * 100 + i)}])) for i in range(rng.randint(0, 6))]
    rng.shuffle(objs)
    known = {o.state["job_id"]: rng.choice(states) for o in objs if o.state and rng.random() < 0.8}
    asked = []
    mode = rng.choice(["ok", "ok", "error", "error-with-output"])
    ids = list(known)
    rng.shuffle(ids)
    text = render([(i, known[i]) for i in ids])

    def proc(cmd, kw):
        asked.append(cmd)
        if mode == "ok":
            return Proc(0, text.encode())
        return Proc(rng.choice([1, 35, 255]), text.encode() if mode == "error-with-output" else b"", b"cannot connect")

    with Spawn(proc):
        r = await ask(b, which, objs)
    need = [o.state["job_id"] for o in objs if o.state]
    if asked and mode != "ok":
        if not isinstance(r, BaseException):
            bad("an-error-is-never-an-answer", f"the status command failed, yet the check answered {r}")
        return
    if need and not asked:
        bad("one-query", f"nothing was asked about {need}")
    if asked:
        words = [w for c in asked for a in c for w in a.replace("=", ",").split(",")]
        for j in need:
            if j not in words:
                bad("asks-about-exactly-the-jobs", f"job {j} is not in the query {asked}")
    compare(bad, r, [bool(o.state) and known.get(o.state["job_id"]) in alive for o in objs], f"jobs {known}")


async def pbs(rng, which, bad):
    def render(rows):
        head = "Job id            Name             User              Time Use S Queue\n----------------  ---------------- ----------------  -------- - -----\n"
        return head + "".join(f"{i:<17} dask-gateway     alice             00:00:00 {s} workq\n" for i, s in rows)

    await jobs(rng, which, bad, make("pbs"), render, ("R", "Q", "H"), ["R", "Q", "H", "F", "E", "X"])


async def slurm(rng, which, bad):
    await jobs(rng, which, bad, make("slurm"), lambda rows: "".join(f"{i} {s}\n" for i, s in rows), ("R", "CG", "PD", "CF"),
               ["R", "CG", "PD", "CF", "CA", "CD", "F", "TO", "NF"])


class HObj(Obj):
    pass


async def yarn(rng, which, bad):
    b = make("yarn")
    b.log.setLevel(100)

    async def apply(fn, *a, **k):
        return fn(*a, **k)

    b.async_apply = apply
    if which == "clusters":
        objs = [Obj(name=f"n{i}", state=rng.choice([{}, {"app_id": f"app{i}"}])) for i in range(rng.randint(0, 6))]
        st = {f"app{i}": rng.choice(["ACCEPTED", "RUNNING", "FAILED", "KILLED", "FINISHED", "NEW", "SUBMITTED"]) for i in range(6)}
        b.skein_client = Obj(application_report=lambda i: Obj(state=st[i]))
        compare(bad, await ask(b, which, objs), [bool(o.state) and st[o.state["app_id"]] not in ("FAILED", "KILLED", "FINISHED") for o in objs], f"{st}")
        return
    cs = [HObj(name=f"c{i}", state={"app_id": f"app{i}"}) for i in range(3)]
    fail = {c.name for c in cs if rng.random() < 0.2}
    active = {c.name: {f"ct{rng.randint(0, 9)}" for _ in range(4)} for c in cs}
    ws = [Obj(name=f"w{i}", cluster=rng.choice(cs), state=rng.choice([{}, {"container_id": f"ct{rng.randint(0, 9)}"}])) for i in range(rng.randint(0, 8))]

    async def client(c):
        def get(services=None):
            if c.name in fail:
                raise ValueError("gone")
            if tuple(services or ()) != ("dask.worker",):
                bad("asks-for-workers", f"asked for {services}")
            return [Obj(id=i) for i in active[c.name]]

        return Obj(get_containers=get)

    b._get_app_client = client
    compare(bad, await ask(b, which, ws), [w.cluster.name not in fail and w.state.get("container_id") in active[w.cluster.name] for w in ws], f"{active} failing {fail}")
