"""Credentials on a scratch disk: the real files, with failures injected.  Only
operations inside the scratch directory are carried out; others are refused and
reported."""
import asyncio
import builtins
import io
import json
import os
import random
import shutil
import stat
import subprocess
import sys
import tempfile

from .backends import Obj, Patch, cluster, inprocess as inpmod, local as localmod, make

from dask_gateway import client as gwclient
from dask_gateway_server.backends.jobqueue import launcher as lmod

KINDS = ("local", "inprocess", "launcher", "jobqueue", "client")


def cases(tier, seed):
    rng = random.Random(seed)
    n = {"quick": 2500, "deep": 10000, "thorough": 100000}[tier]
    for i in range(n):
        yield {"kind": KINDS[i % len(KINDS)], "seed": rng.randrange(1 << 30)}


def run(case):
    if case["kind"] not in KINDS:
        return []
    for s in [case["seed"]] if "seed" in case else range(200):
        out = []
        rng = random.Random(s)
        root = tempfile.mkdtemp(prefix="c21-")
        old = os.umask(rng.choice([0, 0o022, 0o077]))
        try:
            with Guard(root, rng, lambda c, m: out.append((c, f"{case['kind']} seed {s}: {m}"))) as g:
                globals()[case["kind"]](rng, g)
        finally:
            os.umask(old)
            for d, ds, fs in os.walk(root):
                os.chmod(d, 0o700)
            shutil.rmtree(root, ignore_errors=True)
        if out:
            return out
    return []


class Injected(OSError):
    pass


class Guard:
    """Stand-ins that act inside root only, record, and fail on demand."""

    def __init__(self, root, rng, bad):
        self.root, self.rng, self.bad = root, rng, bad
        self.fail_at, self.n, self.failed = None, 0, None
        self.created, self.owner, self.active = [], {}, True

    def inside(self, p):
        p = os.path.realpath(os.path.abspath(p))
        return p == self.root or p.startswith(self.root + os.sep)

    def step(self, what, path):
        if not self.inside(path):
            self.bad("inside-its-directory", f"{what} of {path}, outside the directories it was given")
            raise Injected(f"{what} refused outside of the scratch directory")
        self.n += 1
        if self.fail_at == self.n:
            self.failed = what
            raise Injected(f"{what} fails")

    def note(self, path, mode):
        self.created.append((path, mode & 0o777))

    def __enter__(self):
        self.root = os.path.realpath(self.root)
        r = self.real = {"makedirs": os.makedirs, "mkdir": os.mkdir, "open": os.open, "chown": os.chown, "chmod": os.chmod, "rmtree": shutil.rmtree, "remove": os.remove, "unlink": os.unlink,
                         "rmdir": os.rmdir, "bopen": builtins.open, "rename": os.rename}
        self.saved_tmp = tempfile.tempdir
        tempfile.tempdir = self.root
        g = self

        def mkdir(p, mode=0o777, *a, **k):
            p = os.fspath(p)
            if not os.path.isdir(p):
                g.step("mkdir", p)
            r["mkdir"](p, mode, *a, **k)
            g.note(p, os.stat(p).st_mode)

        def mkopen(p, flags, mode=0o777, *a, **k):
            if not isinstance(p, (str, os.PathLike)):
                return r["open"](p, flags, mode, *a, **k)
            if flags & os.O_CREAT and g.inside(p):
                g.step("open", p)
                was = os.path.exists(p)
                fd = r["open"](p, flags, mode, *a, **k)
                if not was:
                    g.note(p, os.fstat(fd).st_mode)
                return fd
            if flags & (os.O_CREAT | os.O_WRONLY | os.O_RDWR):
                if p == os.devnull:
                    return r["open"](p, flags, mode, *a, **k)
                g.step("open", p)
            return r["open"](p, flags, mode, *a, **k)

        def bopen(p, mode="r", *a, **k):
            if isinstance(p, int) or not set(mode) & set("wax+"):
                return r["bopen"](p, mode, *a, **k)
            g.step("open", p)
            was = os.path.exists(p)
            f = r["bopen"](p, mode, *a, **k)
            if not was:
                g.note(os.fspath(p), os.fstat(f.fileno()).st_mode)
            return f

        def chown(p, u, gr, **k):
            g.step("chown", p)
            g.owner[p] = (u, gr)

        def guarded(name):
            def f(p, *a, **k):
                if k.get("dir_fd") is not None:
                    return r[name](p, *a, **k)
                if not g.inside(p):
                    g.bad("inside-its-directory", f"{name} of {p}")
                    raise Injected(name + " refused")
                return r[name](p, *a, **k)

            return f

        def rmtree(p, *a, **k):
            if not g.inside(p) or os.path.realpath(p) == g.root:
                g.bad("removes-only-its-directory", f"rmtree of {p}")
                raise Injected("rmtree refused")
            return r["rmtree"](p, *a, **k)

        os.mkdir, os.open, os.chown, os.chmod = mkdir, mkopen, chown, guarded("chmod")
        shutil.rmtree = rmtree
        os.remove, os.unlink, os.rmdir = guarded("remove"), guarded("unlink"), guarded("rmdir")
        builtins.open = bopen
        return self

    def __exit__(self, *a):
        r = self.real
        os.mkdir, os.open, os.chown, os.chmod = r["mkdir"], r["open"], r["chown"], r["chmod"]
        shutil.rmtree = r["rmtree"]
        os.remove, os.unlink, os.rmdir = r["remove"], r["unlink"], r["rmdir"]
        builtins.open = r["bopen"]
        tempfile.tempdir = self.saved_tmp

    def mk(self, p):
        keep = list(self.created), self.n
        self.real["makedirs"](p)
        self.created, self.n = keep

    def secrets(self, *data):
        """Files below root that contain any of data."""
        out = []
        for d, _, fs in os.walk(self.root):
            for f in fs:
                with self.real["bopen"](os.path.join(d, f), "rb") as fh:
                    c = fh.read()
                if any(x in c for x in data):
                    out.append(os.path.join(d, f))
        return out

    def check_private(self, base, files_too):
        """Everything below base was created so that others cannot reach it."""
        for p, mode in self.created:
            if p == base or p.startswith(base + os.sep):
                if (os.path.isdir(p) or p == base or files_too) and mode & 0o077:
                    if p != base and not files_too:
                        continue
                    self.bad("created-for-the-owner-only", f"{p} was created with mode {oct(mode)}")


def local(rng, g):
    asyncio.run(asyncio.wait_for(_local(rng, g, "local"), 20))


def inprocess(rng, g):
    asyncio.run(asyncio.wait_for(_local(rng, g, "inprocess"), 20))


async def collect(gen, out):
    async for x in gen:
        out.append(x)


async def _local(rng, g, kind):
    b = make(kind)
    if rng.random() < 0.5:
        b.clusters_directory = os.path.join(g.root, "clusters")
        g.mk(b.clusters_directory)
    cs = [cluster(rng, kind, i) for i in range(2)]
    for i, c in enumerate(cs):
        c.name = f"cl{i}"
    mine, other = cs
    pw = Obj(pw_uid=4321, pw_gid=5432)
    looked = []

    def getpwnam(u):
        looked.append(u)
        return pw

    started = []

    async def start_process(c, cmd, env, name):
        started.append(c.name)
        if mode == "start-fails" and c is mine:
            raise RuntimeError("start")
        return 77

    stopping = []

    async def stop_process(pid):
        stopping.append(pid)
        if mode == "stop-fails":
            raise RuntimeError("stop")
        if mode == "stop-cancelled":
            raise asyncio.CancelledError()

    mode = rng.choice(["ok", "setup-fails", "start-fails", "stop-fails", "stop-cancelled", "partial"])
    b.start_process, b.stop_process = start_process, stop_process
    b.get_scheduler_command = b.get_scheduler_env = lambda c: {}

    async def close(*a, **k):
        await stop_process(1)

    if kind == "inprocess":
        b.schedulers, b.workers = {}, {}
    old = localmod.getpwnam
    localmod.getpwnam = getpwnam
    try:
        logs = {}
        for c in (other, mine):
            logs[c.name] = rec = []
            if mode == "setup-fails" and c is mine:
                g.fail_at = g.n + rng.randint(1, 10)
            try:
                if kind == "inprocess":
                    rec.append({"workdir": b.setup_working_directory(c)})
                    if mode != "partial" or c is not mine:
                        b.schedulers[c.name] = Obj(close=close, stop=lambda: None)
                else:
                    await collect(b.do_start_cluster(c), rec)
                failed = None
            except Exception as e:
                failed = e
            g.fail_at = None
            if g.failed and c is mine and failed is None:
                g.bad("a-failed-step-is-reported", f"{g.failed} failed, yet the start went on")
            if failed is not None and not (g.failed or mode == "start-fails"):
                g.bad("started", f"start raised {failed!r}")
            if rec:
                c.state = dict(rec[-1])
                d = rec[0].get("workdir")
                if not d or c.state.get("workdir") != d:
                    g.bad("recorded-at-once", f"recorded {rec}")
                    return
                cert, key = b.get_tls_paths(c)
                for path, want in ((cert, c.tls_cert), (key, c.tls_key)):
                    try:
                        got = g.real["bopen"](path, "rb").read()
                    except OSError as e:
                        got = e
                    if got != want:
                        g.bad("own-credentials", f"{path} holds {got!r}, not {want!r}")
                if b.clusters_directory and d != os.path.join(b.clusters_directory, c.name):
                    g.bad("own-directory", f"{d} for cluster {c.name}")
                g.check_private(d, True)
                if kind == "local":
                    for p, _ in g.created:
                        if (p == d or p.startswith(d + os.sep)) and g.owner.get(p) != (4321, 5432):
                            g.bad("handed-to-the-owner", f"{p} belongs to {g.owner.get(p)}")
                    if c.username not in looked:
                        g.bad("handed-to-the-owner", f"looked up {looked}, not {c.username}")
            elif g.secrets(c.tls_key):
                g.bad("a-failed-setup-leaves-no-credentials", f"{g.secrets(c.tls_key)} after {failed!r}")
        if logs[mine.name] or mode != "setup-fails":
            if mode == "partial" and kind == "local" and mine.state:
                mine.state.pop("pid", None)
            try:
                await b.do_stop_cluster(mine)
                failed = None
            except BaseException as e:
                failed = e
            left = g.secrets(mine.tls_key, mine.tls_cert)
            if left or mine.state.get("workdir") and os.path.exists(mine.state["workdir"]):
                g.bad("own-directory-is-removed-whatever-fails", f"{left or mine.state['workdir']} remains after stop, which ended with {failed!r}")
        left = g.secrets(other.tls_key)
        if len(left) != 1:
            g.bad("other-clusters-are-left-alone", f"key of the other cluster in {left}")
    finally:
        localmod.getpwnam = old


class FakePopen:
    def __init__(self, rng, fail, code, seen):
        self.fail, self.code, self.seen = fail, code, seen

    def __call__(self, cmd, **kw):
        self.seen.append((cmd, kw))
        if self.fail:
            raise FileNotFoundError(cmd[0])
        return Obj(communicate=lambda data=None: (b"12.server", b""), returncode=self.code)


def launch(g, msg, popen):
    """launcher.main, as if run as the owner."""
    out = io.StringIO()
    with Patch(sys, stdin=io.StringIO(json.dumps(msg)), stdout=out), Patch(subprocess, Popen=popen):
        try:
            lmod.main()
            exc = None
        except Exception as e:
            exc = e
    try:
        ans = json.loads(out.getvalue())
    except ValueError:
        ans = None
        if exc is None:
            g.bad("one-answer", f"answered {out.getvalue()!r}")
    return ans, exc


def launcher(rng, g):
    base = os.path.join(g.root, "staging")
    g.mk(os.path.join(base, "other"))
    with g.real["bopen"](os.path.join(base, "other", "dask.pem"), "w") as f:
        f.write("other-key")
    sd = os.path.join(base, "mine")
    seen = []
    mode = rng.choice(["ok", "fs-fails", "refused", "no-program", "exists", "worker"])
    if mode == "exists":
        g.mk(sd)
        with g.real["bopen"](os.path.join(sd, "keep"), "w") as f:
            f.write("keep")
    if mode == "fs-fails":
        g.fail_at = g.n + rng.randint(1, 3)
    code = rng.choice([1, 2, 255]) if mode == "refused" else 0
    msg = {"action": "start", "cmd": ["sub"], "env": {"A": "b"}, "stdin": rng.choice([None, "script"]), "staging_dir": None if mode == "worker" else sd, "files": None if mode == "worker" else {"dask.pem": "my-key", "dask.crt": "my-cert"}}
    at_submit = {}

    class P(FakePopen):
        def __call__(self, cmd, **kw):
            at_submit.update({f: g.real["bopen"](os.path.join(sd, f)).read() for f in (os.listdir(sd) if os.path.isdir(sd) else [])})
            return super().__call__(cmd, **kw)

    ans, exc = launch(g, msg, P(rng, mode == "no-program", code, seen))
    g.fail_at = None
    submitted = ans is not None and ans.get("ok") and ans.get("returncode") == 0
    if mode == "worker":
        if not submitted or g.created:
            g.bad("submits-what-it-is-told", f"answer {ans}, {exc!r}, created {g.created}")
        return
    if (g.failed or mode in ("exists", "no-program", "refused")) and submitted:
        g.bad("a-failure-is-reported", f"{mode}: answered {ans}")
    if mode == "ok":
        if not submitted:
            g.bad("submitted", f"answer {ans}, {exc!r}")
        if at_submit != {"dask.pem": "my-key", "dask.crt": "my-cert"}:
            g.bad("own-credentials", f"at submission the directory held {at_submit}")
    g.check_private(sd, False)
    if mode == "exists":
        if not os.path.exists(os.path.join(sd, "keep")):
            g.bad("an-existing-directory-is-left-alone", "the directory of another was removed")
    elif not submitted and g.secrets(b"my-key"):
        g.bad("a-failure-leaves-no-credentials", f"{mode}: {g.secrets(b'my-key')} remain, answer {ans}, {exc!r}")
    if submitted:
        if len(g.secrets(b"my-key")) != 1:
            g.bad("kept-exactly-for-a-submitted-job", f"key in {g.secrets(b'my-key')}")
        code = rng.choice([0, 1])
        del seen[:]
        ans, exc = launch(g, {"action": "stop", "cmd": ["del", "1"], "env": {}, "staging_dir": sd}, FakePopen(rng, rng.random() < 0.3, code, seen))
        if os.path.exists(sd):
            g.bad("own-directory-is-removed", f"{sd} remains after stop: {ans}")
        if not seen or seen[0][0] != ["del", "1"]:
            g.bad("the-job-is-stopped", f"ran {seen}")
    if not os.path.exists(os.path.join(base, "other", "dask.pem")):
        g.bad("removes-only-its-directory", "the directory of another cluster was removed")


def jobqueue(rng, g):
    asyncio.run(asyncio.wait_for(_jobqueue(rng, g), 20))


async def _jobqueue(rng, g):
    """Backend and launcher together."""
    import pwd

    kind = rng.choice(["pbs", "slurm"])
    b = make(kind)
    cs = [cluster(rng, kind, i, staging_directory=os.path.join(g.root, "{username}", ".dask")) for i in range(2)]
    for i, c in enumerate(cs):
        c.name = f"cl{i}"
    if rng.random() < 0.5:
        cs[1].username = cs[0].username
    codes = {"start": rng.choice([0, 0, 0, 1]), "stop": rng.choice([0, 0, 1])}
    users = []

    async def do_as_user(user, action, **kw):
        users.append((user, action, kw.get("staging_dir")))
        kw["action"] = action
        ans, exc = launch(g, json.loads(json.dumps(kw)), FakePopen(rng, False, codes[action] if kw.get("staging_dir", "").endswith("cl0") else 0, []))
        if exc is not None or not ans["ok"]:
            raise Exception("launcher")
        return ans["returncode"], "Submitted batch job 12" if kind == "slurm" else "12.server", ans["stderr"]

    b.do_as_user = do_as_user
    b.get_submit_cmd_env_stdin = lambda *a: (["sub"], {}, None)
    with Patch(pwd, getpwnam=lambda u: Obj(pw_dir="/home/" + u, pw_uid=1, pw_gid=1)):
        for c in (cs[1], cs[0]):
            rec = []
            try:
                await collect(b.do_start_cluster(c), rec)
                failed = None
            except Exception as e:
                failed = e
            bad = c is cs[0] and codes["start"] != 0
            if (failed is not None) != bad:
                g.bad("job-started-only-if-submitted", f"exit code {codes['start']}: {failed!r}")
            if rec:
                c.state = dict(rec[-1])
                sd = c.state.get("staging_dir") or "?"
                cert, key = os.path.join(sd, "dask.crt"), os.path.join(sd, "dask.pem")
                if not getattr(c.config, "use_stagein", False) and b.get_tls_paths(c) != (cert, key):
                    g.bad("own-credentials", f"processes look for {b.get_tls_paths(c)}, not {cert}")
                for path, want in ((cert, c.tls_cert), (key, c.tls_key)):
                    if not os.path.exists(path) or g.real["bopen"](path, "rb").read() != want:
                        g.bad("own-credentials", f"{path} does not hold {want!r}")
                g.check_private(os.path.dirname(cert), False)
            elif g.secrets(c.tls_key):
                g.bad("a-failure-leaves-no-credentials", f"{g.secrets(c.tls_key)} remain")
        try:
            await b.do_stop_cluster(cs[0])
            failed = None
        except Exception as e:
            failed = e
    if g.secrets(cs[0].tls_key, cs[0].tls_cert):
        g.bad("removes-its-own-directory", f"{g.secrets(cs[0].tls_key)} remain after stop ({failed!r})")
    if len(g.secrets(cs[1].tls_key)) != 1:
        g.bad("other-clusters-are-left-alone", f"key of the other cluster in {g.secrets(cs[1].tls_key)}")
    if any(u not in (cs[0].username, cs[1].username) or sd and sd.endswith("cl0") and u != cs[0].username for u, _, sd in users):
        g.bad("as-the-owner", f"{users}")


_PEM = []


def client(rng, g):
    if not _PEM:
        from dask_gateway_server import tls

        g.__exit__()
        try:
            _PEM.extend(x.decode() for x in tls.new_keypair("temp"))
        finally:
            g.__enter__()
    cert, key = _PEM
    mode = rng.choice(["ok", "fs-fails", "bad-cert", "bad-key"])
    s = gwclient.GatewaySecurity("nonsense" if mode == "bad-key" else key, "nonsense" if mode == "bad-cert" else cert)
    if mode == "fs-fails":
        g.fail_at = g.n + rng.randint(1, 4)
    try:
        r = s.get_connection_args("client")
        exc = None
    except Exception as e:
        r, exc = None, e
    g.fail_at = None
    if mode == "ok":
        import ssl

        if exc is not None or not isinstance(r.get("ssl_context"), ssl.SSLContext) or r.get("require_encryption") is not True:
            g.bad("loaded", f"returned {r}, {exc!r}")
        elif r["ssl_context"].verify_mode != ssl.CERT_REQUIRED:
            g.bad("verifies-the-other-side", "certificates are not required")
    elif exc is None and (g.failed or mode != "fs-fails"):
        g.bad("a-failed-step-is-reported", f"{mode}: returned {r}")
    left = g.secrets(b"PRIVATE KEY", b"CERTIFICATE", b"nonsense")
    if left:
        g.bad("copies-are-removed-whatever-fails", f"{left} remain after {exc!r}")
    for p, m in g.created:
        par = os.path.dirname(p)
        if m & 0o077 and not any(q == par and not k & 0o077 for q, k in g.created):
            g.bad("copies-only-in-private-directories", f"{p} was created with mode {oct(m)}")
