"""Runs the proxy's Go code: a scratch copy of its sources, with files added to
package main, is built from the repository's current tree (once for each
content of them) and asked over a pipe."""
import hashlib
import json
import os
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "dask-gateway-server", "dask-gateway-proxy")
ADDED = os.path.join(HERE, "gofront", "harness")
_P = {}
_B = {}


def digest():
    h = hashlib.sha256()
    for top in (SRC, ADDED):
        for d, ds, fs in sorted(os.walk(top)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith("_test.go") or not f.endswith((".go", ".mod", ".sum")):
                    continue
                with open(os.path.join(d, f), "rb") as fp:
                    b = fp.read()
                h.update(f"{os.path.relpath(os.path.join(d, f), top)} {len(b)}\n".encode() + b)
    return h.hexdigest()[:20]


def build():
    keep = os.path.join(HERE, "build")
    os.makedirs(keep, exist_ok=True)
    final = os.path.join(keep, "gosim-" + digest())
    if os.path.exists(final):
        return final
    old = sorted((f for f in os.listdir(keep) if f.startswith("gosim-") and "." not in f), key=lambda f: os.path.getmtime(os.path.join(keep, f)))
    for f in old[:-3]:
        os.unlink(os.path.join(keep, f))
    d = tempfile.mkdtemp(prefix="gosim-")
    try:
        t = os.path.join(d, "src")
        shutil.copytree(SRC, t, ignore=lambda p, xs: [x for x in xs if x.endswith("_test.go")])
        for f in os.listdir(ADDED):
            shutil.copy(os.path.join(ADDED, f), os.path.join(t, "cmd", "dask-gateway-proxy", f))
        env = dict(os.environ)
        env.update(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GONOSUMDB="*", GONOSUMCHECK="1")
        env.setdefault("HOME", d)
        env.pop("GO111MODULE", None)
        out = f"{final}.{os.getpid()}"
        r = subprocess.run([shutil.which("go") or "/usr/local/bin/go", "build", "-o", out, "./cmd/dask-gateway-proxy"], cwd=t, env=env, capture_output=True, text=True, timeout=300)
        if r.returncode:
            raise RuntimeError("the proxy does not build: " + (r.stderr or r.stdout)[-1500:])
        os.replace(out, final)
        return final
    finally:
        shutil.rmtree(d, ignore_errors=True)


def prepare():
    """Build (before the harness forks)."""
    if "path" not in _B:
        try:
            _B["path"] = build()
        except RuntimeError as e:
            _B["path"] = e
    return _B["path"]


def proc():
    p = _P.get(os.getpid())
    if p is None or p.poll() is not None:
        path = prepare()
        if isinstance(path, Exception):
            raise path
        env = {"ZZ_HARNESS": "1", "PATH": os.environ.get("PATH", ""), "HOME": tempfile.gettempdir()}
        p = _P[os.getpid()] = subprocess.Popen([path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)
    return p


def ask(case):
    p = proc()
    p.stdin.write(json.dumps(case).encode() + b"\n")
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        return {"panic": "the process ended"}
    return json.loads(line)
