"""mkseed.py ID: (re)builds /verif/seeded/ID/patch.diff from seeded/ID/edit.py-style
spec given on stdin as JSON {file, edits:[[old,new],...]} (optional), and
verifies demo.sh and the repository's tests in a scratch copy.
    python3 tools/mkseed.py ID [--tests]"""
import json, os, shutil, subprocess, sys

ID = sys.argv[1]
D = f"/verif/seeded/{ID}"
W = f"/tmp/seedw.{os.getpid()}"
shutil.copytree("/repo", W, symlinks=True)
env = dict(os.environ, PATH="/opt/venv/bin:" + os.environ["PATH"], PYTHONPATH=f"{W}/dask-gateway-server:{W}/dask-gateway", PYTHONDONTWRITEBYTECODE="1")


def demo():
    src = open(f"{D}/demo.sh").read()
    r = subprocess.run(["bash", f"{D}/demo.sh"], cwd=W, env=env, capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-400:]


try:
    if not sys.stdin.isatty():
        spec = sys.stdin.read().strip()
        if spec:
            spec = json.loads(spec)
            for f, old, new in spec["edits"]:
                p = f"{W}/{f}"
                s = open(p).read()
                assert s.count(old) == 1, (f, s.count(old))
                open(p, "w").write(s.replace(old, new))
            d = subprocess.run(["git", "diff"], cwd=W, capture_output=True, text=True).stdout
            open(f"{D}/patch.diff", "w").write(d)
            subprocess.run(["git", "checkout", "-q", "--", "."], cwd=W, check=True)
    rc0, o0 = demo()
    subprocess.run(["git", "apply", f"{D}/patch.diff"], cwd=W, check=True)
    rc1, o1 = demo()
    print(ID, "unchanged rc", rc0, "patched rc", rc1, "OK" if rc0 == 0 and rc1 else "BAD")
    if rc0:
        print(o0)
    else:
        print(o1[-200:])
    if "--tests" in sys.argv:
        r = subprocess.run("/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=120 --ignore=tests/test_db_backend.py --ignore=tests/kubernetes --deselect tests/test_auth.py::test_jupyterhub_auth --deselect tests/test_auth.py::test_jupyterhub_auth_user --deselect tests/test_auth.py::test_jupyterhub_auth_service tests 2>&1 | tail -4", shell=True, cwd=W, env=env, capture_output=True, text=True)
        print(r.stdout[-600:])
finally:
    shutil.rmtree(W)
