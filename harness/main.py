"""Runs concrete cases of one property against the real code (under
/opt/venv's python). Case generators are seeded; a case is a JSON value."""
import argparse
import importlib
import json
import os
import sys
import time
import traceback


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=30)
    ap.add_argument("--out")
    ap.add_argument("--case-file")
    a = ap.parse_args()
    t0 = time.time()
    res = {"cases": 0, "violations": [], "kinds": {}}

    def save():
        res["wall_s"] = round(time.time() - t0, 2)
        if a.out:
            with open(a.out + ".tmp", "w") as f:
                json.dump(res, f, default=str)
            os.replace(a.out + ".tmp", a.out)

    try:
        mod = importlib.import_module("harness." + a.property.lower())
    except Exception:
        res["error"] = "harness import: " + traceback.format_exc()[-2000:]
        save()
        sys.exit(0)
    cases = []
    if a.case_file:
        with open(a.case_file) as f:
            cases = json.load(f).get("cases", [])

    def gen():
        for c in cases:
            yield c
        if not a.case_file or a.tier == "deep":
            yield from mod.cases(a.tier, a.seed)

    par = getattr(mod, "PARALLEL", 1) if a.out else 1
    shard = None
    if par > 1:
        pids = []
        for k in range(par):
            pid = os.fork()
            if pid == 0:
                shard = k
                a.out = f"{a.out}.{k}"
                break
            pids.append(pid)
        if shard is None:
            for pid in pids:
                os.waitpid(pid, 0)
            for k in range(par):
                try:
                    with open(f"{a.out}.{k}") as f:
                        r = json.load(f)
                    os.unlink(f"{a.out}.{k}")
                except Exception as e:
                    res.setdefault("error", f"shard {k} gave no result: {e!r}")
                    continue
                res["cases"] += r["cases"]
                res["violations"] += r["violations"]
                if r.get("error"):
                    res["error"] = r["error"]
                for x, n in r["kinds"].items():
                    res["kinds"][x] = res["kinds"].get(x, 0) + n
            save()
            sys.stdout.flush()
            os._exit(1 if res["violations"] else 0)
    seen = set()
    errors = 0
    index = -1
    try:
        for c in gen():
            if time.time() - t0 > a.budget:
                break
            index += 1
            if shard is not None and index % par != shard:
                continue
            res["cases"] += 1
            k = c.get("kind", "case") if isinstance(c, dict) else "case"
            res["kinds"][k] = res["kinds"].get(k, 0) + 1
            try:
                vs = mod.run(c)
            except Exception:
                errors += 1
                if "error" not in res:
                    res["error"] = f"case {json.dumps(c, default=str)[:300]}: " + traceback.format_exc()[-1500:]
                if errors > 20:
                    break
                continue
            for clause, msg in vs or ():
                key = None
                if isinstance(clause, tuple):
                    clause, key = clause
                if (clause, key) in seen:
                    continue
                seen.add((clause, key))
                res["violations"].append({"clause": clause, "key": key, "message": str(msg)[:2000], "case": c})
                save()
            if len(res["violations"]) >= 10:
                break
    except Exception:
        res.setdefault("error", "harness generator: " + traceback.format_exc()[-1500:])
    save()
    sys.stdout.flush()
    os._exit(1 if res["violations"] else 0)


main()
