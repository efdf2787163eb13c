#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough] | check.py --replay FILE

Decides one property: discharges every contract obligation on /repo's current
source, replays refutations on the real code, rewrites the evidence file."""
import argparse
import concurrent.futures as cf
import importlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
VENV_PY = "/opt/venv/bin/python"


def _run_one(args):
    pid, idx, budget = args
    from pyvc import verify

    importlib.import_module("contracts." + pid.lower())
    con = verify.REGISTRY[pid][idx]
    return verify.run_contract(con, REPO, budget)


def run_contracts(pid, budget):
    from pyvc import verify

    mod = importlib.import_module("contracts." + pid.lower())
    cons = verify.REGISTRY.get(pid, [])
    results = [None] * len(cons)
    workers = min(8, os.cpu_count() or 2, max(1, len(cons)))
    # heavy contracts first
    order = sorted(range(len(cons)), key=lambda i: -cons[i].opts.get("weight", 1))
    t_end = time.time() + budget
    with cf.ProcessPoolExecutor(workers) as ex:
        futs = {ex.submit(_run_one, (pid, i, cons[i].opts.get("budget", min(150, budget)))): i for i in order}
        for f in cf.as_completed(futs):
            i = futs[f]
            try:
                results[i] = f.result()
            except Exception as e:  # worker died
                results[i] = {"contract": cons[i].name, "target": cons[i].target, "status": "error", "error": repr(e), "obligations": [], "paths": 0, "inlined": [], "queries": 0, "solver_s": 0, "wall_s": 0, "assumes": [], "bounded": None, "covers": {}, "cvc5": [0, 0, []]}
    extra = getattr(mod, "extra", None)
    if extra is not None:
        results.extend(extra(REPO, budget))
    return results


def start_harness(pid, tier, seed, budget, case_file=None, tag=""):
    if not os.path.exists(os.path.join(HERE, "harness", pid.lower() + ".py")):
        return None
    out = os.path.join(HERE, "replay", f"{pid}-harness{tag}.json")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    if os.path.exists(out):
        os.unlink(out)
    env = dict(os.environ)
    env["PYTHONPATH"] = ":".join([HERE, REPO + "/dask-gateway-server", REPO + "/dask-gateway"])
    env["VERIF_REPO"] = REPO
    env["PYTHONHASHSEED"] = "0"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    cmd = [VENV_PY, "-m", "harness.main", pid, "--tier", tier, "--seed", str(seed), "--budget", str(budget), "--out", out]
    if case_file:
        cmd += ["--case-file", case_file]
    p = subprocess.Popen(cmd, cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    return p, out, time.time() + budget + 60


def finish_harness(h):
    if h is None:
        return None
    p, out, deadline = h
    txt = b""
    try:
        txt, _ = p.communicate(timeout=max(5, deadline - time.time()))
    except subprocess.TimeoutExpired:
        import signal

        os.killpg(p.pid, signal.SIGKILL)
        txt, _ = p.communicate()
    try:
        with open(out) as f:
            r = json.load(f)
    except Exception:
        r = {"cases": 0, "violations": [], "error": "harness gave no result: " + txt.decode("utf8", "replace")[-2000:]}
    if p.returncode not in (0, 1) and "error" not in r:
        r["error"] = f"harness ended with {p.returncode}: " + txt.decode("utf8", "replace")[-2000:]
    return r


def load_known(pid):
    """known findings: (clause, key) that are reported, not alarmed."""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=" + pid + " "):
                # finding: property=C01 key=<key> <what fails>
                rest = line.split(" ", 2)[2]
                key = rest.split(" ", 1)[0].split("=", 1)[1]
                out.append((key, rest.split(" ", 1)[1]))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        h = finish_harness(start_harness(r["property"], "quick", r.get("seed", 1), 120, a.replay, "-replay"))
        print(json.dumps(h, indent=1))
        sys.exit(1 if h and h["violations"] else 0)
    pid = a.property
    tier = a.tier
    os.environ["VERIF_TIER"] = tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sys.path.insert(0, HERE)
    t0 = time.time()
    hbudget = 40 if tier == "quick" else 240
    h = start_harness(pid, tier, seed, hbudget)
    results = run_contracts(pid, 200 if tier == "quick" else 600)
    hr = finish_harness(h)

    known = load_known(pid)
    refuted, undecided, proved = [], [], 0
    total = 0
    for r in results:
        for o in r["obligations"]:
            if r.get("bounded") and o["status"] == "proved":
                continue  # never counted as proved
            total += 1
            if o["status"] == "proved":
                if r["status"] == "ok":
                    proved += 1
                else:
                    undecided.append(o["name"])
            elif o["status"] == "refuted":
                refuted.append((r, o))
            else:
                undecided.append(o["name"] + " (" + str(o["detail"])[:120] + ")")
        if r["status"] != "ok":
            undecided.append(f"{r['target']}[{r['contract']}]: {r['status']}: {str(r['error'])[:300]}")

    viol = list(hr["violations"]) if hr else []
    # replay counterexamples of refuted obligations on the real code; where an
    # obligation is left undecided, search the real code for a failing input
    if (refuted or undecided) and not viol:
        lost = [(r, o) for r in results for o in r["obligations"] if o["status"] not in ("proved", "refuted")]
        cases = [o["case"] for _, o in refuted + lost if isinstance(o.get("case"), dict)]
        cf_path = os.path.join(HERE, "replay", f"{pid}-cex.json")
        with open(cf_path, "w") as f:
            json.dump({"property": pid, "seed": seed, "cases": cases}, f)
        h2 = finish_harness(start_harness(pid, "deep", seed, 90 if refuted else 60, cf_path, "-deep"))
        if h2:
            viol = list(h2["violations"])
    known_keys = {k for k, _ in known}
    new_viol = [x for x in viol if x.get("key") not in known_keys]
    seen_known = {x["key"] for x in viol if x.get("key") in known_keys}
    for k, what in known:
        print(f"KNOWN-FINDING: property={pid} {what}")

    code = 0
    violations = 0
    os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
    if new_viol:
        v = new_viol[0]
        path = os.path.join(HERE, "replay", f"{pid}-violation.json")
        with open(path, "w") as f:
            json.dump({"property": pid, "seed": seed, "cases": [v["case"]], "clause": v["clause"], "message": v["message"], "refuted_obligations": [o["name"] for _, o in refuted], "all": new_viol[:20]}, f, indent=1)
        for _, o in refuted:
            print("failed obligation:", o["name"])
        print(f"failed clause on the real code: {v['clause']}: {v['message'][:600]}")
        print(f"VIOLATION property={pid} replay={path}")
        code, violations = 1, len(new_viol)
    elif refuted:
        path = os.path.join(HERE, "replay", f"{pid}-violation.json")
        with open(path, "w") as f:
            json.dump({"property": pid, "seed": seed, "cases": [o["case"] for _, o in refuted if isinstance(o.get("case"), dict)], "failed_obligations": [{"name": o["name"], "detail": o["detail"], "model_case": o["case"]} for _, o in refuted]}, f, indent=1, default=str)
        for _, o in refuted:
            print("failed obligation:", o["name"])
        print(f"VIOLATION property={pid} replay={path} no-failing-input-found")
        code, violations = 1, len(refuted)

    for u in undecided:
        print("undecided:", u)
    if hr and hr.get("error"):
        print("harness:", hr["error"][:1500])
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "proof",
        "coverage": {
            "obligations": total,
            "discharged": proved,
            "checker_cmd": f"python3-vt check.py {pid} --tier {tier}",
            "trusted_base": sorted({x for r in results for x in r["assumes"]} | {"pyvc symbolic semantics of Python (pyvc/), z3 4.x", "library models in pyvc/libs.py and pyvc/models.py"}),
            "verification_conditions": sum(o["vcs"] for r in results for o in r["obligations"]),
            "solver": {"backend": "z3 (python API)" + (", unsat answers re-checked with cvc5" if tier == "thorough" else ""), "solver_s": round(sum(r["solver_s"] for r in results), 2), "cvc5_checked": sum(r["cvc5"][0] for r in results), "cvc5_unknown": sum(r["cvc5"][1] for r in results), "cvc5_disagree": sum((r["cvc5"][2] for r in results), [])},
            "functions_under_contract": sorted({r["target"] for r in results}),
            "functions_inlined": sorted({q for r in results for q in r["inlined"]}),
            "paths": sum(r["paths"] for r in results),
            "undecided": undecided,
            "bounded_not_counted_as_proved": sorted({r["bounded"] for r in results if r.get("bounded")}),
            "replay_harness": {"label": "bounded (validates assumed models on the real code, never counted as proved)", "cases": hr.get("cases") if hr else 0, "kinds": hr.get("kinds") if hr else None, "wall_s": hr.get("wall_s") if hr else 0, "error": hr.get("error") if hr else None},
            "per_contract": [{"contract": r["contract"], "target": r["target"], "status": r["status"], "obligations": len(r["obligations"]), "paths": r["paths"], "wall_s": r["wall_s"]} for r in results],
        },
        "assumptions": sorted({x for r in results for x in r["assumes"]}),
        "wall_s": round(time.time() - t0, 2),
        "violations": violations,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{pid}: {proved}/{total} obligations discharged, {len(refuted)} refuted, {len(undecided)} undecided, harness cases {hr.get('cases') if hr else 0}, {time.time()-t0:.1f}s")
    if total == 0 and not (hr and hr.get("cases")):
        print("nothing was checked")
        sys.exit(2)
    sys.exit(code)


if __name__ == "__main__":
    main()
