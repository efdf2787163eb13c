import os, sys, json, importlib
sys.path.insert(0, "/verif")
from pyvc import verify
pid = sys.argv[1]
flt = [a for a in sys.argv[2:] if not a.startswith("-")]
importlib.import_module("contracts." + pid.lower())
for c in verify.REGISTRY[pid]:
    if flt and flt[0] not in c.name: continue
    r = verify.run_contract(c, os.environ.get("REPO", "/repo"))
    print(c.name, r["status"], "paths", r["paths"], "wall", r["wall_s"], r["error"] or "")
    for o in r["obligations"]:
        if o["status"] != "proved" or "-v" in sys.argv:
            print("   ", o["status"], o["name"].split("::")[1], json.dumps(o["case"]), str(o["detail"])[:1500] if o["status"]!="proved" else "")
    if not r["obligations"]: print("   no obligations")
