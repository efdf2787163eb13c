from pyvc.verify import REGISTRY, contract
from . import api, c10, dbfuncs

api.register("C01", [e for e in api.KNOWN if e not in api.PUBLIC and not e[1].endswith("/heartbeat")])
dbfuncs.register("C01", ["start_cluster"])
for _c in list(REGISTRY["C10"]):
    # the per-user index the API answers from
    if _c.name in ("list_clusters", "get_cluster"):
        contract("C01", _c.target, _c.name, **_c.opts)(_c.fn)
