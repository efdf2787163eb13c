from harness import apisim, proxysim, schedsim

_api = apisim.harness("C02")


def cases(tier, seed):
    yield from proxysim.auth_cases(seed)
    yield from schedsim.auth_cases(seed)
    yield from apisim.cases(tier, seed)


def run(case):
    if case["kind"] == "proxyauth":
        return proxysim.run(case)
    if case["kind"] in ("schedauth", "sched"):
        return schedsim.run(case)
    return _api(case)
