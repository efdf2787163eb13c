from harness import apisim

run = apisim.harness("C26")


def cases(tier, seed):
    yield {"kind": "forward"}
    yield from apisim.cases(tier, seed)
