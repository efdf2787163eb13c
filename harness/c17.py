"""The real Kubernetes controller in a simulated cluster (see ctlsim)."""
from . import ctlsim

PARALLEL = 6


def cases(tier, seed):
    yield from ctlsim.cases("C17", tier, seed)


def run(case):
    return [(c[4:], m) for c, m in ctlsim.run(case) if c.startswith("c17:")]
