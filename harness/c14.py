from harness.proxysim import cases, run  # noqa
