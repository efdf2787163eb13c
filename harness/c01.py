from harness.apisim import cases, harness

run = harness("C01")
