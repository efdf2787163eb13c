from harness.dbsim import cases, harness

run = harness("C07")
PARALLEL = 4
