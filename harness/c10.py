from harness.dbsim import cases, harness

run = harness("C10")
PARALLEL = 4
