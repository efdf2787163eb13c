from harness.dbsim import cases, harness

run = harness("C08")
PARALLEL = 4
