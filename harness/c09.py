from harness.dbsim import cases, harness

run = harness("C09")
PARALLEL = 4
