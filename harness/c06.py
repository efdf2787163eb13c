from harness.dbsim import cases, harness

run = harness("C06")
PARALLEL = 4
