META = {
    "gen": ["Gen_C02"],
    "trace": "Trace_C02",
    "jobs": ["haf", "loopeven", "loopodd", "red"],
    "models": [],
    "rule": "one recorded call per repetition vector up to the bounds of Gen_C02.tla x loop x sieve x diagonal argument; non-trivial when the total is at least 2",
}
