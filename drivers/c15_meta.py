META = {
    "gen": ["Gen_C15"],
    "trace": "Trace_C15",
    "jobs": ["chan", "state"],
    "models": [],
    "rule": "one call per element of Gen_C15.tla",
}
