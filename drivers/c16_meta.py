META = {
    "gen": ["Gen_C16"],
    "trace": "Trace_C16",
    "jobs": ["all"],
    "models": [],
    "rule": "one call per element of Gen_C16.tla",
}
