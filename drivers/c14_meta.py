META = {
    "gen": ["Gen_C14"],
    "trace": "Trace_C14",
    "jobs": ["closed", "expect", "moment", "order"],
    "models": [],
    "rule": "one call (per function) per element of Gen_C14.tla",
}
