META = {
    "gen": ["Gen_C07"],
    "trace": "Trace_C07",
    "jobs": ["rec", "direct", "thr0", "thr"],
    "models": [],
    "rule": "one recorded call per element of Gen_C07.tla (a 'threshold' event holds all click patterns of one state)",
}
