META = {
    "gen": ["Gen_C08"],
    "trace": "Trace_C08",
    "jobs": ["brs", "ubrs", "fock"],
    "models": [],
    "rule": "one recorded call per element of Gen_C08.tla (a 'fock' event holds all click patterns of one input)",
}
