META = {
    "gen": ["Gen_C10"],
    "trace": "Trace_C10",
    "jobs": ["cr", "cc", "pr", "pc"],
    "models": [("MC_LaBudde", "MC_LaBudde.cfg")],
    "assumptions": ["entries are floating point (numba rejects integer arrays with a TypingError)"],
    "rule": "one recorded call per element of Gen_C10.tla",
}
