META = {
    "gen": ["Gen_C06"],
    "trace": "Trace_C06",
    "jobs": ["bbfg", "ryser", "rep", "fock"],
    "models": [("MC_GrayPerm", "MC_GrayPerm.cfg"), ("MC_GrayPerm", "MC_GrayPerm_live.cfg")],
    "rule": "one recorded call per element of Gen_C06.tla (a 'fock' event holds the whole output layer of one input)",
}
