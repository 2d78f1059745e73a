META = {
    "gen": ["Gen_C11"],
    "trace": "Trace_C11",
    "jobs": ["a", "b", "c"],
    "models": [("MC_Circuit", "MC_Circuit.cfg"), ("MC_Circuit", "MC_Circuit3.cfg")],
    "rule": "one recorded gate history per element of Gen_C11.tla (moments after every step), plus queries on its final state",
}
