META = {
    "gen": ["Gen_C26"],
    "trace": "Trace_C26",
    "jobs": ["passive", "active", "blocks", "haar"],
    "models": ["MC_Layers"],
    "threads": 1,
    "rule": "per generator, size, options, hbar and seed of Gen_C26.tla; class membership decided exactly on the returned matrix",
    "assumptions": ["the Haar measure is judged from seeded averages of low moments, at eight standard errors"],
}
