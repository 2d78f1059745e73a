META = {
    "gen": ["Gen_C03"],
    "trace": "Trace_C03",
    "jobs": ["sparse", "banded", "low"],
    "models": [],
    "rule": "one recorded call per scenario of Gen_C03.tla: all graphs on up to 4 vertices, all band-gap patterns, random sparse matrices, index subsets, factor shapes",
}
