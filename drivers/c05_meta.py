META = {
    "gen": ["Gen_C05"],
    "trace": "Trace_C05",
    "jobs": ["beven", "bodd", "geven", "godd"],
    "models": [],
    "rule": "one recorded call per fixed repetition vector x cutoff x sieve of Gen_C05.tla; every entry is judged",
}
