META = {
    "gen": ["Gen_C12"],
    "trace": "Trace_C12",
    "jobs": ["conv", "pred", "misc", "cova", "covb", "covc"],
    "models": [],
    "rule": "one call per element of Gen_C12.tla (per converted object, predicate and statistic)",
}
