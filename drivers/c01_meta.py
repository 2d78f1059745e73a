META = {
    "gen": ["Gen_C01"],
    "trace": "Trace_C01",
    "jobs": ["haf", "loopeven", "loopodd", "rec", "ref"],
    "models": [],
    "rule": "one recorded call per scenario of Gen_C01.tla (operation x order x method x loop x entry pattern, entry type and layout spread over them); non-trivial when order > 1",
}
