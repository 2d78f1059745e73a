META = {
    "gen": ["Gen_C04"],
    "trace": "Trace_C04",
    "jobs": ["n1", "n2", "n3", "n4", "grad", "interf2", "interf4"],
    "models": [],
    "rule": "one recorded call per scenario of Gen_C04.tla: all cutoff vectors up to the bounds x operation x renorm x output form; every entry of each returned tensor is judged",
}
