META = {
    "gen": ["Gen_C20"],
    "trace": "Trace_C20",
    "warm": ["warm_h", "warm_t"],
    "jobs": ["script_h", "script_t", "limits_h", "limits_t", "threads", "graph", "rest"],
    "models": [("MC_SampleLoop", f"MC_SampleLoop_{x}.cfg") for x in ("h", "hp", "t", "tp")],
    "threads": 1,
    "rule": "per behaviour of the accept/reject machine generated by TLC (Gen_C20.tla): the real driver run with those outcomes; plus free runs with structured states (empty, twin and bright modes), limits, parallel and seeds",
    "assumptions": ["a sampler that does not draw its outcomes through numpy.random.choice is judged by the free runs only"],
}
