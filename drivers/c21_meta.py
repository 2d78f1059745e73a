META = {
    "gen": ["Gen_C21"],
    "trace": "Trace_C21",
    "jobs": ["scal", "tor", "therm", "steps_h", "steps_t", "pns", "laws", "rates"],
    "models": ["MC_Graphs"],
    "threads": 1,
    "rule": "per element of Gen_C21.tla: scalings judged by bracketing the exact photon/click number of c(1-eps)A and c(1+eps)A; samplers by the distributions they draw from (recorded), by the exact generating function of their Poisson rates, and by frequencies of large free runs (7 standard deviations)",
    "assumptions": [
        "the root finders' absolute accuracy of 2e-12 in the scaling is granted",
        "tables of photon_number_sampler have equal cutoffs (as documented)",
    ],
}
