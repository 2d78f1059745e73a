META = {
    "gen": ["Gen_C19"],
    "trace": "Trace_C19",
    "jobs": ["steps_h", "steps_t", "law_h1", "law_h2", "law_h3", "law_t1", "law_t2", "law_t3"],
    "warm": ["warm_h", "warm_t"],
    "models": ["MC_ChainRule"],
    "threads": 1,
    "rule": "per element of Gen_C19.tla: a scripted run of the real sampler (internal normals and outcomes chosen by the driver, the probability vectors it draws from recorded), or the law of its samples averaged over the internal normals by quasi-Monte Carlo",
    "assumptions": [
        "the samplers draw through numpy.random (normal, choice); if they do not, the law is estimated from plain samples instead",
        "laws are compared up to the probability of exceeding the cutoff (MC_ChainRule), 9 standard errors of the average and 2e-4",
    ],
}
