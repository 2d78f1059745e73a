META = {
    "gen": ["Gen_C17"],
    "trace": "Trace_C17",
    "jobs": ["one", "two", "bounds"],
    "models": ["MC_FockGates"],
    "rule": "one call per element of Gen_C17.tla: gate x parameters (zero, negative, large, generic) x cutoff (1 upwards) x precision; job bounds repeats the smallest cutoffs with numba's index checking on",
    "assumptions": ["entries are compared to absolute 1e-9 (single precision 2e-5); gradients to 1e-9 * cutoff^2"],
}
