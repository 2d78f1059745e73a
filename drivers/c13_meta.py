META = {
    "gen": ["Gen_C13"],
    "trace": "Trace_C13",
    "jobs": ["full", "post", "elem", "deep"],
    "models": [],
    "rule": "per element of Gen_C13.tla: density matrix, state vector, amplitudes, elements, probabilities of one state",
}
