META = {
    "gen": ["Gen_C18"],
    "trace": "Trace_C18",
    "jobs": ["n1", "n2", "n3"],
    "models": ["MC_GaussUnitary"],
    "rule": "one call per element of Gen_C18.tla: structure of S x displacement x Choi parameter x index ordering x cutoff",
    "assumptions": ["elements are compared to absolute 1e-7; symplectic matrices within rounding of exactly passive are treated as the code documents (rtol, atol)"],
}
