META = {
    "gen": ["Gen_C24"],
    "trace": "Trace_C24",
    "jobs": ["vn", "ent", "fid"],
    "models": ["MC_Entangle"],
    "threads": 1,
    "rule": "per state, bipartition (all orderings of every subset of modes, in each accepted form) and hbar of Gen_C24.tla",
    "assumptions": [
        "symplectic spectra are supplied by the driver (numpy) and verified in the specification by their power sums",
        "entropies are compared up to the library's own tolerance (eigenvalues within 1e-5 of 1 count as 1); fidelities to 2e-4",
    ],
}
