META = {
    "gen": ["Gen_C09"],
    "trace": "Trace_C09",
    "jobs": ["mtl", "lmtl", "ref", "photon", "click"],
    "models": [("MC_Montrealer", "MC_Montrealer.cfg")],
    "assumptions": ["lmtl takes loop weights in conjugate pairs (zeta[i+n] = conj(zeta[i])), as for every Gaussian state"],
    "rule": "one recorded call per element of Gen_C09.tla",
}
