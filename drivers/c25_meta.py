META = {
    "gen": ["Gen_C25"],
    "trace": "Trace_C25",
    "jobs": ["clicks", "sums", "total", "char", "pure", "sample", "moments", "scatter"],
    "models": ["MC_TotalPhotons"],
    "threads": 1,
    "rule": "per parameters of Gen_C25.tla; distributions compared with the exact series of the specification",
    "assumptions": [
        "characteristic_function is judged up to the truncation its own stopping rule allows",
        "distinguishable_squeezers.sample and grouped_click_probabilities are Monte-Carlo: judged from seeded runs, at seven (sample) and eight (grouped) standard errors",
    ],
}
