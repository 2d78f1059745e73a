from zoo_fams import FAMS

META = {
    "gen": ["Gen_C22"],
    "trace": "Trace_C22",
    "warm": ["fam." + f for f in FAMS],
    "jobs": ["cross", "cross2", "consumers", "memo"],
    "models": ["MC_Memo", ("MC_Memo", "MC_Memo3.cfg"), ("MC_Memo", "MC_Memo_live.cfg"), "MC_Reduce"],
    "warm_events": True,
    "threads": 8,
    "rule": "per history (first call, calls in between), layout, thread count, and script of Gen_C22.tla; results compared with those of the same call made first",
    "assumptions": [
        "functions that draw random numbers are judged in one thread only, with NumPy's global generator seeded before each call",
        "results that differ by rounding only (1e-9 of the largest entry) count as equal: sums are taken in another order in another layout or by another number of workers",
        "schedules of threads are those the interpreter produces with a switch interval of a microsecond, not all",
    ],
}
