META = {
    "gen": ["Gen_C23"],
    "trace": "Trace_C23",
    "jobs": ["haf", "rep", "herm", "perm", "state", "misc"],
    "models": [],
    "threads": 1,
    "rule": "every operation x size x (argument by argument) way of being right or wrong of Gen_C23.tla; the contract of Domain.tla, evaluated on the recorded arguments, decides whether the call had to return or to raise",
    "assumptions": ["arguments are two-dimensional where a matrix is expected; wrong method names and wrong scalar types are not explored"],
}
