"""C01: hafnian / loop_hafnian / recursive_hafnian / reference.hafnian."""
import zlib
import numpy as np
from harness import *
from c01_meta import META


def matrix(rng, n, dt, pat):
    if n == 0:
        return np.zeros((0, 0))
    A = sym(rmat(rng, n, n, dt))
    z = A.dtype.type(0)
    if pat == "zerorow":
        k = rng.integers(n)
        d = A[k, k]
        A[k, :] = z
        A[:, k] = z
        A[k, k] = d
    elif pat == "dup":
        ix = rng.integers(0, max(1, (n + 1) // 2), size=n)
        A = A[np.ix_(ix, ix)]
    elif pat == "graph":
        A = (sym(rng.integers(0, 2, size=(n, n)))).astype(A.dtype)
    elif pat == "ones":
        A = np.ones((n, n), dtype=A.dtype)
    elif pat == "diag":
        A = np.diag(np.diag(A))
    elif pat == "block":
        k = n // 2
        A[:k, k:] = z
        A[k:, :k] = z
    elif pat == "zeromat":
        A = np.zeros_like(A)
    elif pat == "offdiag":
        np.fill_diagonal(A, z)
    return A


def run(R, sel):
    import thewalrus as tw
    from thewalrus import reference
    from thewalrus._hafnian import recursive_hafnian

    for s in R.scen["Gen_C01"]:
        if not sel(s):
            continue
        n, dt = s["n"], s["dt"]
        if s["op"] == "reference" and n == 8 and s["loop"] and s["pat"] not in ("dense", "graph"):
            continue
        rng = np.random.default_rng([R.seed, zlib.crc32(repr(sorted(s.items())).encode())])
        A = layout(matrix(rng, n, dt, s["pat"]), s["lay"])
        inp = {"A": A, "loop": bool(s["loop"]), "method": s["method"], "dt": dt}
        inp = {**enc(inp), "loop": bool(s["loop"])}
        key = "{op}/{method}/loop={loop}/n={n}/{dt}/{pat}/{lay}/{v}".format(**s)
        if s["op"] == "hafnian":
            f = lambda: tw.hafnian(A, loop=s["loop"], method=s["method"])
        elif s["op"] == "recursive_hafnian":
            f = lambda: recursive_hafnian(A)
        elif s["op"] == "loop_hafnian":
            f = lambda: tw.loop_hafnian(A, glynn=s["method"] == "glynn")
        else:
            f = lambda: reference.hafnian(A, loop=s["loop"])
        R.call(s["op"], key, inp, f)


JOBS = {
    "haf": lambda R: run(R, lambda s: s["op"] == "hafnian" and not s["loop"] and s["method"] != "recursive"),
    "loopeven": lambda R: run(R, lambda s: s["op"] in ("hafnian", "loop_hafnian") and s["loop"] and s["n"] % 2 == 0),
    "loopodd": lambda R: run(R, lambda s: s["op"] in ("hafnian", "loop_hafnian") and s["loop"] and s["n"] % 2 == 1),
    "rec": lambda R: run(R, lambda s: s["method"] == "recursive"),
    "ref": lambda R: run(R, lambda s: s["op"] == "reference"),
}

if __name__ == "__main__":
    import c01

    main(c01)
