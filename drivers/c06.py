"""C06: perm, permanent_repeated, fock_prob."""
import itertools
import zlib
import numpy as np
from harness import *
from c06_meta import META


def matrix(rng, n, dt, pat):
    A = rmat(rng, n, n, dt)
    if n == 0:
        return A
    z = A.dtype.type(0)
    if pat == "zerorow":
        A[rng.integers(n), :] = z
    elif pat == "zerocol":
        A[:, rng.integers(n)] = z
    elif pat == "dup":
        A = A[np.ix_(rng.integers(0, (n + 1) // 2, size=n), rng.integers(0, (n + 1) // 2, size=n))]
    elif pat == "ones":
        A = np.ones((n, n), dtype=A.dtype)
    elif pat == "diag":
        A = np.diag(np.diag(A))
    elif pat == "perm":
        A = np.eye(n, dtype=A.dtype)[rng.permutation(n)]
    elif pat == "rank1":
        A = np.outer(A[0], A[:, 0]).astype(A.dtype)
    elif pat == "signs":
        A = np.where(rng.random((n, n)) < 0.5, -1, 1).astype(A.dtype)
    elif pat == "zeromat":
        A = np.zeros_like(A)
    return A


def rng_of(R, s):
    return np.random.default_rng([R.seed, zlib.crc32(repr(sorted(s.items())).encode())])


def perms(R, method):
    import thewalrus as tw

    for s in R.scen["Gen_C06"]:
        if s["op"] != "perm" or s["method"] != method:
            continue
        A = layout(matrix(rng_of(R, s), s["n"], s["dt"], s["pat"]), s["lay"])
        key = "perm/{method}/n={n}/{dt}/{pat}/{lay}/{v}".format(**s)
        f = (lambda: tw.perm(A)) if method == "bbfg" and s["v"] == 1 else (lambda: tw.perm(A, method=method))
        R.call("perm", key, {"A": A, "dt": s["dt"], "method": method}, f)


def rep(R):
    import thewalrus as tw

    for s in R.scen["Gen_C06"]:
        if s["op"] != "permanent_repeated":
            continue
        rng = rng_of(R, s)
        r = s["rpt"]
        A = matrix(rng, len(r), s["dt"], s["pat"])
        rr = [r, tuple(r), np.array(r)][s["cont"]]
        R.call("permanent_repeated", f"permanent_repeated/{r}/{s['dt']}/{s['pat']}/cont={s['cont']}/{s['v']}", {"A": A, "rpt": r}, lambda: tw.permanent_repeated(A, rr))


def fock(R):
    from thewalrus._permanent import fock_prob

    for s in R.scen["Gen_C06"]:
        if s["op"] != "fock":
            continue
        rng = rng_of(R, s)
        n = s["n"]
        M, N = len(n), sum(n)
        u = s["u"]
        U = haar(rng, M, real=(u == "real"))
        if u == "perm":
            U = np.eye(M)[rng.permutation(M)]
        elif u == "ident":
            U = np.eye(M, dtype=complex)
        elif u == "block" and M > 1:
            U = np.zeros((M, M), complex)
            U[: M // 2, : M // 2] = haar(rng, M // 2)
            U[M // 2 :, M // 2 :] = haar(rng, M - M // 2)
        elif u == "sub":
            U = (U @ np.diag(rng.uniform(0.2, 1, M)))
        outs = [list(o) for o in itertools.product(range(N + 1), repeat=M) if sum(o) == N]
        c = [list, tuple, np.array][s["cont"]]
        inp = {"U": U, "n": n, "outs": outs}
        inp = enc(inp)
        inp["unitary"] = u != "sub"
        R.call("fock", f"fock/{n}/{u}/{s['v']}", inp, lambda: np.array([fock_prob(c(n), c(o), U) for o in outs]))
        if s["v"] == 1:
            o = list(n)
            o[int(rng.integers(M))] += 1
            R.call("fock_reject", f"fock_reject/{n}->{o}", {"n": n, "m": o}, lambda: fock_prob(n, o, U))


# the raw dict keeps booleans as JSON booleans
JOBS = {"bbfg": lambda R: perms(R, "bbfg"), "ryser": lambda R: perms(R, "ryser"), "rep": rep, "fock": fock}

if __name__ == "__main__":
    import c06

    main(c06)
