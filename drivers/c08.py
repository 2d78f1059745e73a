"""C08: brs, ubrs, fock_threshold_prob."""
import itertools
import zlib
import numpy as np
from harness import *
from c08_meta import META


def rng_of(R, s):
    return np.random.default_rng([R.seed, zlib.crc32(repr(sorted(s.items())).encode())])


def bris(R, op):
    import thewalrus as tw

    for s in R.scen["Gen_C08"]:
        if s["op"] != op:
            continue
        rng = rng_of(R, s)
        m, n = s["m"], s["n"]
        A = layout(rmat(rng, m, n, s["dt"]), s["lay"])
        key = "{op}/{m}x{n}/{dt}/{ek}/{lay}/{v}".format(**s)
        if op == "ubrs":
            R.call("ubrs", key, {"A": A, "n": n}, lambda: tw.ubrs(A))
            continue
        B = rmat(rng, n, n, s["dt"])
        E = B @ B.conj().T / max(n, 1)
        if s["ek"] == "zero":
            E = np.zeros_like(E)
        elif s["ek"] == "diag":
            E = np.diag(np.diag(E)) if n else E
        elif s["ek"] == "ident":
            E = np.eye(n, dtype=E.dtype)
        R.call("brs", key, {"A": A, "E": E}, lambda: tw.brs(A, E))


def trans(rng, M, t):
    U = haar(rng, M, real=t == "realU")
    if t == "uniform":
        return U * np.sqrt(rng.uniform(0.2, 0.95))
    if t.startswith("weak") and t != "weakone":  # almost lossless
        return U * np.sqrt(1 - 10.0 ** -int(t[4:]))
    if t == "strong4":  # almost nothing gets through
        return U * np.sqrt(1e-4)
    if t == "weakone":
        d = np.ones(M)
        d[rng.integers(M)] = 1 - 1e-4
        return U @ np.diag(d) @ haar(rng, M)
    if t == "nonuniform":
        return haar(rng, M) @ np.diag(rng.uniform(0.1, 1, M)) @ U
    if t == "fewerout" and M > 1:
        return U[: int(rng.integers(1, M))]
    if t == "perm":
        return np.eye(M)[rng.permutation(M)]
    if t == "onelost":
        d = np.ones(M)
        d[rng.integers(M)] = 0
        return U @ np.diag(d)
    if t == "singular":
        return np.zeros((M, M)) if rng.random() < 0.5 else 0.9 * np.outer(U[0], U[:, 0].conj())
    return U


def fock(R):
    from thewalrus._permanent import fock_threshold_prob

    for s in R.scen["Gen_C08"]:
        if s["op"] != "fock":
            continue
        rng = rng_of(R, s)
        n = s["n"]
        T = trans(rng, len(n), s["t"])
        pats = [list(p) for p in itertools.product((0, 1), repeat=T.shape[0])]
        c = [list, tuple, np.array][s["cont"]]
        R.call("fock", f"fock/{n}/{s['t']}/{s['v']}", {"T": T, "n": n, "patterns": pats}, lambda: np.array([fock_threshold_prob(c(n), c(p), T) for p in pats]))
        if s["v"] == 1:
            R.call("reject", f"reject/{n}/n-too-long", {"n": n}, lambda: fock_threshold_prob(n + [0], pats[0], T))
            R.call("reject", f"reject/{n}/d-too-long", {"n": n}, lambda: fock_threshold_prob(n, pats[0] + [0], T))
            R.call("reject", f"reject/{n}/T-too-tall", {"n": n}, lambda: fock_threshold_prob([1], [1, 0], np.ones((2, 1)) / 2))


JOBS = {"brs": lambda R: bris(R, "brs"), "ubrs": lambda R: bris(R, "ubrs"), "fock": fock}

if __name__ == "__main__":
    import c08

    main(c08)
