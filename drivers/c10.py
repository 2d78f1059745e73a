"""C10: charpoly and powertrace."""
import zlib
import numpy as np
from harness import *
from c10_meta import META


def matrix(rng, n, dt, pat):
    A = rmat(rng, n, n, dt)
    if n == 0:
        return A
    dty = A.dtype
    if pat == "diag":
        A = np.diag(np.diag(A))
    elif pat == "upper":
        A = np.triu(A)
    elif pat == "lower":
        A = np.tril(A)
    elif pat == "nilpotent":
        A = np.triu(A, 1)
        if rng.random() < 0.5:
            P = rng.permutation(n)
            A = A[np.ix_(P, P)]
    elif pat == "jordan":
        A = np.eye(n) * A[0, 0] + np.diag(np.ones(n - 1), 1 if rng.random() < 0.5 else -1)
    elif pat == "ident":
        A = np.eye(n) * A[0, 0]
    elif pat == "rank1":
        A = np.outer(A[0], A[:, 0])
    elif pat == "zero":
        A = np.zeros((n, n))
    elif pat == "companion":
        B = np.diag(np.ones(n - 1), -1).astype(dty)
        B[:, -1] = A[:, 0]
        A = B
    elif pat == "hermitian":
        A = A + A.conj().T
    elif pat == "zerocols":
        A[:, rng.random(n) < 0.4] = 0
    elif pat == "blockperm":
        A = np.eye(n)[rng.permutation(n)]
    elif pat == "repeated":
        q = haar(rng, n, real=not np.iscomplexobj(A))
        d = np.repeat(rng.normal(size=(n + 1) // 2), 2)[:n]
        A = q @ np.diag(d) @ q.conj().T
    elif pat == "orthogonal":
        A = haar(rng, n, real=not np.iscomplexobj(A))
    elif pat == "hessenberg":
        A = np.triu(A, -1)
    elif pat == "tiny":
        A = A * np.array([1e-7, 1.0])[rng.integers(0, 2, (n, n))]
    elif pat == "sparse":
        A = A * (rng.random((n, n)) < 0.35)
    return np.asarray(A).astype(dty)


def run(R, sel):
    from thewalrus.charpoly import charpoly, powertrace

    for s in R.scen["Gen_C10"]:
        if not sel(s):
            continue
        rng = np.random.default_rng([R.seed, zlib.crc32(repr(sorted(s.items())).encode())])
        A = layout(matrix(rng, s["n"], s["dt"], s["pat"]), s["lay"])
        B = A.copy()
        key = "{op}/n={n}/{dt}/{pat}/{lay}/k={pw}/{v}".format(**s)
        if s["op"] == "charpoly":
            if s["n"] == 0:
                continue  # an empty list has no element type
            R.call("charpoly", key, {"A": B, "dt": s["dt"]}, lambda: charpoly(A))
        else:
            R.call("powertrace", key, {"A": B, "dt": s["dt"], "k": s["pw"]}, lambda: powertrace(A, s["pw"]))
        R.call("argument", key, {"A": B, "fn": s["op"]}, lambda: A)


cplx = lambda s: s["dt"] in ("complex", "imag", "c64")
JOBS = {
    "cr": lambda R: run(R, lambda s: s["op"] == "charpoly" and not cplx(s)),
    "cc": lambda R: run(R, lambda s: s["op"] == "charpoly" and cplx(s)),
    "pr": lambda R: run(R, lambda s: s["op"] == "powertrace" and not cplx(s)),
    "pc": lambda R: run(R, lambda s: s["op"] == "powertrace" and cplx(s)),
}

if __name__ == "__main__":
    import c10

    main(c10)
