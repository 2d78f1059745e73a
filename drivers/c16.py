"""C16: decompositions."""
import zlib
import numpy as np
from harness import *
from c16_meta import META


def rng_of(R, s):
    return np.random.default_rng([R.seed, zlib.crc32(repr(sorted(s.items())).encode())])


def symp(rng, n, kind="generic"):
    r = rng.uniform(-1, 1, n)
    sq = lambda r: np.diag(np.exp(np.concatenate([r, -r])))
    U, W = usymp(haar(rng, n)), usymp(haar(rng, n))
    I, Z = np.eye(n), np.zeros((n, n))
    B = sym(rng.normal(size=(n, n)))
    if kind == "identity":
        return np.eye(2 * n)
    if kind == "minusid":
        return -np.eye(2 * n)
    if kind == "passive":
        return U
    if kind == "squeeze":
        return sq(r)
    if kind == "negsqueeze":
        return sq(-np.abs(r))
    if kind == "squeezedeg":
        return sq(np.full(n, r[0]))
    if kind == "shear":
        return np.block([[I, Z], [B, I]])
    if kind == "shearT":
        return np.block([[I, B], [Z, I]])
    if kind == "xscale":
        G = rng.normal(size=(n, n)) + 2 * I
        return np.block([[G, Z], [Z, np.linalg.inv(G).T]])
    if kind == "cz":
        A = np.triu(rng.integers(0, 2, (n, n)), 1)
        return np.block([[I, Z], [A + A.T, I]])
    if kind == "tms":
        S = np.eye(2 * n)
        if n > 1:
            c, s = np.cosh(0.7), np.sinh(0.7)
            S[:2, :2] = [[c, s], [s, c]]
            S[n : n + 2, n : n + 2] = [[c, -s], [-s, c]]
        return S
    if kind == "perm":
        return usymp(np.eye(n)[rng.permutation(n)])
    if kind == "degen":
        return U @ sq(np.full(n, r[0])) @ W
    if kind == "oneone":
        r[1:] = 0
        return U @ sq(r) @ W
    if kind == "rotsq":
        return usymp(np.diag(np.exp(1j * rng.uniform(-3, 3, n)))) @ sq(r)
    if kind == "inverse":
        return np.linalg.inv(U @ sq(r) @ W)
    return U @ sq(r) @ W


def spd(rng, n, kind):
    G = rng.normal(size=(2 * n, 2 * n))
    V = G @ G.T + 0.3 * np.eye(2 * n)
    S = symp(rng, n)
    if kind == "identity":
        V = np.eye(2 * n)
    elif kind == "scaledid":
        V = np.eye(2 * n) * rng.uniform(0.1, 5)
    elif kind == "diag":
        V = np.diag(rng.uniform(0.2, 4, 2 * n))
    elif kind == "diagdeg":
        V = np.diag(rng.choice([1.0, 2.0], 2 * n))
    elif kind == "pure":
        V = S @ S.T
    elif kind == "thermaldeg":
        V = 1.7 * S @ S.T
    elif kind == "neardeg":
        d = 1 + rng.choice([0, 1e-7, 1e-10, 1e-13], n)
        V = S @ np.diag(np.tile(d, 2)) @ S.T
    elif kind == "product":
        V = np.kron(np.array([[1.5, 0.4], [0.4, 1.1]]), np.eye(n))
    elif kind == "tms":
        T = symp(rng, n, "tms")
        V = T @ T.T
    elif kind == "ill":
        S = usymp(haar(rng, n)) @ np.diag(np.exp(np.concatenate([r := rng.uniform(2, 3, n), -r]))) @ usymp(haar(rng, n))
        V = S @ np.diag(np.tile(rng.uniform(1, 3, n), 2)) @ S.T
    elif kind == "int":
        K = rng.integers(-2, 3, (2 * n, 2 * n))
        V = K @ K.T + 2 * np.eye(2 * n, dtype=int)
    elif kind == "classical":
        V = np.eye(2 * n) + G @ G.T
    elif kind == "graph":
        A = np.triu(rng.integers(0, 2, (2 * n, 2 * n)), 1)
        V = (A + A.T) + (2 * n) * np.eye(2 * n)
    elif kind == "xpcorr":
        V = np.block([[2 * np.eye(n), np.eye(n)], [np.eye(n), 2 * np.eye(n)]])
    return (V + V.T) / 2 if kind != "int" else V


def symm(rng, n, kind):
    U, O = haar(rng, n), haar(rng, n, real=True)
    B = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
    ph = np.exp(1j * rng.uniform(-3, 3, n))
    if kind == "identity":
        return np.eye(n)
    if kind == "negid":
        return -np.eye(n)
    if kind == "iid":
        return 1j * np.eye(n)
    if kind == "diag":
        return np.diag(ph * rng.random(n))
    if kind == "diaginc":
        return np.diag(ph * np.arange(1, n + 1))
    if kind == "diagdeg":
        return np.diag(ph * rng.choice([1.0, 2.0, 0.0], n))
    if kind == "real":
        return sym(B.real)
    if kind == "realdiag":
        return np.diag(B.real[0])
    if kind == "realdeg":
        return O @ np.diag(rng.choice([-1.0, 1, 0, 2], n)) @ O.T
    if kind == "imag":
        return 1j * sym(B.real)
    if kind == "phasereal":
        return np.exp(0.7j) * sym(B.real)
    if kind == "phasedeg":
        return O @ np.diag(np.exp(1j * rng.choice([0, np.pi / 2, np.pi, 0.3], n))) @ O.T
    if kind == "unitary":
        return U @ U.T
    if kind == "degen":
        return U @ np.diag(rng.choice([1.0, 2.0], n)) @ U.T
    if kind == "neardeg":
        return U @ np.diag(1 + rng.choice([0, 1e-5, 1e-8, 1e-11, 1e-14], n)) @ U.T
    if kind == "singular":
        return U @ np.diag(rng.choice([0.0, 1, 1, 2], n)) @ U.T
    if kind == "rank1":
        return np.outer(B[0], B[0])
    if kind == "zero":
        return np.zeros((n, n), dtype=complex)
    if kind in ("antidiag", "antidiagU"):
        X = B if kind == "antidiag" else U
        m = n // 2
        A = np.zeros((n, n), dtype=complex)
        A[:m, n - m :] = X[:m, :m] if kind == "antidiag" else haar(rng, m) if m else 0
        return A + A.T
    if kind == "gaussint":
        return sym(rng.choice([0, 1, 1j, -1, -1j], (n, n)))
    if kind == "blkint":
        P = np.eye(n)[rng.permutation(n)]
        return np.kron(P + P.T, np.array([[1, 1j], [1j, 1]]))
    if kind == "halfzero":
        A = sym(B)
        A[: n // 2] = 0
        A[:, : n // 2] = 0
        return A
    if kind == "tinyim":
        return sym(B.real + 1e-12j * B.imag)
    if kind == "int":
        return sym(rng.integers(-3, 4, (n, n)))
    if kind == "f32":
        return sym(B).astype(np.complex64)
    if kind == "lowertri":
        return np.triu(B) + np.tril(rng.normal(size=(n, n)), -1)
    if kind == "permgraph":
        return sym(np.triu(rng.integers(0, 2, (n, n)), 1).T)
    return sym(B)


def run(R):
    import thewalrus.decompositions as dc

    for s in R.scen["Gen_C16"]:
        rng = rng_of(R, s)
        op = s["op"]
        if op == "rej":
            f = {
                "w_rect": lambda: dc.williamson(np.ones((2, 4))),
                "w_asym": lambda: dc.williamson(np.eye(4) + np.diag([0.5] * 3, 1)),
                "w_odd": lambda: dc.williamson(np.eye(3)),
                "w_neg": lambda: dc.williamson(np.diag([1.0, 1, 1, -1])),
                "w_zero": lambda: dc.williamson(np.diag([1.0, 1, 1, 0])),
                "t_rect": lambda: dc.takagi(np.ones((2, 3))),
                "b_nonsymp": lambda: dc.blochmessiah(2 * np.eye(4)),
                "p_nonsymp": lambda: dc.pre_iwasawa(2 * np.eye(4)),
                "i_nonsymp": lambda: dc.iwasawa(np.ones((4, 4))),
                "b_odd": lambda: dc.blochmessiah(np.eye(3)),
            }[s["kind"]]
            R.call("reject", s["kind"], {"fn": s["kind"]}, f)
            continue
        n, k = s["n"], s["kind"]
        key = "/".join(f"{s[x]}" for x in ("n", "kind", "lay", "so", "v") if x in s)
        if op == "williamson":
            V = spd(rng, n, k)
            R.call(op, key, {"V": V, "tol": 1e-7 if k == "ill" else 1e-9}, lambda: dc.williamson(layout(V, s["lay"])))
        elif op == "eigenvals":
            V = spd(rng, n, k)
            R.call(op, key, {"V": V, "tol": 1e-6 if k == "ill" else 1e-8}, lambda: dc.symplectic_eigenvals(V))
        elif op == "takagi":
            A = symm(rng, n, k)
            inp = enc({"A": A, "tol": 1e-4 if k == "f32" else 2e-8})
            inp["desc"] = s["so"] == "desc"
            R.call(op, key, inp, (lambda: dc.takagi(A)) if s["so"] == "desc" else (lambda: dc.takagi(A, svd_order=False)))
        else:
            S = symp(rng, n, k)
            if s["v"] == 0 and k in ("perm", "identity", "cz"):
                S = S.astype(int) if k != "perm" else S
            R.call(op, key, {"S": S, "tol": 1e-8}, lambda: getattr(dc, op)(S))


JOBS = {"all": run}

if __name__ == "__main__":
    import c16

    main(c16)
