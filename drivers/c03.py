"""C03: hafnian_sparse, hafnian_banded, bandwidth, low_rank_hafnian."""
import zlib
import numpy as np
from harness import *
from c03_meta import META


def nz(rng, shape, dt):
    """entries bounded away from zero"""
    A = rmat(rng, shape[0], shape[1], dt)
    return np.where(np.abs(A) < 0.05, A.dtype.type(1), A)


def build(rng, s):
    n, dt = s["n"], s["dt"]
    if s["op"] == "lowrank":
        G = rmat(rng, n, s["r"], dt)
        if s["v"] == 2 and n > 2:
            G[rng.integers(n)] = 0
        return G
    A = sym(nz(rng, (n, n), dt)) if n else np.zeros((0, 0))
    M = np.zeros((n, n), dtype=int)
    if s["w"] == 0:
        for i, j in s["edges"]:
            M[i, j] = M[j, i] = 1
        diag = {0: rng.integers(0, 2, n), 1: np.ones(n), 2: rng.integers(0, 2, n)}[s["loops"]]
    elif s["w"] == 1:
        for k in s["sub"]:
            if k < n:
                keep = (rng.random(n - k) < 0.9).astype(int)
                M += np.diag(keep, k) + np.diag(keep, -k)
        diag = np.ones(n) if s["loops"] == 1 else rng.integers(0, 2, n)
    else:
        p = rng.choice([0.2, 0.4, 0.7])
        M = sym((rng.random((n, n)) < p).astype(int))
        diag = rng.integers(0, 2, n)
    np.fill_diagonal(M, diag)
    return np.where(M > 0, A, A.dtype.type(0))


def run(R, ops):
    import thewalrus as tw
    from thewalrus._hafnian import bandwidth

    for s in R.scen["Gen_C03"]:
        if s["op"] not in ops:
            continue
        rng = np.random.default_rng([R.seed, zlib.crc32(repr(sorted((k, v) for k, v in s.items() if k != "op")).encode())])
        A = build(rng, s)
        key = "{op}/n={n}/edges={edges}/loops={loops}/loop={loop}/{dt}/w={w}/r={r}/sub={sub}/{v}".format(**s)
        inp = enc({"A": A, "loop": bool(s["loop"]), "sub": s["sub"] if s["hassub"] else [], "hassub": bool(s["hassub"])})
        f = {
            "sparse": lambda: tw.hafnian_sparse(A, D=set(s["sub"]) if s["hassub"] else None, loop=s["loop"]),
            "banded": lambda: tw.hafnian_banded(A, loop=s["loop"]),
            "bandwidth": lambda: bandwidth(A),
            "lowrank": lambda: tw.low_rank_hafnian(A),
        }[s["op"]]
        R.call(s["op"], key, inp, f)


JOBS = {
    "sparse": lambda R: run(R, ("sparse",)),
    "banded": lambda R: run(R, ("banded", "bandwidth")),
    "low": lambda R: run(R, ("lowrank",)),
}

if __name__ == "__main__":
    import c03

    main(c03)
