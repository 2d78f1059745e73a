"""C09: montrealers and cumulants."""
import zlib
import numpy as np
from harness import *
from c09_meta import META
from c07 import state


def rng_of(R, s):
    return np.random.default_rng([R.seed, zlib.crc32(repr(sorted(s.items())).encode())])


def matrix(rng, n, dt, pat):
    A = sym(rmat(rng, 2 * n, 2 * n, dt))
    if pat == "state":
        _, V = gauss(rng, n)
        F = np.block([[np.eye(n), 1j * np.eye(n)], [np.eye(n), -1j * np.eye(n)]])
        Q = F @ V @ F.conj().T / 4 + np.eye(2 * n) / 2
        A = (Q - np.eye(2 * n))[np.r_[n : 2 * n, 0:n]]
        A = (A + A.T) / 2
    elif pat == "sparse":
        A = A * sym((rng.random((2 * n, 2 * n)) < 0.5).astype(int))
    elif pat == "diagonly":
        A = np.diag(np.diag(A)) + np.roll(np.eye(2 * n), n, axis=0)
    elif pat == "ones":
        A = np.ones((2 * n, 2 * n))
    elif pat == "blocks":
        A[:n, :n] = 0
        A[n:, n:] = 0
    elif pat == "graph":
        A = sym(rng.integers(0, 2, (2 * n, 2 * n)))
    return A


def mtls(R, op):
    import thewalrus as tw
    from thewalrus import reference

    for s in R.scen["Gen_C09"]:
        if s["op"] != op:
            continue
        rng = rng_of(R, s)
        n = s["n"]
        A = matrix(rng, n, s["dt"], s["pat"])
        key = "{op}/n={n}/{dt}/{pat}/{v}".format(**s)
        loop = op in ("lmtl", "refloop")
        B = np.array(A)
        if loop:
            # loop weights in conjugate pairs, as the displacements of a state
            z = rng.normal(size=n) + (1j * rng.normal(size=n) if np.iscomplexobj(A) else 0)
            if s["pat"] == "sparse":
                z[rng.integers(n)] = 0
            zeta = np.concatenate([z, z.conj()])
            B = np.array(A).astype(zeta.dtype if zeta.dtype.kind == "c" else float)
            np.fill_diagonal(B, zeta.conj())
        inp = enc({"A": B, "fn": op})
        inp["loop"] = loop
        if op == "mtl":
            f = lambda: tw.mtl(A)
        elif op == "lmtl":
            f = lambda: tw.lmtl(B if s["v"] == 1 else A, zeta)
        else:
            f = lambda: reference.mtl(B, loop=loop)
        R.call("mtl", key, inp, f)


def cums(R, op):
    from thewalrus.quantum import photon_number_cumulant, click_cumulant

    for s in R.scen["Gen_C09"]:
        if s["op"] != op:
            continue
        rng = rng_of(R, s)
        hb = float(s["hb"])
        mu, V = state(rng, s["N"], s["kind"], hb)
        if not s["disp"]:
            mu = np.zeros_like(mu)
        m = [list, tuple, np.array][s["cont"]](s["modes"])
        f = photon_number_cumulant if op == "photon" else click_cumulant
        kw = {} if hb == 2 else {"hbar": hb}
        R.call(op, "{op}/{modes}/N={N}/{kind}/disp={disp}/hb={hb}/{v}".format(**s), {"mu": mu, "V": V, "hbar": hb, "modes": s["modes"]}, lambda: f(mu, V, m, **kw))


JOBS = {
    "mtl": lambda R: mtls(R, "mtl"),
    "lmtl": lambda R: mtls(R, "lmtl"),
    "ref": lambda R: (mtls(R, "ref"), mtls(R, "refloop")),
    "photon": lambda R: cums(R, "photon"),
    "click": lambda R: cums(R, "click"),
}

if __name__ == "__main__":
    import c09

    main(c09)
