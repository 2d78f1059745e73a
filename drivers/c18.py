"""C18: Fock tensors of Gaussian unitaries."""
import zlib
import numpy as np
from harness import *
from c16 import symp
from c18_meta import META


def alpha_of(rng, n, kind):
    z = (rng.normal(size=n) + 1j * rng.normal(size=n)) * 0.5
    return {
        "zero": np.zeros(n), "real": z.real, "complex": z, "imag": 1j * z.imag, "first": z * (np.arange(n) == 0),
        "last": z * (np.arange(n) == n - 1), "int": rng.integers(-1, 2, n), "tiny": z * 1e-3,
    }[kind]


def run(R, n):
    from thewalrus.quantum import fock_tensor

    for s in R.scen["Gen_C18"]:
        rng = np.random.default_rng([R.seed, zlib.crc32(repr(sorted(s.items())).encode())])
        if s["op"] != "tensor":
            if n != 1:
                continue
            S = symp(rng, 1)
            N = np.diag([2.0, 1.0])
            f = {
                "nonsymp": lambda: fock_tensor(N, np.zeros(1), 3),
                "scaled": lambda: fock_tensor(1.01 * S, np.zeros(1), 3),
                "lowertri": lambda: fock_tensor(np.array([[1, 0, 0, 0], [0, 1, 0, 0], [1, 1, 1, 0], [0, 0, 0, 1.0]]), np.zeros(2), 3),
                "alphalen": lambda: fock_tensor(S, np.zeros(2), 3),
                "alphashort": lambda: fock_tensor(symp(rng, 2), np.zeros(1), 3),
                "nocheck": lambda: fock_tensor(N, np.zeros(1), 3, check_symplectic=False) is not None,
                "looseTol": lambda: fock_tensor(1.0001 * S, np.zeros(1), 3, rtol=0.1, atol=0.1) is not None,
            }[s["kind"]]
            R.call(s["op"], s["kind"], {"fn": s["kind"]}, f)
            continue
        if s["n"] != n:
            continue
        S = symp(rng, n, s["kind"])
        if s["kind"] in ("identity", "cz") and s["v"] == 0:
            S = S.astype(int)
        al = alpha_of(rng, n, s["alpha"])
        kw = {} if s["choi"] == "def" else {"choi_r": float(s["choi"])}
        if s["sf"]:
            kw["sf_order"] = True
        arg = list(al) if s["alpha"] == "real" else al
        inp = {"S": S, "alpha": al, "cut": s["cut"], "sf": bool(s["sf"]), "tol": 1e-7, "passive": bool(np.array_equal(al, 0 * al) and np.allclose(S @ S.T, np.eye(2 * n), atol=1e-12))}
        key = "/".join(str(s[k]) for k in ("n", "kind", "alpha", "choi", "sf", "cut", "v"))
        R.call("tensor", key, inp, lambda: fock_tensor(S, arg, s["cut"], **kw), lambda o: (np.array(np.shape(o)), np.asarray(o).reshape(-1)))


JOBS = {f"n{n}": (lambda R, n=n: run(R, n)) for n in (1, 2, 3)}

if __name__ == "__main__":
    import c18

    main(c18)
