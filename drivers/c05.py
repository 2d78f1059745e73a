"""C05: loop_hafnian_batch and loop_hafnian_batch_gamma."""
import zlib
import numpy as np
from harness import *
from c05_meta import META


def run(R, sel):
    from thewalrus.loop_hafnian_batch import loop_hafnian_batch
    from thewalrus.loop_hafnian_batch_gamma import loop_hafnian_batch_gamma

    for s in R.scen["Gen_C05"]:
        if not sel(s):
            continue
        fix, K, dt = list(s["fix"]), s["K"], s["dt"]
        n = len(fix) + 1
        rng = np.random.default_rng([R.seed, zlib.crc32(repr(sorted(s.items())).encode())])
        A = sym(rmat(rng, n, n, dt))
        D = rmat(rng, s["nb"] if s["op"] == "gamma" else 1, n, dt)
        z = A.dtype.type(0)
        if s["pat"] == "zeroD":
            D = np.zeros_like(D)
        elif s["pat"] == "zerolast":
            A[-1, :] = z
            A[:, -1] = z
        elif s["pat"] == "zeromat":
            A = np.zeros_like(A)
        elif s["pat"] == "sparse":
            A = A * sym(rng.integers(0, 2, (n, n)))
            D = D * rng.integers(0, 2, D.shape)
        cont = rng.integers(3)
        f_ = [fix, tuple(fix), np.array(fix, dtype=int)][cont]
        key = f"{s['op']}/{fix}/K={K}/glynn={s['glynn']}/{dt}/{s['pat']}/nb={s['nb']}/cont={cont}"
        if s["op"] == "batch":
            R.call("batch", key, {"A": A, "D": D[0], "fix": fix, "K": K}, lambda: loop_hafnian_batch(A, D[0], f_, K, glynn=s["glynn"]))
        else:
            R.call("gamma", key, {"A": A, "D": D, "fix": fix, "K": K}, lambda: loop_hafnian_batch_gamma(A, D, f_, K, glynn=s["glynn"]))


JOBS = {
    "beven": lambda R: run(R, lambda s: s["op"] == "batch" and sum(s["fix"]) % 2 == 0),
    "bodd": lambda R: run(R, lambda s: s["op"] == "batch" and sum(s["fix"]) % 2 == 1),
    "geven": lambda R: run(R, lambda s: s["op"] == "gamma" and sum(s["fix"]) % 2 == 0),
    "godd": lambda R: run(R, lambda s: s["op"] == "gamma" and sum(s["fix"]) % 2 == 1),
}

if __name__ == "__main__":
    import c05

    main(c05)
