"""C02: hafnian_repeated, loop_hafnian(A, D, reps), reduction."""
import zlib
import numpy as np
from harness import *
from c02_meta import META


def run(R, sel):
    import thewalrus as tw

    for s in R.scen["Gen_C02"]:
        if not sel(s):
            continue
        rpt = list(s["rpt"])
        if sum(rpt) > 18 and not s["glynn"]:
            continue
        n, dt = len(rpt), s["dt"]
        rng = np.random.default_rng([R.seed, zlib.crc32(repr(sorted(s.items())).encode())])
        A = sym(rmat(rng, n, n, dt))
        mu = rmat(rng, 1, n, dt)[0]
        if rng.integers(4) == 0:
            mu[rng.integers(n)] = 0
        z = A.dtype.type(0)
        if s["pat"] == "diag":
            A = np.diag(np.diag(A))
        elif s["pat"] == "zeromat":
            A = np.zeros_like(A)
        elif s["pat"] == "zerorow":
            k = rng.integers(n)
            A[k, :] = z
            A[:, k] = z
        elif s["pat"] == "offdiag":
            np.fill_diagonal(A, z)
        D = mu if s["mu"] else np.diag(A)
        r = {"list": rpt, "tuple": tuple(rpt), "array": np.array(rpt)}[s["cont"]]
        key = f"{s['op']}/{rpt}/loop={s['loop']}/glynn={s['glynn']}/mu={s['mu']}/{dt}/{s['cont']}/{s['lay']}/{s['pat']}"
        inp = enc({"A": A, "D": D, "mu": mu, "rpt": rpt, "loop": bool(s["loop"]), "glynn": bool(s["glynn"]), "dt": dt, "vec": bool(s["mu"])})
        A = layout(A, s["lay"])
        m = mu.copy() if s["mu"] else None
        if s["op"] == "hafnian_repeated":
            f = lambda: tw.hafnian_repeated(A, r, mu=m, loop=s["loop"], glynn=s["glynn"])
        elif s["op"] == "loop_hafnian":
            f = lambda: tw.loop_hafnian(A, m, r, glynn=s["glynn"])
        else:
            f = lambda: tw.reduction(mu if s["mu"] else A, r)
        R.call(s["op"], key, inp, f)


JOBS = {
    "haf": lambda R: run(R, lambda s: s["op"] == "hafnian_repeated" and not s["loop"]),
    "loopeven": lambda R: run(R, lambda s: s["op"] != "reduction" and s["loop"] and sum(s["rpt"]) % 2 == 0),
    "loopodd": lambda R: run(R, lambda s: s["op"] != "reduction" and s["loop"] and sum(s["rpt"]) % 2 == 1),
    "red": lambda R: run(R, lambda s: s["op"] == "reduction"),
}

if __name__ == "__main__":
    import c02

    main(c02)
