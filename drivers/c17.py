"""C17: Fock-basis gates and their gradients."""
import os
import zlib
import numpy as np
from harness import *
from c17_meta import META

ONE = ("displacement", "squeezing")


def run(R, sel, tag=""):
    import thewalrus.fock_gradients as fg

    for s in R.scen["Gen_C17"]:
        if not sel(s):
            continue
        rng = np.random.default_rng([R.seed, zlib.crc32(repr(sorted(s.items())).encode())])
        a = float(rng.normal()) if s["a"] == "rnd" else float(s["a"])
        b = float(rng.uniform(-4, 4)) if s["b"] == "rnd" else float(s["b"])
        g, c = s["g"], s["cut"]
        dt = np.complex64 if s["dt"] == "c64" else np.complex128
        fn = getattr(fg, g)
        gate = (lambda: fn(a, b, c, dt)) if s["dt"] == "c64" else (lambda: fn(a, b, c))
        inp = {"g": g, "a": a, "b": b, "cut": c, "tol": 2e-5 if s["dt"] == "c64" else 1e-9}
        key = tag + "/".join(str(s[k]) for k in ("op", "g", "a", "b", "cut", "dt"))
        flat = lambda o: (np.array(np.shape(o)), np.asarray(o).reshape(-1))
        if s["op"] == "gate":
            R.call("gate", key, inp, gate, flat)
        else:
            R.call("grad", key, inp, lambda: getattr(fg, "grad_" + g)(gate(), a, b), lambda o: flat(o[0]) + flat(o[1]))


def bounds(R):
    os.environ["NUMBA_BOUNDSCHECK"] = "1"
    run(R, lambda s: s["cut"] <= 2 and s["a"] in ("0", "rnd") and s["b"] == "rnd", "bounds:")


JOBS = {
    "one": lambda R: run(R, lambda s: s["g"] in ONE),
    "two": lambda R: run(R, lambda s: s["g"] not in ONE),
    "bounds": bounds,
}

if __name__ == "__main__":
    import c17

    main(c17)
