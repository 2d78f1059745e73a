"""C04: hermite_multidimensional, hafnian_batched, interferometer, gradients."""
import zlib
import numpy as np
from harness import *
from c04_meta import META


def run(R_, sel):
    import thewalrus as tw
    from thewalrus._hermite_multidimensional import hermite_multidimensional, hafnian_batched, interferometer, grad_hermite_multidimensional

    for s in R_.scen["Gen_C04"]:
        if not sel(s):
            continue
        n, dt, op = s["n"], s["dt"], s["op"]
        rng = np.random.default_rng([R_.seed, zlib.crc32(repr(sorted(s.items())).encode())])
        cut = tuple(s["cut"])
        R = sym(rmat(rng, n, n, dt))
        if op == "interferometer":
            m = n // 2
            U = haar(rng, m) if dt != "real" else haar(rng, m, real=True)
            R = np.block([[np.zeros((m, m)), -U], [-U.T, np.zeros((m, m))]])
        y = rmat(rng, 1, n, dt if s["y"] == "same" else "real")[0]
        if s["y"] == "zero":
            y = np.zeros(n)
        C = {"one": 1, "half": 0.5, "cplx": 0.3 - 0.7j, "int": 3, "big": 2.5}[s["C"]]
        if op == "batched":
            C = 1
        ck = s["ck"]
        c = {"scalar": cut[0], "tuple": cut, "list": list(cut), "array": np.array(cut)}[ck]
        if op == "grad":
            y = rmat(rng, 1, n, dt)[0]
            A = R.astype(complex) if dt in ("complex", "imag") else R.astype(float)
            y = y.astype(A.dtype)
            G = np.array(hermite_multidimensional(A, cut, y=y, C=C, renorm=s["renorm"], modified=True))
            inp = {"R": A, "y": y, "C": C, "cut": list(cut), "renorm": bool(s["renorm"]), "dt": dt}
            key = f"grad/{cut}/renorm={s['renorm']}/{dt}/{s['C']}"

            def post(o):
                dC, dR, dy = (np.asarray(z) for z in o)
                N = int(np.prod(cut))
                dC, dR, dy = dC.reshape(N), dR.reshape(N, n, n), dy.reshape(N, n)
                dRs = dR + np.transpose(dR, (0, 2, 1))
                for i in range(n):
                    dRs[:, i, i] = dR[:, i, i]
                return (dC, dy, dRs)

            R_.call("grad", key, inp, lambda: grad_hermite_multidimensional(G, A, y, C=C, renorm=s["renorm"]), post)
            continue
        ymode = "none"
        if s["y"] != "none" and op != "interferometer":
            ymode = "modified" if (op == "batched" or s["modified"]) else "standard"
        inp = {"R": R, "y": y, "ymode": ymode, "C": C, "cut": list(cut), "renorm": bool(s["renorm"]), "tensor": bool(s["tensor"]), "dt": dt}
        key = f"{op}/{cut}/{ck}/renorm={s['renorm']}/tensor={s['tensor']}/y={s['y']}:{ymode}/{dt}/C={C}"
        yy = None if ymode == "none" else y
        if op == "hermite":
            f = lambda: hermite_multidimensional(R, c, y=yy, C=C, renorm=s["renorm"], make_tensor=s["tensor"], modified=s["modified"])
        elif op == "batched":
            f = lambda: hafnian_batched(R, c, mu=yy, renorm=s["renorm"], make_tensor=s["tensor"])
        else:
            f = lambda: interferometer(R, c, C=C, renorm=s["renorm"], make_tensor=s["tensor"])
        R_.call(op, key, inp, f, lambda o: (np.array(np.shape(o)), np.asarray(o).reshape(-1)))


T = ("hermite", "batched")
JOBS = {
    "n1": lambda R: run(R, lambda s: s["op"] in T and s["n"] == 1),
    "n2": lambda R: run(R, lambda s: s["op"] in T and s["n"] == 2),
    "n3": lambda R: run(R, lambda s: s["op"] in T and s["n"] == 3),
    "n4": lambda R: run(R, lambda s: s["op"] in T and s["n"] == 4),
    "grad": lambda R: run(R, lambda s: s["op"] == "grad"),
    "interf2": lambda R: run(R, lambda s: s["op"] == "interferometer" and s["n"] == 2),
    "interf4": lambda R: run(R, lambda s: s["op"] == "interferometer" and s["n"] == 4),
}

if __name__ == "__main__":
    import c04

    main(c04)
