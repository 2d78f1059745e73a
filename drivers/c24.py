"""C24: entanglement measures and fidelity."""
import numpy as np
from harness import *
from c16 import symp
from c20 import rng_of, key
from c24_meta import META


def om(n):
    return np.block([[np.zeros((n, n)), np.eye(n)], [-np.eye(n), np.zeros((n, n))]])


def spectrum(V):
    n = len(V) // 2
    ev = np.linalg.eigvals(1j * om(n) @ V).real
    return np.sort(ev[ev > 0])[:n] if (ev > 0).sum() == n else np.sort(np.abs(ev))[::2]


def cov(rng, n, kind, h):
    S = symp(rng, n)
    nu = 1 + rng.uniform(0.2, 1.5, n)
    if kind in ("pure", "a"):
        nu = np.ones(n)
    if kind == "thermal":
        S = np.eye(2 * n)
    if kind == "product":
        S = symp(rng, n, "squeeze")
    if kind == "partial":
        nu[0] = 1
    if kind == "vacuum":
        S, nu = np.eye(2 * n), np.ones(n)
    V = S @ np.diag(np.tile(nu, 2)) @ S.T
    if kind == "lossy":
        e = rng.uniform(0.2, 0.9)
        V = e * S @ S.T + (1 - e) * np.eye(2 * n)
    return (V + V.T) / 2 * h / 2


def vn(R):
    import thewalrus.quantum as q

    for x in R.scen["Gen_C24"]:
        if x["op"] != "vonneumann":
            continue
        rng = rng_of(R, x)
        n, h = x["n"], float(x["h"])
        V = layout(cov(rng, n, x["kind"], h), ["C", "F", "strided", "ro"][x["v"] % 4])
        R.call("vonneumann", key(x), {"V": V, "hbar": h, "nus": spectrum(2 / h * V)}, (lambda: q.vonneumann_entropy(V)) if h == 2 else (lambda: q.vonneumann_entropy(V, hbar=h)))


def ent(R):
    import thewalrus.quantum as q

    for x in R.scen["Gen_C24"]:
        if x["op"] not in ("entropy", "negativity"):
            continue
        rng = rng_of(R, {k: v for k, v in x.items() if k != "form"})
        n, h, p = x["n"], float(x["h"]), x["part"]
        kind = {"a": "pure", "b": "pure" if x["op"] == "entropy" else "lossy"}[x["kind"]]
        if x["kind"] == "b" and x["op"] == "entropy":
            V = symp(rng, n, "tms")
            L = symp(rng, 1)
            V = V @ V.T * h / 2
            for m in range(n):
                S = np.eye(2 * n)
                S[np.ix_([m, m + n], [m, m + n])] = symp(rng, 1)
                V = S @ V @ S.T
            V = (V + V.T) / 2
        else:
            V = cov(rng, n, kind, h)
        W = 2 / h * V
        if x["op"] == "entropy":
            ix = np.array(p + [t + n for t in p])
            nus = spectrum(W[np.ix_(ix, ix)])
        else:
            s = np.ones(2 * n)
            s[[t + n for t in p]] = -1
            nus = spectrum(np.diag(s) @ W @ np.diag(s))
        arg = {
            "list": lambda: {"modes_A": list(p)}, "tuple": lambda: {"modes_A": tuple(p)}, "array": lambda: {"modes_A": np.array(p)},
            "npints": lambda: {"modes_A": [np.int64(t) for t in p]}, "int": lambda: {"modes_A": p[0]},
            "split": lambda: {"split": len(p)}, "range": lambda: {"modes_A": range(len(p))},
        }[x["form"]]()
        kw = {} if h == 2 and x["v"] == 0 else {"hbar": h}
        f = q.entanglement_entropy if x["op"] == "entropy" else q.log_negativity
        R.call(x["op"], key(x), {"V": V, "hbar": h, "part": p, "nus": nus}, lambda: f(V, **arg, **kw))


def qs(A, B):
    n = len(A) // 2

    def flow(V):
        W = 1j * V @ om(n)
        return (W - np.eye(2 * n)) @ np.linalg.inv(W + np.eye(2 * n))

    ev = np.linalg.eigvals(flow(A) @ flow(B))
    ev = np.sort(ev.real)[::-1][:n]
    return 1 / ev


def fid(R):
    import thewalrus.quantum as q

    for x in R.scen["Gen_C24"]:
        if x["op"] != "fidelity":
            continue
        rng = rng_of(R, x)
        n, h, k = x["n"], float(x["h"]), x["kind"]
        inp = {"hbar": h}
        mu1, mu2 = (rng.normal(size=2 * n) * 0.5 * np.sqrt(h) for _ in range(2))
        if x["disp"] == "none":
            mu1, mu2 = mu1 * 0, mu2 * 0
        if x["disp"] == "equal":
            mu2 = mu1.copy()
        if k in ("mixed", "thermal"):
            V1, V2 = cov(rng, n, k, h), cov(rng, n, k, h)
            inp["how"], inp["q"] = "q", qs(2 / h * V1, 2 / h * V2)
        elif k == "near":
            V1 = cov(rng, n, "mixed", h)
            V2 = V1 + 1e-3 * h * np.eye(2 * n)
            inp["how"], inp["q"] = "q", qs(2 / h * V1, 2 / h * V2)
        elif k in ("pure", "onepure"):
            V1 = cov(rng, n, "pure", h)
            V2 = cov(rng, n, "pure" if k == "pure" else "mixed", h)
            if rng.random() < 0.5:
                V1, V2 = V2, V1
            inp["how"] = "overlap"
        elif k == "vacuum":
            V1, V2 = np.eye(2 * n) * h / 2, cov(rng, n, "lossy", h)
            inp["how"] = "overlap"
        elif k in ("same", "samepure"):
            V1 = cov(rng, n, "mixed" if k == "same" else "pure", h)
            V2 = V1.copy()
            inp["how"] = "overlap" if k == "samepure" else "q"
            if k == "same":
                inp["q"] = qs(2 / h * V1, 2 / h * V2)
            if x["disp"] != "both":
                mu2 = mu1.copy()
                inp["how"] = "equal"
        else:  # product: one common symplectic over single-mode states, some pure
            S = symp(rng, n)
            a, b = [], []
            for m in range(n):
                for w in (a, b):
                    t = symp(rng, 1)
                    w.append(t @ t.T * (1.0 if rng.random() < 0.4 else rng.uniform(1.1, 2)))
            def big(w):
                V = np.zeros((2 * n, 2 * n))
                for m in range(n):
                    V[np.ix_([m, m + n], [m, m + n])] = w[m]
                V = S @ V @ S.T
                return (V + V.T) / 2 * h / 2
            V1, V2 = big(a), big(b)
            inp.update(how="product", S=S, a=np.array(a), b=np.array(b))
        inp.update(mu1=mu1, mu2=mu2, V1=V1, V2=V2)
        kw = {} if h == 2 else {"hbar": h}
        R.call("fidelity", key(x), inp, lambda: q.fidelity(mu1, V1, mu2, V2, **kw))
        R.call("sym", key(x), {"V1": V1, "V2": V2}, lambda: (np.asarray(q.fidelity(mu1, V1, mu2, V2, **kw)), np.asarray(q.fidelity(mu2, V2, mu1, V1, **kw))))


JOBS = {"vn": vn, "ent": ent, "fid": fid}

if __name__ == "__main__":
    import c24

    main(c24)
