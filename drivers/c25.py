"""C25: total photon numbers, distinguishable squeezers, grouped clicks."""
import numpy as np
from harness import *
from c16 import symp
from c20 import rng_of, key
from c25_meta import META


def total(R):
    from thewalrus.quantum.photon_number_distributions import total_photon_number_distribution as f

    for x in R.scen["Gen_C25"]:
        if x["op"] != "total":
            continue
        k, s, e, p = x["k"], float(x["s"]), float(x["eta"]), float(x["pref"])
        top = 40 if p != 1 or k == 30 else 60
        kw = {} if p == 1 else {"pref": p}
        R.call("total", key(x), {"k": k, "s": s, "eta": e, "pref": p, "top": top}, lambda: np.array([f(n, k, s, e, **kw) for n in range(top + 1)]))
        if s in (1, 3) and e in (0.1, 0.5, 1) and k in (1, 4, 30) and p == 1:
            ns = [300, 301, 1500, 1501] if s == 3 else [300, 301]
            R.call("totaln", key(x), {"k": k, "s": s, "eta": e, "pref": p, "ns": ns}, lambda: np.array([f(n, k, s, e) for n in ns]))


def char(R):
    from thewalrus.quantum.photon_number_distributions import characteristic_function as f

    for x in R.scen["Gen_C25"]:
        if x["op"] not in ("char", "charcut"):
            continue
        k, s, e, mu = x["k"], float(x["s"]), float(x["eta"]), float(x["mu"])
        t = abs(np.tanh(s))
        ratio = np.exp(mu) * e * t / (1 - (1 - e) * t)
        if ratio > 0.995:
            continue
        pc = None if x["pc"] == "none" else int(x["pc"])
        kw = {} if pc is None else {"poly_corr": pc}
        if x["op"] == "charcut":
            R.call("charcut", key(x), {"k": k, "s": s, "eta": e, "mu": mu, "m": pc or 0, "it": x["it"]}, lambda: f(k, s, e, mu, max_iter=x["it"], delta=0, **kw))
        else:
            R.call("char", key(x), {"k": k, "s": s, "eta": e, "mu": mu, "m": pc or 0, "delta": 1e-14}, lambda: f(k, s, e, mu, **kw))
            if x["k"] == 2:
                R.call("char", key(x), {"k": k, "s": s, "eta": e, "mu": mu, "m": pc or 0, "delta": 1e-5}, lambda: f(k, s, e, mu, delta=1e-5, **kw))


def pure(R):
    from thewalrus.quantum import pure_state_distribution as f

    for x in R.scen["Gen_C25"]:
        if x["op"] not in ("pure", "impure"):
            continue
        rng = rng_of(R, {k: v for k, v in x.items() if k not in ("cut", "pad")})
        n, h = x["n"], float(x["h"])
        if x["op"] == "impure":
            _, V = gauss(rng, n, hbar=h, thermal=0.6)
            R.call("impure", key(x), {"n": n}, lambda: f(V, cutoff=4, hbar=h))
            continue
        k = x["kind"]
        S = symp(rng, n)
        if k == "vacuum":
            S = np.eye(2 * n)
        if k == "partial":
            r = rng.uniform(0.2, 0.9, n)
            r[: (n + 1) // 2] = 0
            S = usymp(haar(rng, n)) @ np.diag(np.r_[np.exp(-r), np.exp(r)])
        if k == "tms":
            S = symp(rng, n, "tms")
        if k == "strong":
            r = rng.uniform(1.5, 2.5, n)
            S = usymp(haar(rng, n)) @ np.diag(np.r_[np.exp(-r), np.exp(r)])
        V = S @ S.T
        V = (V + V.T) / 2 * h / 2
        kw = {"cutoff": x["cut"], "hbar": h, "padding_factor": x["pad"]}
        if h == 2:
            del kw["hbar"]
        if x["pad"] == 2:
            del kw["padding_factor"]
        R.call("pure", key(x), {"V": V, "hbar": h, "cut": x["cut"]}, lambda: f(V, **kw))


def tmat(rng, m, n, kind):
    U = haar(rng, max(m, n), real=kind == "real")[:m, :n]
    if kind == "lossy":
        U = U * np.sqrt(rng.uniform(0.2, 0.95, size=(m, 1)))
    if kind == "zero":
        U = U * (rng.random((m, n)) < 0.5)
    if kind == "dark":
        U = U.copy()
        U[:, 0] = 0
    return U


def moments(R):
    from thewalrus.quantum import distinguishable_squeezers as d

    for x in R.scen["Gen_C25"]:
        if x["op"] not in ("means", "cov"):
            continue
        rng = rng_of(R, x)
        T = tmat(rng, x["m"], x["n"], x["kind"])
        rs = rng.uniform(-1.5, 1.5, x["n"])
        if x["v"] == 1:
            rs[0] = 0
        R.call(x["op"], key(x), {"T": T, "rs": rs}, lambda: (d.number_means if x["op"] == "means" else d.number_cov)(T, rs))


def sample(R):
    from thewalrus.quantum import distinguishable_squeezers as d

    N = 3000 if R.quick else 20000
    for x in R.scen["Gen_C25"]:
        if x["op"] != "sample":
            continue
        rng = rng_of(R, x)
        m, n, c = x["m"], x["n"], x["c"]
        if m * n > 4 and c > 4 and R.quick:
            c = 4
        T = tmat(rng, m, n, x["kind"])
        rs = rng.uniform(0.3, 1.3, n)

        def run():
            np.random.seed(int(rng.integers(2**31)))
            return d.sample(T, rs, n_samples=N, input_cutoff=c)

        def post(s):
            s = np.asarray(s)
            u, k = np.unique(s.reshape(len(s), -1), axis=0, return_counts=True)
            return (np.array(s.shape), np.array([s.dtype.kind in "iu"]), u, k)

        R.call("sample", key(x), {"T": T, "rs": rs, "c": c, "N": N}, run, post)


def light(rng, n, kind):
    r = rng.uniform(0.15, 0.6, n)
    ph, ch = np.sinh(r) ** 2, 0.5 * np.sinh(2 * r)
    if kind == "thermal":
        ch = ch * 0
    if kind == "squashed":
        ch = ph.copy()
    if kind == "mixed":
        ch = ch * rng.uniform(0, 1, n)
    if kind == "one":
        ph[1:], ch[1:], r[1:] = 0, 0, 0
    if kind == "vacuum":
        ph, ch, r = ph * 0, ch * 0, r * 0
    return r, ph, ch


def clicks(R):
    import thewalrus.grouped_click_probabilities as g

    for x in R.scen["Gen_C25"]:
        if x["op"] != "clicks":
            continue
        rng = rng_of(R, x)
        m, n, k = x["m"], x["n"], x["kind"]
        T = tmat(rng, m, n, x["T"])
        r, ph, ch = light(rng, n, k)
        seed = int(rng.integers(2**31 - 1))
        ns = x["ng"] * x["per"]

        def run():
            if k in ("squeezed", "one"):
                return g.grouped_click_probabilities_squeezed(r, T, ns, x["ng"], seed)
            return g.grouped_click_probabilities(ph, ch, T, ns, x["ng"], seed)

        R.call("clicks", key(x), {"T": T, "ph": ph, "ch": ch, "ng": x["ng"]}, run)
        if k == "thermal":
            R.call("repeat", key(x), {"ng": 5}, lambda: tuple(np.array(g.grouped_click_probabilities(ph, ch, T, 50, 5, s)) for s in (seed, seed, seed + 1)))


def sums(R):
    import thewalrus.grouped_click_probabilities as g

    for x in R.scen["Gen_C25"]:
        if x["op"] != "sums" or x["ng"] > x["ns"]:
            continue
        rng = rng_of(R, x)
        m = x["m"]
        T = tmat(rng, m, m, "lossy")
        r, ph, ch = light(rng, m, x["kind"])
        R.call("sums", key(x), {"m": m, "ng": x["ng"], "vac": int(x["kind"] == "vacuum")}, lambda: g.grouped_click_probabilities(ph, ch, T, x["ns"], x["ng"]))


def scatter(R):
    """the reported errors are the scatter of the group averages"""
    import thewalrus.grouped_click_probabilities as g

    for m in (1, 2, 3):
        rng = np.random.default_rng([R.seed, m])
        T = tmat(rng, m, m, "lossy")
        r, ph, ch = light(rng, m, "mixed")
        G, per = 800, 20
        one = np.array([g.grouped_click_probabilities(ph, ch, T, per, 1, int(s))[0] for s in rng.integers(2**31 - 1, size=G)])
        R.call("scatter", f"m={m}", {"std": one.std(axis=0), "m": m}, lambda: g.grouped_click_probabilities(ph, ch, T, G * per, G, 7)[1])


JOBS = {"total": total, "char": char, "pure": pure, "moments": moments, "sample": sample, "clicks": clicks, "sums": sums, "scatter": scatter}

if __name__ == "__main__":
    import c25

    main(c25)
