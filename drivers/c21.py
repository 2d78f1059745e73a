"""C21: graph encodings, classical and table samplers."""
import zlib
import numpy as np
from harness import *
from script_rng import Script
from c20 import rng_of, key
from c21_meta import META


def graph(rng, n, kind):
    w = np.triu(rng.uniform(0.2, 1.5, (n, n)), 1)
    if kind in ("er", "int", "scaled"):
        A = np.triu(rng.integers(0, 2, (n, n)), 1).astype(float)
        if not A.any():
            A[0, -1] = 1
        A = np.triu(A) + np.triu(A, 1).T
        if kind == "int":
            return A.astype(int)
        return A * 37.5 if kind == "scaled" else A
    if kind == "weighted" or kind == "tiny":
        A = w + w.T + np.diag(rng.uniform(0, 1, n))
        return A * 1e-4 if kind == "tiny" else A
    if kind == "neg":
        a = rng.normal(size=(n, n))
        return sym(a)
    if kind == "complex":
        return sym(rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n)))
    if kind == "diag":
        return np.diag(rng.uniform(0.3, 1, n))
    if kind == "rank1":
        g = rng.normal(size=n)
        return np.outer(g, g)
    if kind == "iso":
        A = w + w.T + 0.3 * np.eye(n)
        k = int(rng.integers(n))
        if n > 1:
            A[k, :] = A[:, k] = 0
        return A
    if kind == "bip":
        A = np.zeros((n, n))
        k = max(1, n // 2)
        A[:k, k:] = 1
        A = A + A.T
        return A if A.any() else np.ones((n, n))
    if kind == "ident":
        return np.eye(n)
    # positive semidefinite, real
    if kind == "psd":
        a = rng.normal(size=(n, n))
        return a @ a.T
    if kind == "psdlow":
        a = rng.normal(size=(n, max(1, n // 2)))
        return a @ a.T
    if kind == "gram":
        x = rng.normal(size=(n, 2))
        return np.exp(-((x[:, None, :] - x[None]) ** 2).sum(-1))
    if kind == "degenerate":
        O = haar(rng, n, real=True)
        d = np.ones(n)
        d[: n // 2] = 0.4
        A = (O * d) @ O.T
        return (A + A.T) / 2
    if kind == "diagpsd":
        return np.diag(rng.uniform(0.1, 2, n))
    if kind == "intpsd":
        a = rng.integers(-1, 2, (n, n))
        a[0, 0] = 1
        return a @ a.T
    raise ValueError(kind)


def maxclicks(A):
    """clicks of the encoding near its largest scaling (only to choose targets)"""
    n = len(A)
    B = A / np.linalg.norm(A, 2) * 0.999
    B = np.block([[B, 0 * B], [0 * B, B.conj()]])
    X = np.block([[np.zeros((n, n)), np.eye(n)], [np.eye(n), np.zeros((n, n))]])
    Q = np.linalg.inv(np.eye(2 * n) - X @ B)
    return sum(1 - 1 / np.sqrt(np.linalg.det(Q[np.ix_([i, i + n], [i, i + n])]).real) for i in range(n))


def scal(R):
    import thewalrus.quantum as q

    for x in R.scen["Gen_C21"]:
        if x["op"] not in ("adj_scaling", "adj_to_qmat"):
            continue
        rng = rng_of(R, x)
        A = layout(graph(rng, x["n"], x["kind"]), ["C", "F", "strided", "ro"][int(rng.integers(4))])
        t = float(x["t"])
        inp = {"A": A, "t": t}
        f = getattr(q, x["op"])
        R.call(x["op"], key(x), inp, lambda: f(A, t))
        if x["v"] == 0 and x["t"] == "0.5":
            g = q.find_scaling_adjacency_matrix if x["op"] == "adj_scaling" else q.gen_Qmat_from_graph
            R.call(x["op"], "deprecated/" + key(x), inp, lambda: g(A, t))


def tor(R):
    import thewalrus.quantum as q

    for x in R.scen["Gen_C21"]:
        if x["op"] == "unattainable":
            rng = rng_of(R, x)
            A = graph(rng, x["n"], x["kind"])
            t = x["n"] - float(x["t"])
            R.call(x["op"], key(x), {"A": A, "t": t}, lambda: q.adj_scaling_torontonian(A, t))
        if x["op"] != "adj_scaling_torontonian":
            continue
        rng = rng_of(R, x)
        A = graph(rng, x["n"], x["kind"])
        t = float(x["t"]) * maxclicks(A)
        R.call(x["op"], key(x), {"A": A, "t": t}, lambda: q.adj_scaling_torontonian(A, t))


def therm(R):
    import thewalrus.csamples as cs

    for x in R.scen["Gen_C21"]:
        if x["op"] != "rescale":
            continue
        rng = rng_of(R, x)
        A = graph(rng, x["n"], x["kind"])
        t = float(x["t"])
        s = 1.0 if x["sc"] == "thermal" else float(x["sc"])
        f = (lambda: cs.rescale_adjacency_matrix_thermal(A, t)) if x["sc"] == "thermal" else (lambda: cs.rescale_adjacency_matrix(A, t, s))
        R.call("rescale", key(x), {"A": A, "t": t, "s": s}, f)


def steps(R, which):
    import thewalrus.samples as sm
    import thewalrus.quantum as q

    for x in R.scen["Gen_C21"]:
        if x["op"] != "steps_" + which:
            continue
        rng = rng_of(R, x)
        A = graph(rng, x["n"], x["kind"])
        t = float(x["t"])
        try:
            c = float(q.adj_scaling(A, t))
        except Exception:
            continue
        cut, f = (6, 1) if which == "h" else (2, 2)

        def pick(k, p):
            ok = np.flatnonzero(p[:-1] > 1e-3)
            return int(rng.choice(ok)) if len(ok) else 0

        inp = {"A": A, "t": t, "c": c, "cut": cut, "f": f, "path": [], "sample": []}
        sc = Script([], pick, True)
        err = None
        try:
            with sc:
                if which == "h":
                    r = sm.hafnian_sample_graph(A, t, samples=1, cutoff=cut, max_photons=10**6)
                else:
                    r = sm.torontonian_sample_graph(A, t, samples=1, cutoff=cut, fanout=f, max_photons=10**6)
        except Exception as ex:
            err = ex
        if err is None and (not sc.ps or np.shape(r) != (1, x["n"])):
            if not sc.ps:
                continue
        # a rejected pattern is drawn again: keep the last one
        if err is None:
            if which == "h":
                ps, outs = sc.ps[-x["n"] :], sc.outs[-x["n"] :]
            else:
                ps, outs = sc.ps, sc.outs
            inp = dict(inp, path=outs, sample=np.asarray(r)[0])

        def again():
            if err is not None:
                raise err
            return tuple(ps)

        R.call(x["op"], key(x), inp, again)


def table(rng, x):
    n, c = x["n"], x["c"]
    if x["kind"] == "point":
        p = np.zeros((c,) * n)
        p[tuple(rng.integers(0, c, n))] = 1.0
        return p
    p = rng.random((c,) * n) ** 3
    if x["kind"] == "sparse":
        p = p * (rng.random(p.shape) < 0.5)
        p.flat[int(rng.integers(p.size))] += 0.3
    p /= p.sum()
    if x["kind"] == "sub":
        p *= 0.7
    if x["kind"] == "scaled":
        p *= 0.999999
    return p


def pns(R):
    import thewalrus.samples as sm

    marks = {"none": None, "minus1": -1, "str": "out", "zero": 0}
    for x in R.scen["Gen_C21"]:
        if x["op"] == "pns":
            rng = rng_of(R, x)
            p = table(rng, x)
            if x["v"] == 1:
                p = layout(p, "F")
            size = p.size + (x["oob"] != "no")
            kw = {} if x["oob"] == "no" else {"out_of_bounds": marks[x["oob"]]}
            idx = [int(t) for t in rng.integers(0, size, 6)] + [size - 1, 0]
            sc = Script([], lambda t, pr: idx[t] if t < len(idx) else 0)
            err = None
            try:
                with sc:
                    r = sm.photon_number_sampler(p, len(idx), **kw)
            except Exception as ex:
                err = ex

            def lab():
                if err is not None:
                    raise err
                return [None if o is None else o if isinstance(o, str) else (np.int64(o) if np.ndim(o) == 0 else np.array([int(t) for t in o])) for o in r]

            inp = {"p": p.flatten(), "n": x["n"], "cutoff": x["c"], "oob": x["oob"], "idx": idx, "mark": "none" if x["oob"] == "no" else marks[x["oob"]]}
            if err is not None or len(sc.ps) == len(idx):
                R.call("pns_labels", key(x), inp, lambda: tuple(lab()) + ())
                R.call("pns_probs", key(x), inp, lambda: (lab(), tuple(sc.ps))[1])
            if x["kind"] == "point" or (x["oob"] != "no" and x["kind"] == "sub" and x["c"] == 1):
                at = [int(t) for t in np.argwhere(p > 0)[0]]
                if x["kind"] == "point":
                    R.call("pns_point", key(x), {"N": 9, "at": at}, lambda: tuple(np.array([int(t) for t in o]) for o in sm.photon_number_sampler(p, 9, **kw)))
        if x["op"] == "pnslaw":
            rng = rng_of(R, x)
            n, c = x["n"], x["c"]
            p = rng.random((c,) * n)
            p /= p.sum() * (1 if x["oob"] == "no" else 1.3)
            N = 20000
            np.random.seed(int(rng.integers(2**31)))
            kw = {} if x["oob"] == "no" else {"out_of_bounds": -1}

            def law():
                f = np.zeros(p.size + (x["oob"] != "no"))
                for o in sm.photon_number_sampler(p, N, **kw):
                    f[p.size if np.ndim(o) == 0 else np.ravel_multi_index(tuple(int(t) for t in o), p.shape)] += 1 / N
                return f

            R.call("pns_law", key(x), {"p": p.flatten(), "oob": x["oob"], "draws": N}, law)


def hist(s, n, c):
    s = np.asarray(s)
    assert s.ndim == 2 and s.shape[1] == n, s.shape
    ok = (s < c).all(1)
    f = np.bincount(np.ravel_multi_index(tuple(s[ok].astype(int).T), (c,) * n), minlength=c**n)
    return f / len(s)


def laws(R):
    import thewalrus.samples as sm
    import thewalrus.csamples as cs

    k = 1 if R.quick else 8
    for x in R.scen["Gen_C21"]:
        rng = rng_of(R, x)
        if x["op"] in ("classical_h", "classical_t"):
            n, h = x["n"], float(x["h"])
            a = rng.normal(size=(2 * n, 2 * n)) * 0.6
            V = h / 2 * (np.eye(2 * n) + a @ a.T)
            mu = rng.normal(size=2 * n) * np.sqrt(h / 2) * x["d"]
            N = 400000 * k
            np.random.seed(int(rng.integers(2**31)))
            kw = {"mean": mu} if x["d"] else {}
            inp = {"mu": mu, "V": V, "hbar": h, "draws": N}
            if x["op"] == "classical_h":
                c = {1: 8, 2: 4}[n]
                R.call("law_h", key(x), dict(inp, cut=c), lambda: hist(sm.hafnian_sample_classical_state(V, N, hbar=h, **kw), n, c))
            else:
                R.call("law_t", key(x), inp, lambda: hist(sm.torontonian_sample_classical_state(V, N, hbar=h, **kw), n, 2))
        if x["op"] == "thermal":
            n = x["n"]
            A = graph(rng, n, "psd")
            ls, O = np.linalg.eigh(A)
            ls = ls / ls[-1] * rng.uniform(0.4, 0.6)
            m = 2 * (O * (ls / (1 - ls))) @ O.T + np.eye(n)
            V = np.block([[m, 0 * m], [0 * m, m]])
            N = 100000 * k
            np.random.seed(int(rng.integers(2**31)))
            c = {1: 6, 2: 4, 3: 3}[n]
            R.call("law_h", key(x), {"mu": np.zeros(2 * n), "V": V, "hbar": 2.0, "draws": N, "cut": c}, lambda: hist(cs.generate_thermal_samples(ls, O, num_samples=N), n, c))
        if x["op"] == "rankone":
            n, t = x["n"], float(x["t"])
            G = rng.normal(size=n) + (1j * rng.normal(size=n) if x["v"] % 2 else 0)
            N = 40000 * k
            c = {1: 9, 2: 5, 3: 3}[n]
            np.random.seed(int(rng.integers(2**31)))
            R.call("law_rankone", key(x), {"G": G, "t": t, "draws": N, "cut": c}, lambda: hist(sm.hafnian_sample_graph_rank_one(G, t, samples=N), n, c))


def rates(R):
    """the Poisson rates of generate_thermal_samples as forms in its normals"""
    import thewalrus.csamples as cs

    for x in R.scen["Gen_C21"]:
        if x["op"] != "rates":
            continue
        rng = rng_of(R, x)
        n = x["n"]
        O = haar(rng, n, real=True)
        ls = rng.uniform(0, 0.8, n)
        if x["v"] == 3:
            ls[0] = 0.0
        got = []
        real = np.random.poisson

        def pois(lam=1.0, size=None):
            got.append(np.array(lam, float))
            return real(lam, size)

        def run(z):
            got.clear()
            np.random.poisson = pois
            try:
                with Script(z, None, True) as sc:
                    cs.generate_thermal_samples(ls, O, num_samples=1)
            finally:
                np.random.poisson = real
            return sc.pos, list(got)

        try:
            m, g = run([])
            usable = m > 0 and len(g) == 1 and g[0].shape == (n,)
            if not usable:
                continue
        except Exception:
            m = 2 * n

        def forms():
            e = np.eye(m)
            one = [run(e[a])[1][0] for a in range(m)]
            Q = np.zeros((n, m, m))
            for a in range(m):
                for b in range(m):
                    Q[:, a, b] = one[a] if a == b else (run(e[a] + e[b])[1][0] - one[a] - one[b]) / 2
            return tuple(Q)

        R.call("rates", key(x), {"ls": ls, "O": O}, forms)


JOBS = {"scal": scal, "tor": tor, "therm": therm, "steps_h": lambda R: steps(R, "h"), "steps_t": lambda R: steps(R, "t"), "pns": pns, "laws": laws, "rates": rates}

if __name__ == "__main__":
    import c21

    main(c21)
