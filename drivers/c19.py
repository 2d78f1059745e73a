"""C19: the laws of the samplers."""
import itertools
import numpy as np
from harness import *
from script_rng import Script
from c13 import mk, skey
from c19_meta import META


def low(s, mu, V, h):
    """a weaker version of the same state, so that cutoffs matter little"""
    n = len(V) // 2
    I = np.eye(2 * n) * h / 2
    eta = {1: 0.6, 2: 0.4, 3: 0.25}[n]
    if s["kind"] in ("pure", "product"):  # stay pure: weaken displacement only
        return mu * 0.5, V
    return mu * np.sqrt(eta), eta * V + (1 - eta) * I


def run_h(sm, V, mu, h, cut, normals, outs, zero=False):
    """one scripted run; outs: wanted outcomes (later ones: most likely)"""
    def pick(t, p):
        return outs(t, p) if callable(outs) else outs[t]

    with Script(normals, pick, zero) as sc:
        r = sm.generate_hafnian_sample(V, mean=mu, hbar=h, cutoff=cut, max_photons=10**6)
    return r, sc


def run_t(sm, V, mu, h, cut, f, normals, outs, zero=False):
    def pick(t, p):
        return outs(t, p) if callable(outs) else outs[t]

    with Script(normals, pick, zero) as sc:
        r = sm.generate_torontonian_sample(V, mu=mu, hbar=h, cutoff=cut, fanout=f, max_photons=10**6)
    return r, sc


def order_h(sm, V, mu, h, cut):
    """which column each draw fills: compare runs that differ in one outcome"""
    n = len(V) // 2
    z = np.random.default_rng(5).normal(size=4 * n)
    order = []
    base, sc = run_h(sm, V, mu, h, cut, z, [0] * n)
    if len(sc.ps) != n:
        return None
    for k in range(n):
        r, _ = run_h(sm, V, mu, h, cut, z, [1 if t == k else 0 for t in range(n)])
        d = [j for j in range(n) if r[j] != base[j]]
        if len(d) != 1:
            return None
        order.append(d[0])
    return order


def order_t(sm, V, mu, h, cut, f):
    n = len(V) // 2
    z = np.random.default_rng(5).normal(size=4 * n + 2 * n * (f - 1))
    order = []
    base, sc = run_t(sm, V, mu, h, cut, f, z, [0] * (n * f))
    if len(sc.ps) != n * f:
        return None
    for k in range(n):
        r, _ = run_t(sm, V, mu, h, cut, f, z, [0] * (k * f) + [1] + [0] * (n * f))
        d = [j for j in range(n) if r[j] != base[j]]
        if len(d) != 1:
            return None
        order.append(d[0])
    return order


def likely(rng):
    """an outcome that is possible, not always the most likely one"""
    def f(t, p):
        ok = np.flatnonzero(p[:-1] > 1e-3) if len(p) > 2 else np.flatnonzero(p > 1e-3)
        return int(rng.choice(ok)) if len(ok) else int(np.argmax(p))
    return f


def steps(R, which):
    import thewalrus.samples as sm

    for x in R.scen["Gen_C19"]:
        s = x["s"]
        if x["op"] == "prefix" and which == "h":
            rng, mu, V, h, _ = mk(R, s)
            n, c = s["n"], x["cut"]
            z = rng.normal(size=4 * n)
            path = [0] * n
            if c > 1:
                path = [int(t) for t in rng.integers(0, c, n)]
            big = c + 3
            inp = {"V": V, "mu": mu, "hbar": h, "cut": c, "big": big, "path": path}
            a = run_h(sm, V, mu, h, c, z, path)[1]
            if len(a.ps) == n:
                R.call("prefix", skey(s) + f"/cut={c}", inp, lambda: tuple(a.ps) + tuple(run_h(sm, V, mu, h, big, z, path)[1].ps))
        if x["op"] != "steps_" + which:
            continue
        rng, mu, V, h, _ = mk(R, s)
        n, c = s["n"], x["cut"]
        if which == "h":
            go = lambda: run_h(sm, V, mu, h, c, [], likely(rng), zero=True)
            key = skey(s) + f"/cut={c}"
        else:
            go = lambda: run_t(sm, V, mu, h, c, x["f"], [], likely(rng), zero=True)
            key = skey(s) + f"/cut={c}/fanout={x['f']}"
        inp = {"V": V, "mu": mu, "hbar": h, "cut": c, "path": [], "sample": [], "f": x.get("f", 1)}
        try:
            r, sc = go()
        except Exception as ex:  # judged as a failed call
            err = ex
            def go_again():
                raise err
            R.call(x["op"], key, inp, go_again)
            continue
        if len(sc.ps) < n:
            continue  # not drawn through numpy.random.choice mode by mode: only the laws apply
        if np.isscalar(r):
            continue  # rejected draw (C20 judges rejections)
        R.call(x["op"], key, dict(inp, path=sc.outs, sample=list(r)), lambda: tuple(sc.ps))


B = 8  # independent randomisations of the quadrature


def nodes(rng, dim, N):
    from scipy.stats import qmc, norm

    out = []
    for b in range(B):
        u = qmc.Sobol(dim, scramble=True, seed=rng).random(N // B)
        out.append(norm.ppf(np.clip(u, 1e-12, 1 - 1e-12)))
    return out


def law_h(R, n):
    import thewalrus.samples as sm

    for x in R.scen["Gen_C19"]:
        s = x["s"]
        if x["op"] != "law_h" or s["n"] != n:
            continue
        rng, mu, V, h, _ = mk(R, s)
        mu, V = low(s, mu, V, h)
        c = x["cut"]
        N = {1: 1024, 2: 512, 3: 256}[n] * (1 if R.quick else 16)
        inp = {"V": V, "mu": mu, "hbar": h, "cut": c, "draws": 0}
        key = skey(s) + f"/cut={c}"

        def law():
            o = order_h(sm, V, mu, h, c)
            if o is None:
                inp["draws"] = 20000
                t = np.zeros((c + 1,) * n)
                for _ in range(20000):
                    r = sm.generate_hafnian_sample(V, mean=mu, hbar=h, cutoff=c + 1, max_photons=10**6)
                    if not np.isscalar(r):
                        t[tuple(r)] += 1 / 20000
                return t[(slice(0, c),) * n].reshape(-1), np.zeros(c**n)
            est = []
            for zs in nodes(rng, 4 * n, N):
                T = np.zeros((c,) * n)
                for z in zs:
                    for path in itertools.product(range(c), repeat=n - 1):
                        # draws with probability below 1e-9 contribute nothing: stop there
                        r, sc = run_h(sm, V, mu, h, c, z, list(path) + [0])
                        w = np.prod([sc.ps[t][path[t]] for t in range(n - 1)]) if n > 1 else 1.0
                        ix = [0] * n
                        for t in range(n - 1):
                            ix[o[t]] = path[t]
                        ix[o[n - 1]] = slice(None)
                        T[tuple(ix)] += w * sc.ps[n - 1][:c]
                est.append(T / len(zs))
            est = np.array(est)
            return est.mean(0).reshape(-1), (est.std(0, ddof=1) / np.sqrt(B)).reshape(-1)

        emit_law(R, "law_h", key, inp, law)


def emit_law(R, op, key, inp, law):
    try:
        t, se = law()
    except Exception as ex:
        err = ex
        def again():
            raise err
        R.call(op, key, dict(inp, se=[]), again)
        return
    R.call(op, key, dict(inp, se=se), lambda: t)


def law_t(R, n):
    import thewalrus.samples as sm

    for x in R.scen["Gen_C19"]:
        s = x["s"]
        if x["op"] != "law_t" or s["n"] != n:
            continue
        rng, mu, V, h, _ = mk(R, s)
        mu, V = low(s, mu, V, h)
        c, f = x["cut"], x["f"]
        N = {1: 1024, 2: 512, 3: 256}[n] * (1 if R.quick else 16)
        inp = {"V": V, "mu": mu, "hbar": h, "cut": c, "f": f, "draws": 0}
        key = skey(s) + f"/cut={c}/fanout={f}"
        # per-mode outcomes: no click, or j photons in channel k
        opts = [None] + [(k, j) for k in range(f) for j in range(1, c + 1)]

        def law():
            o = order_t(sm, V, mu, h, c, f)
            if o is None:
                inp["draws"] = 20000
                t = np.zeros((2,) * n)
                for _ in range(20000):
                    t[tuple(int(b) for b in sm.generate_torontonian_sample(V, mu=mu, hbar=h, cutoff=c, fanout=f, max_photons=10**6))] += 1 / 20000
                return t.reshape(-1), np.zeros(2**n)
            est = []
            for zs in nodes(rng, 4 * n + 2 * n * (f - 1), N):
                T = np.zeros((2,) * n)
                for z in zs:
                    for path in itertools.product(opts, repeat=n - 1):
                        outs = []
                        for q in path:
                            outs += [0] * f if q is None else [0] * q[0] + [q[1]]
                        m = len(outs)
                        r, sc = run_t(sm, V, mu, h, c, f, z, outs + [0] * f)
                        w = np.prod([sc.ps[t][outs[t]] for t in range(m)]) if m else 1.0
                        dark = np.prod([sc.ps[m + k][0] for k in range(f)])
                        ix = [0] * n
                        for t in range(n - 1):
                            ix[o[t]] = 0 if path[t] is None else 1
                        ix[o[n - 1]] = slice(None)
                        T[tuple(ix)] += w * np.array([dark, 1 - dark])
                est.append(T / len(zs))
            est = np.array(est)
            return est.mean(0).reshape(-1), (est.std(0, ddof=1) / np.sqrt(B)).reshape(-1)

        emit_law(R, "law_t", key, inp, law)


def warm(R, which):
    """compile; a failure shows up again in the jobs that judge"""
    import thewalrus.samples as sm

    f = sm.generate_hafnian_sample if which == "h" else sm.generate_torontonian_sample
    try:
        f(2 * np.eye(4), np.ones(4))
    except Exception:
        pass


JOBS = {"warm_h": lambda R: warm(R, "h"), "warm_t": lambda R: warm(R, "t")}
JOBS |= {"steps_h": lambda R: steps(R, "h"), "steps_t": lambda R: steps(R, "t")}
for _n in (1, 2, 3):
    JOBS[f"law_h{_n}"] = lambda R, n=_n: law_h(R, n)
    JOBS[f"law_t{_n}"] = lambda R, n=_n: law_t(R, n)

if __name__ == "__main__":
    import c19

    main(c19)
