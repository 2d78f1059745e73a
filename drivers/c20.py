"""C20: the sample drivers."""
import threading
import zlib
import numpy as np
from harness import *
from script_rng import Script
from c19 import warm
from c20_meta import META


def rng_of(R, x):
    return np.random.default_rng([R.seed, zlib.crc32(repr(sorted((k, str(v)) for k, v in x.items())).encode())])


def structured(rng, n, h=2.0):
    """a state of empty and twin modes (and a squeezed one), shuffled"""
    V = np.eye(2 * n)
    p = [int(t) for t in rng.permutation(n)]
    pairs, dark = [], []
    k = 0
    while k < n:
        c = int(rng.integers(3)) if n > 1 else 2
        if c == 0 and k + 1 < n:
            a, b = p[k], p[k + 1]
            r = rng.uniform(0.4, 0.8)
            for o, s in ((0, 1), (n, -1)):
                V[a + o, a + o] = V[b + o, b + o] = np.cosh(2 * r)
                V[a + o, b + o] = V[b + o, a + o] = s * np.sinh(2 * r)
            pairs.append([a, b])
            k += 2
        elif c == 1:
            dark.append(p[k])
            k += 1
        else:
            r = rng.uniform(0.3, 0.7)
            V[p[k], p[k]], V[p[k] + n, p[k] + n] = np.exp(2 * r), np.exp(-2 * r)
            k += 1
    return V * h / 2, pairs, dark


def bright_state(rng, n):
    mu, V = gauss(rng, n, thermal=0.3)
    return mu, V


def key(x):
    return "/".join(f"{k}={''.join(map(str, v)) if isinstance(v, list) else v}" for k, v in x.items() if k != "op")


def plain(R, k, inp, fn):
    R.call("plain", k, dict({"cut": -1, "maxp": -1, "pairs": [], "dark": [], "bright": []}, **inp), fn)


def flags(inp, even):
    d = enc(inp)
    d["even"] = bool(even)
    return d


def script(R, which):
    import thewalrus.samples as sm

    for x in R.scen["Gen_C20"]:
        if x["op"] != "script" or (x["f"] > 0) != (which == "t"):
            continue
        rng = rng_of(R, x)
        n = x["n"]
        mu, V = bright_state(rng, n)
        st = x["stream"]
        sc = Script([], lambda t, p: st[t] if t < len(st) else 0)

        def go():
            with sc:
                if which == "h":
                    return sm.hafnian_sample_state(V, x["N"], mean=mu, cutoff=x["cut"], max_photons=x["maxp"])
                return sm.torontonian_sample_state(V, x["N"], mu=mu, fanout=x["f"], cutoff=x["cut"], max_photons=x["maxp"])

        try:
            r, err = go(), None
        except Exception as ex:
            r, err = None, ex
        if err is None and not sc.outs:
            continue

        def again():
            if err is not None:
                raise err
            return r

        R.call("script", key(x), dict(x, drawn=sc.outs), again)


class Threaded:
    """numpy.random.choice replaced by random picks recorded per thread"""

    def __init__(self, rng):
        self.rng, self.lock, self.loc, self.streams = rng, threading.Lock(), threading.local(), []

    def choice(self, a, size=None, replace=True, p=None):
        if p is None or size is not None:
            return self.real(a, size=size, replace=replace, p=p)
        a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        with self.lock:
            if not hasattr(self.loc, "s"):
                self.loc.s = []
                self.streams.append(self.loc.s)
            i = 0 if self.rng.random() < 0.5 else int(self.rng.integers(len(a)))
            self.loc.s.append(int(a[i]))
        return a[i]

    def __enter__(self):
        self.real = np.random.choice
        np.random.choice = self.choice
        return self

    def __exit__(self, *a):
        np.random.choice = self.real
        return False


def threads(R):
    import thewalrus.samples as sm

    for x in R.scen["Gen_C20"]:
        if x["op"] != "threads":
            continue
        rng = rng_of(R, x)
        mu, V = bright_state(rng, x["n"])
        th = Threaded(rng)
        try:
            with th:
                if x["f"] == 0:
                    r = sm.hafnian_sample_state(V, x["N"], mean=mu, cutoff=x["cut"], max_photons=x["maxp"], parallel=True)
                else:
                    r = sm.torontonian_sample_state(V, x["N"], mu=mu, fanout=x["f"], cutoff=x["cut"], max_photons=x["maxp"], parallel=True)
            err = None
        except Exception as ex:
            r, err = None, ex

        def again():
            if err is not None:
                raise err
            return r

        if err is None and not th.streams:
            continue
        R.call("threads", key(x), dict(x, drawn=th.streams), again)


def limits(R, which):
    import thewalrus.samples as sm

    for x in R.scen["Gen_C20"]:
        if x["op"] != "limits":
            continue
        rng = rng_of(R, x)
        h = float(rng.choice([2, 1, 3.3]))
        V, pairs, dark = structured(rng, x["n"], h)
        inp = flags({"V": V, "hbar": h, "N": x["N"], "n": x["n"], "cut": x["cut"] if which == "h" else 2, "maxp": x["maxp"], "pairs": pairs, "dark": dark, "bright": []}, which == "h")
        np.random.seed(int(rng.integers(2**31)))
        kw = {"max_photons": x["maxp"], "parallel": x["par"], "hbar": h}
        if which == "h":
            R.call("plain", "hafnian_sample_state/" + key(x), inp, lambda: sm.hafnian_sample_state(V, x["N"], cutoff=x["cut"], **kw))
        else:
            R.call("plain", "torontonian_sample_state/" + key(x), inp, lambda: sm.torontonian_sample_state(V, x["N"], fanout=int(rng.integers(1, 4)), cutoff=x["cut"], **kw))


def graph(R):
    import thewalrus.samples as sm

    for x in R.scen["Gen_C20"]:
        if x["op"] != "graph":
            continue
        rng = rng_of(R, x)
        n = x["n"]
        A = np.zeros((n, n))
        p = [int(t) for t in rng.permutation(n)]
        pairs = []
        for k in range(0, n - 1, 2):
            A[p[k], p[k + 1]] = A[p[k + 1], p[k]] = rng.uniform(0.5, 1.5)
            pairs.append([p[k], p[k + 1]])
        dark = [p[-1]] if n % 2 else []
        nm = rng.uniform(0.3, 1.2)
        inp = flags({"A": A, "nm": nm, "N": x["N"], "n": n, "cut": 2 if x["thr"] else x["cut"], "maxp": x["maxp"], "pairs": pairs, "dark": dark, "bright": []}, True)
        np.random.seed(int(rng.integers(2**31)))
        if x["thr"]:
            R.call("plain", "torontonian_sample_graph/" + key(x), inp, lambda: sm.torontonian_sample_graph(A, nm, samples=x["N"], cutoff=x["cut"], max_photons=x["maxp"], fanout=2, parallel=x["par"]))
        else:
            R.call("plain", "hafnian_sample_graph/" + key(x), inp, lambda: sm.hafnian_sample_graph(A, nm, samples=x["N"], cutoff=x["cut"], max_photons=x["maxp"], parallel=x["par"]))


def rest(R):
    import thewalrus.samples as sm
    import thewalrus.csamples as cs

    for x in R.scen["Gen_C20"]:
        rng = rng_of(R, x)
        if x["op"] == "classical":
            n, h = x["n"], float(x["h"])
            # mode j: intensity 400 (j+1) coherent, or empty; labels are visible in the counts
            on = [bool(t) for t in rng.integers(0, 2, n)]
            I = np.array([400.0 * (j + 1) if o else 0.0 for j, o in enumerate(on)])
            ph = rng.uniform(0, 2 * np.pi, n)
            al = np.sqrt(I) * np.exp(1j * ph)
            mu = np.concatenate([al.real, al.imag]) * np.sqrt(2 * h)
            V = np.eye(2 * n) * h / 2
            lo = lambda m: [int(m - 10 * np.sqrt(m)), int(m + 10 * np.sqrt(m)) + 1]
            br = [[j] + ([1, 1] if x["thr"] else lo(I[j])) for j in range(n) if on[j]]
            inp = flags({"V": V, "mu": mu, "hbar": h, "N": x["N"], "n": n, "cut": -1, "maxp": -1, "pairs": [], "dark": [j for j in range(n) if not on[j]], "bright": br}, False)
            f = sm.torontonian_sample_classical_state if x["thr"] else sm.hafnian_sample_classical_state
            np.random.seed(int(rng.integers(2**31)))
            R.call("plain", f.__name__ + "/" + key(x), inp, lambda: f(V, x["N"], mean=mu, hbar=h))
            if not any(on) or x["v"] == 0:
                inp = dict(inp, bright=[], dark=[*range(n)])
                R.call("plain", f.__name__ + "/nomean/" + key(x), inp, lambda: f(V, x["N"], hbar=h))
        if x["op"] == "rankone":
            n = x["n"]
            G = rng.normal(size=n) * (1 if x["v"] < 2 else (1 + 0.5j))
            z = int(rng.integers(n)) if n > 1 else -1
            if z >= 0:
                G[z] = 0
            inp = flags({"G": G, "N": x["N"], "n": n, "cut": -1, "maxp": -1, "pairs": [], "dark": [z] if z >= 0 else [], "bright": []}, True)
            np.random.seed(int(rng.integers(2**31)))
            R.call("plain", "hafnian_sample_graph_rank_one/" + key(x), inp, lambda: sm.hafnian_sample_graph_rank_one(G, rng.uniform(0.1, 3), samples=x["N"]), post=ints)
        if x["op"] == "single":
            n = x["n"]
            V, pairs, dark = structured(rng, n)
            inp = flags({"V": V, "n": n, "cut": 2 if x["thr"] else x["cut"], "maxp": x["maxp"], "pairs": pairs, "dark": dark, "bright": []}, not x["thr"])
            np.random.seed(int(rng.integers(2**31)))
            f = (lambda: sm.generate_torontonian_sample(V, cutoff=x["cut"], max_photons=x["maxp"], fanout=2)) if x["thr"] else (lambda: sm.generate_hafnian_sample(V, cutoff=x["cut"], max_photons=x["maxp"]))
            R.call("single", key(x), inp, f)
        if x["op"] == "seed":
            s = x["s"]
            mu, V = gauss(rng, 2, thermal=0.4)
            Vc = np.eye(4) + 0.3 * np.ones((4, 4))
            A = np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0.0]])
            pr = rng.random((3, 3))
            pr /= pr.sum()
            fs = {
                "hafnian_sample_state": lambda: sm.hafnian_sample_state(V, 4, mean=mu, cutoff=6),
                "torontonian_sample_state": lambda: sm.torontonian_sample_state(V, 4, mu=mu, fanout=2),
                "hafnian_sample_graph": lambda: sm.hafnian_sample_graph(A, 1.1, samples=3),
                "torontonian_sample_graph": lambda: sm.torontonian_sample_graph(A, 1.1, samples=3),
                "hafnian_sample_classical_state": lambda: sm.hafnian_sample_classical_state(Vc, 6, mean=mu),
                "torontonian_sample_classical_state": lambda: sm.torontonian_sample_classical_state(Vc, 6, mean=mu),
                "hafnian_sample_graph_rank_one": lambda: sm.hafnian_sample_graph_rank_one(np.array([1.0, 0.5, -0.3]), 1.2, samples=5),
                "photon_number_sampler": lambda: np.array(sm.photon_number_sampler(pr, 6)),
                "generate_hafnian_sample": lambda: sm.generate_hafnian_sample(V, mean=mu),
                "generate_torontonian_sample": lambda: sm.generate_torontonian_sample(V, mu=mu),
            }
            names = list(fs)
            for nm in names:
                other = fs[names[int(rng.integers(len(names)))]]

                def seq():
                    out = []
                    for k in range(3):
                        sm.seed(s)
                        out.append(np.asarray(fs[nm]()))
                        if k == 1:
                            other()
                    return tuple(out)

                R.call("repeat", nm + "/" + key(x), {"s": s}, seq)

            def cseq():
                out = []
                for k in range(3):
                    cs_seed(cs, s)
                    out.append(np.asarray(cs.generate_thermal_samples(np.array([0.3, 0.6]), np.array([[0.6, 0.8], [0.8, -0.6]]), num_samples=5)))
                return tuple(out)

            R.call("repeat", "generate_thermal_samples/" + key(x), {"s": s}, cseq)


def cs_seed(cs, s):
    np.random.seed(s)


def ints(a):
    """counts may come as floats of integral value"""
    a = np.asarray(a)
    if a.dtype.kind == "f" and np.all(a == np.rint(a)):
        return a.astype(int)
    return a


JOBS = {
    "warm_h": lambda R: warm(R, "h"), "warm_t": lambda R: warm(R, "t"),
    "script_h": lambda R: script(R, "h"), "script_t": lambda R: script(R, "t"),
    "limits_h": lambda R: limits(R, "h"), "limits_t": lambda R: limits(R, "t"),
    "threads": threads, "graph": graph, "rest": rest,
}

if __name__ == "__main__":
    import c20

    main(c20)
