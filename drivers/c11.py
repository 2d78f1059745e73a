"""C11: Gaussian circuits: histories of gates, moments recorded after every step."""
import itertools
import zlib
import numpy as np
from scipy.sparse import csr_array, coo_array, csc_array
from harness import *
from c11_meta import META


def pack(mu, V):
    return np.vstack([np.asarray(mu).reshape(1, -1), V])


def build(rng, st, N, hb):
    """concrete parameters of an abstract step: (recorded step(s), function on (mu, V))"""
    import thewalrus.symplectic as sp

    g, w = st["g"], list(st["w"])
    ang = lambda: float(rng.uniform(-np.pi, np.pi))
    mark = {"S": None}

    def unitary(S):
        return lambda mu, V: (S @ mu, S @ V @ S.T)

    hk = {} if hb == 2 else {"hbar": hb}
    wlist = [w, tuple(w), np.array(w)][rng.integers(3)] if w else w
    if g == "rnd":  # a generic entangling preparation
        U = haar(rng, N)
        r = rng.uniform(-0.7, 0.7, N)
        ph = rng.uniform(-3, 3, N)
        S = sp.interferometer(U) @ sp.squeezing(r, ph)
        steps = [{"g": "sqvec", "w": list(range(N)), "r": r, "phi": ph}, {"g": "U", "w": list(range(N)), "U": U}]
        return steps, [unitary(sp.squeezing(r, ph)), unitary(sp.interferometer(U))], True
    if g in ("sq", "sq0"):
        r, ph = float(rng.uniform(-0.8, 0.8)), (0.0 if g == "sq0" else ang())
        S = sp.squeezing(r) if g == "sq0" else sp.squeezing(r, ph)
        return [{"g": "sq", "w": w, "p": [r, ph]}], [unitary(sp.expand(S, w[0] if rng.random() < 0.5 else wlist, N))], True
    if g == "psq":  # squeezing with an array of one element
        r, ph = float(rng.uniform(-0.8, 0.8)), ang()
        return [{"g": "sq", "w": w, "p": [r, ph]}], [unitary(sp.expand(sp.squeezing(np.array([r]), np.array([ph])), wlist, N))], True
    if g == "sqmany":
        r, ph = float(rng.uniform(-0.8, 0.8)), ang()
        return [{"g": "sqmany", "w": w, "p": [r, ph]}], [unitary(sp.expand(sp.squeezing(r, ph), wlist, N))], True
    if g == "sqvec":
        r, ph = rng.uniform(-0.8, 0.8, len(w)), rng.uniform(-3, 3, len(w))
        return [{"g": "sqvec", "w": w, "r": r, "phi": ph}], [unitary(sp.expand(sp.squeezing(r, ph), wlist, N))], True
    if g == "rot":
        th = ang()
        return [{"g": "rot", "w": w, "p": [th]}], [unitary(sp.expand(sp.rotation(th), w[0], N))], True
    if g in ("disp", "dispi"):
        al = complex(*rng.normal(size=2)) if g == "disp" else int(rng.integers(-2, 3))
        if g == "disp" and rng.random() < 0.3:
            al = float(al.real)
        return [{"g": "disp", "w": w, "p": [al]}], [lambda mu, V: (mu + sp.expand_vector(al, w[0], N, **hk), V)], True
    if g == "bs":
        th, ph = ang(), ang()
        return [{"g": "bs", "w": w, "p": [th, ph]}], [unitary(sp.expand(sp.beam_splitter(th, ph), wlist, N))], True
    if g == "tms":
        r, ph = float(rng.uniform(-0.7, 0.7)), ang()
        return [{"g": "tms", "w": w, "p": [r, ph]}], [unitary(sp.expand(sp.two_mode_squeezing(r, ph), wlist, N))], True
    if g in ("U2", "U3"):
        U = haar(rng, len(w))
        if rng.random() < 0.5:
            return [{"g": "U", "w": w, "U": U}], [unitary(sp.expand(sp.interferometer(U), wlist, N))], True
        return [{"g": "U", "w": w, "U": U}], [unitary(sp.interferometer(sp.expand_passive(U, wlist, N)))], True
    if g in ("loss", "lossth"):
        T = float(rng.uniform(0, 1)) if rng.random() < 0.8 else float(rng.integers(0, 2))
        nb = float(rng.uniform(0, 2)) if g == "lossth" else 0.0
        kw = {"nbar": nb} if g == "lossth" else {}
        return [{"g": "loss", "w": w, "p": [T, nb]}], [lambda mu, V: sp.loss(mu, V, T, w[0], **kw, **hk)], False
    if g == "pass2":
        T = haar(rng, 2) @ np.diag(rng.uniform(0, 1, 2)) @ haar(rng, 2)
        return [{"g": "pass", "w": w, "U": T}], [lambda mu, V: sp.passive_transformation(mu, V, sp.expand_passive(T, wlist, N), **hk)], False
    raise ValueError(g)


def run(R, part):
    import thewalrus.symplectic as sp
    from thewalrus.quantum import reduced_gaussian, is_valid_cov, is_pure_cov, is_symplectic

    def flag(key, fn, want, f):
        inp = enc({"fn": fn})
        inp["want"] = want
        R.call("flag", key, inp, lambda: bool(f()))

    for num_, s in enumerate(R.scen["Gen_C11"]):
        if num_ % 3 != part:
            continue
        rng = np.random.default_rng([R.seed, zlib.crc32(repr(sorted(s.items())).encode())])
        N, hb = s["N"], float(s["hb"])
        hk = {} if hb == 2 else {"hbar": hb}
        pure = True
        steps, fns = [], []
        err = None
        hist = "-".join(t["g"] + "".join(map(str, t["w"])) for t in s["steps"])
        key = f"{hist}/N={N}/hb={hb}/{s['v']}"
        R.begin("circuit", key, {})
        try:
            for t in s["steps"]:
                a, b, p = build(rng, t, N, hb)
                steps += a
                fns += b
                pure = pure and p
        except Exception as ex:  # a gate constructor raised
            err = ex
        final = {}

        def go():
            if err is not None:
                raise err
            mu, V = sp.vacuum_state(N, **hk)
            out = [pack(mu, V)]
            for f in fns:
                mu, V = f(mu, V)
                out.append(pack(mu, V))
            final["mu"], final["V"] = mu.real.astype(float), V
            return np.array(out)

        R.call("circuit", key, {"N": N, "hbar": hb, "steps": steps}, go)
        if "V" not in final:
            continue
        mu, V = final["mu"], final["V"]
        Vs = (V + V.T) / 2
        flag(key, "is_valid_cov", True, lambda: is_valid_cov(Vs, **hk))
        lossy = any(x["g"] in ("loss", "pass") for x in steps)
        if not lossy:
            flag(key, "is_pure_cov", True, lambda: is_pure_cov(Vs, **hk))
        # queries on the final state
        k = int(rng.integers(1, N + 1))
        modes = [int(x) for x in rng.permutation(N)[:k]]
        c = [list, tuple, np.array][rng.integers(3)](modes)
        if k == 1 and rng.random() < 0.5:
            c = modes[0]
        for nm, f in (("reduced_state", sp.reduced_state), ("reduced_gaussian", reduced_gaussian)):
            R.call(nm, key + f"/{modes}", {"mu": mu, "V": V, "hbar": hb, "modes": modes}, lambda: pack(*f(mu, V, c)))
        if s["v"] % 5 == 1:
            bad = [N] if rng.random() < 0.5 else list(range(N - 1)) + [N + 1]
            for nm, f in (("reduced_state", sp.reduced_state), ("reduced_gaussian", reduced_gaussian)):
                R.call("reject", key + f"/{nm}/{bad}", {"fn": nm}, lambda: pack(*f(mu, V, bad)))
        if s["v"]:
            M = int(rng.integers(1, N + 1))
            T = (haar(rng, N) * rng.uniform(0.3, 1))[:M]
            R.call("passive", key, {"mu": mu, "V": V, "hbar": hb, "T": T}, lambda: pack(*sp.passive_transformation(mu, V, T, **hk)))
            j = int(rng.integers(N))
            m1, V1 = mu[[j, j + N]], V[np.ix_([j, j + N], [j, j + N])]
            R.call("mean_photon_number", key, {"mu": m1, "V": V1, "hbar": hb}, lambda: np.array(sp.mean_photon_number(m1, V1, **hk)))
            # expand of sparse matrices, and of products: symplectic
            k2 = int(rng.integers(1, min(N, 3) + 1))
            w = [int(x) for x in rng.permutation(N)[:k2]]
            S = sp.interferometer(haar(rng, k2)) @ sp.squeezing(rng.uniform(-0.5, 0.5, k2)) @ sp.interferometer(haar(rng, k2))
            full = np.eye(2 * N)
            ix = np.array(w + [x + N for x in w])
            full[np.ix_(ix, ix)] = S
            R.call("symplectic", key + f"/{w}", {"S": full}, lambda: sp.expand(S, w, N))
            for cls in (csr_array, coo_array, csc_array):
                R.call("symplectic", key + f"/{w}/{cls.__name__}", {"S": full}, lambda: sp.expand(cls(S), w, N).toarray())
            flag(key, "symplectic.is_symplectic", True, lambda: sp.is_symplectic(sp.expand(S, w, N)))
            flag(key, "quantum.is_symplectic", True, lambda: is_symplectic(sp.expand(S, w, N)))


JOBS = {"a": lambda R: run(R, 0), "b": lambda R: run(R, 1), "c": lambda R: run(R, 2)}

if __name__ == "__main__":
    import c11

    main(c11)
