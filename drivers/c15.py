"""C15: loss, noise, marginals, bounds, classical subsystems."""
import zlib
import numpy as np
from harness import *
from c13 import mk, skey
from c07 import state
from c15_meta import META


def rng_of(R, s):
    return np.random.default_rng([R.seed, zlib.crc32(repr(sorted(s.items())).encode())])


def tensor(rng, sh, dt):
    T = rng.random(sh) * (rng.random(sh) < 0.8)
    T = T / max(T.sum(), 1e-3)
    if dt == "int":
        T = np.zeros(sh, dtype=int)
        T[tuple(int(rng.integers(c)) for c in sh)] = 1
    elif dt == "f32":
        T = T.astype(np.float32)
    elif dt == "F":
        T = np.asfortranarray(T)
    elif dt == "strided":
        T = layout(T, "strided")
    return T


def chan(R):
    import thewalrus.quantum as q

    for s in R.scen["Gen_C15"]:
        rng = rng_of(R, s)
        if s["op"] == "loss":
            sh = s["sh"]
            n = len(sh)
            t = s["et"]
            et = rng.uniform(0, 1, n)
            if t == "ones":
                et = np.ones(n)
            elif t == "zeros":
                et = np.zeros(n)
            elif t == "one1":
                et[rng.integers(n)] = 1
            elif t == "near1":
                et = 1 - rng.uniform(0, 1e-7, n)
            elif t == "near0":
                et = rng.uniform(0, 1e-7, n)
            elif t == "oneaxis":
                et = np.ones(n)
                et[rng.integers(n)] = rng.uniform(0, 1)
            T = tensor(rng, sh, s["dt"])
            c = [list, tuple, np.array][rng.integers(3)](et)
            inp = enc({"sh": sh, "T": T, "etas": et})
            inp["f32"] = s["dt"] == "f32"
            R.call("loss", f"{sh}/{t}/{s['dt']}", inp, lambda: q.update_probabilities_with_loss(c, T))
        elif s["op"] == "noise":
            sh = s["sh"]
            t = s["nz"]
            qs = []
            ax = int(rng.integers(len(sh)))
            for i, c in enumerate(sh):
                L = {"same": c, "short": max(1, c - 1), "long": c + 2, "delta": 1, "oneaxis": c}[t]
                v = rng.random(L)
                v /= v.sum()
                if t == "oneaxis" and i != ax:
                    v = np.zeros(L)
                    v[0] = 1.0
                qs.append(v)
            T = tensor(rng, sh, s["dt"])
            inp = enc({"sh": sh, "T": T, "qs": qs})
            inp["f32"] = s["dt"] == "f32"
            c = qs
            if len({len(v) for v in qs}) == 1 and rng.random() < 0.4:
                c = np.array(qs)
            R.call("noise", f"{sh}/{t}/{s['dt']}", inp, lambda: q.update_probabilities_with_noise(c, T))
        elif s["op"] == "lossmat":
            eta = float(s["eta"])
            R.call("loss_mat", "{eta}/{cut}".format(**s), {"eta": eta, "cut": s["cut"]}, lambda: q.loss_mat(eta, s["cut"]))
        elif s["op"] == "rej":
            k = s["kind"]
            P = np.ones((2, 2)) / 4
            f = {
                "lossneg": lambda: q.loss_mat(-0.1, 3),
                "lossbig": lambda: q.update_probabilities_with_loss([0.5, 1.2], P),
                "losslen": lambda: q.update_probabilities_with_loss([0.5], P),
                "noiselen": lambda: q.update_probabilities_with_noise([np.ones(2) / 2] * 3, P),
                "nbig": lambda: q.n_body_marginals(np.zeros(4), np.eye(4), 2, 3),
                "nodd": lambda: q.n_body_marginals(np.zeros(3), np.eye(3), 2, 1),
                "nshape": lambda: q.n_body_marginals(np.zeros(4), np.eye(6), 2, 1),
                "tvdinvalid": lambda: q.tvd_cutoff_bounds(np.zeros(2), 0.3 * np.eye(2), 3),
            }[k]
            R.call("reject", k, {"fn": k}, f)


def stt(R):
    import thewalrus.quantum as q

    for x in R.scen["Gen_C15"]:
        if x["op"] in ("marg", "tvd"):
            rng, mu, V, h, pure = mk(R, x["s"])
            k = {} if h == 2 else {"hbar": h}
            key = skey(x["s"]) + f"/cut={x['cut']}"
            inp = {"mu": mu, "V": V, "hbar": h, "cut": x["cut"]}
            if x["op"] == "marg":
                R.call("marginals", key + f"/n={x['n']}", dict(inp, n=x["n"]), lambda: q.n_body_marginals(mu, V, x["cut"], x["n"], **k))
            else:
                R.call("tvd", key, inp, lambda: q.tvd_cutoff_bounds(mu, V, x["cut"], **k))
        elif x["op"] == "classical":
            rng = rng_of(R, x)
            n, j, h = x["n"], x["j"], float(x["hb"])
            k = {} if h == 2 else {"hbar": h}
            _, V = state(rng, n, "thermal", h)
            if x["kind"] == "vac":
                V = np.eye(2 * n) * h / 2
            elif x["kind"] == "product":
                V = np.diag(np.tile(1 + rng.uniform(0, 1, n), 2)) * h / 2
            if j < n:  # mode j (0-based) is squeezed
                if x["kind"] == "pair" and j > 0:  # squeezed jointly with a mode before it
                    V = np.eye(2 * n) * h / 2
                    a = int(rng.integers(j))
                    c, t = np.cosh(1.2) * h / 2, np.sinh(1.2) * h / 2
                    for i in (a, j):
                        V[i, i] = V[i + n, i + n] = c
                    V[a, j] = V[j, a] = t
                    V[a + n, j + n] = V[j + n, a + n] = -t
                else:
                    r = 1.5
                    D = np.ones(2 * n)
                    D[j], D[j + n] = np.exp(-r), np.exp(r)
                    if x["kind"] == "generic" and n - j > 1:
                        U = np.eye(n, dtype=complex)
                        U[j:, j:] = haar(rng, n - j)
                        # keep mode j squeezed: mix only later modes with each other
                        U[j:, j:] = np.eye(n - j)
                        U[j + 1 :, j + 1 :] = haar(rng, n - j - 1)
                        Sm = usymp(U)
                        V = Sm @ (np.diag(D) @ V @ np.diag(D)) @ Sm.T
                    else:
                        V = np.diag(D) @ V @ np.diag(D)
            V = (V + V.T) / 2
            R.call("classical", "{n}/{j}/{kind}/hbar={hb}/{v}".format(**x), {"V": V, "hbar": h, "atol": 1e-8}, lambda: q.find_classical_subsystem(V, **k))
            if x["v"] == 0:
                R.call("classical", "atol/{n}/{j}/{kind}/hbar={hb}/{v}".format(**x), {"V": V, "hbar": h, "atol": 0.5}, lambda: q.find_classical_subsystem(V, atol=0.5, **k))


JOBS = {"chan": chan, "state": stt}

if __name__ == "__main__":
    import c15

    main(c15)
