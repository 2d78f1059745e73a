"""C07: tor, ltor, threshold_detection_prob."""
import itertools
import zlib
import numpy as np
from harness import *
from c07_meta import META


def rng_of(R, s):
    return np.random.default_rng([R.seed, zlib.crc32(repr(sorted(s.items())).encode())])


def state(rng, n, kind, hbar):
    if kind == "thermal":
        V = np.diag(np.tile(1 + rng.uniform(0, 2, n), 2)) * hbar / 2
        U = usymp(haar(rng, n, real=True))
        V = U @ V @ U.T
        mu = rng.normal(size=2 * n) * 0.7 * np.sqrt(hbar / 2)
    elif kind == "product":
        r = rng.uniform(-1, 1, n)
        V = np.diag(np.concatenate([np.exp(-2 * r), np.exp(2 * r)])) * hbar / 2
        mu = rng.normal(size=2 * n) * 0.7 * np.sqrt(hbar / 2)
    elif kind == "partvac":
        mu, V = gauss(rng, n, hbar)
        k = rng.integers(n)
        for i in (k, k + n):
            V[i, :] = 0
            V[:, i] = 0
            V[i, i] = hbar / 2
            mu[i] = 0
    elif kind == "vacuum":
        V = np.eye(2 * n) * hbar / 2
        mu = rng.normal(size=2 * n) * 0.7 * np.sqrt(hbar / 2)
    elif kind == "tmsv" and n >= 2:
        mu, V = gauss(rng, n, hbar, pure=True)
        r = rng.uniform(0.3, 1)
        T = np.eye(2 * n) * hbar / 2
        c, s = np.cosh(2 * r) * hbar / 2, np.sinh(2 * r) * hbar / 2
        T[0, 0] = T[1, 1] = T[n, n] = T[n + 1, n + 1] = c
        T[0, 1] = T[1, 0] = s
        T[n, n + 1] = T[n + 1, n] = -s
        V = T
    elif kind == "squeezed":
        mu, V = gauss(rng, n, hbar, pure=True, smax=1.5)
    else:
        mu, V = gauss(rng, n, hbar, pure=kind in ("pure", "tmsv"))
    return mu, (V + V.T) / 2


def omat(mu, V, hbar):
    n = len(V) // 2
    F = np.block([[np.eye(n), 1j * np.eye(n)], [np.eye(n), -1j * np.eye(n)]])
    Q = F @ V @ F.conj().T / (2 * hbar) + np.eye(2 * n) / 2
    Qi = np.linalg.inv(Q)
    al = F @ mu / np.sqrt(2 * hbar)
    O = np.eye(2 * n) - Qi
    return (O + O.conj().T) / 2, (Qi @ al).conj()


def tors(R, rec):
    import thewalrus as tw

    for s in R.scen["Gen_C07"]:
        if s["op"] == "threshold" or s["rec"] != rec:
            continue
        rng = rng_of(R, s)
        n = s["n"]
        hb = float(s["hb"])
        if n == 0:
            O, g = np.zeros((0, 0), complex), np.zeros(0, complex)
        else:
            mu, V = state(rng, n, s["kind"], hb)
            O, g = omat(mu, V, hb)
        if s["dt"] == "real" and s["kind"] != "tmsv":
            if n:
                # a real O: same x and p statistics up to sign
                B = haar(rng, n, real=True)
                lam = rng.uniform(0, 0.6, n)
                D = B @ np.diag(lam * rng.uniform(-1, 1, n)) @ B.T
                C = B @ np.diag(lam) @ B.T * 0.5
                O = np.block([[C, D * 0.4], [D * 0.4, C]])
                O = (O + O.T) / 2
            else:
                O = O.real
            g = g.real
        if s["op"] == "ltor0":
            g = np.zeros_like(g)
        key = "{op}/n={n}/{kind}/{dt}/rec={rec}/hb={hb}/{v}".format(**s)
        inp = enc({"O": O, "g": g})
        inp["rec"] = rec
        if s["op"] == "tor":
            R.call("tor", key, inp, lambda: tw.tor(O, recursive=rec))
        else:
            R.call("ltor", key, inp, lambda: tw.ltor(O, g, recursive=rec))


def threshold(R, sel):
    import thewalrus as tw

    for s in R.scen["Gen_C07"]:
        if s["op"] != "threshold" or not sel(s):
            continue
        rng = rng_of(R, s)
        n, hb = s["n"], float(s["hb"])
        mu, V = state(rng, n, s["kind"], hb)
        if s["disp"] == "none":
            mu = np.zeros(2 * n)
        elif s["disp"] == "one":
            m = np.zeros(2 * n)
            k = rng.integers(2 * n)
            m[k] = 0.9
            mu = m
        elif s["disp"] == "tiny":
            mu = rng.normal(size=2 * n) * 1e-4
        pats = [list(p) for p in itertools.product((0, 1), repeat=n)]
        c = [list, tuple, np.array][s["cont"]]
        hk = {} if hb == 2 else {"hbar": hb}
        key = "threshold/n={n}/{kind}/{disp}/hb={hb}/cont={cont}/{v}".format(**s)
        R.call("threshold", key, {"mu": mu, "V": V, "hbar": hb, "patterns": pats},
               lambda: np.array([tw.threshold_detection_prob(mu, V, c(p), **hk) for p in pats]))


JOBS = {
    "rec": lambda R: tors(R, True),
    "direct": lambda R: tors(R, False),
    "thr0": lambda R: threshold(R, lambda s: s["disp"] == "none"),
    "thr": lambda R: threshold(R, lambda s: s["disp"] != "none"),
}

if __name__ == "__main__":
    import c07

    main(c07)
