"""C13: Fock-space queries."""
import zlib
import numpy as np
from harness import *
from c07 import state
from c13_meta import META


def rng_of(R, s):
    return np.random.default_rng([R.seed, zlib.crc32(repr(sorted(s.items())).encode())])


def mk(R, s):
    rng = rng_of(R, s)
    h, n = float(s["hb"]), s["n"]
    mu, V = state(rng, n, s["kind"], h)
    if s["disp"] == "none":
        mu = mu * 0
    elif s["disp"] == "tiny":
        mu = mu * 1e-11
    elif s["disp"] == "one":
        k = int(rng.integers(n))
        keep = np.zeros(2 * n)
        keep[[k, k + n]] = 1
        mu = mu * keep
    pure = s["kind"] in ("pure", "squeezed", "vacuum", "tmsv", "product")
    return rng, mu, V, h, pure


def skey(s):
    return "{n}/{kind}/{disp}/hbar={hb}/{v}".format(**s)


def full(R):
    import thewalrus.quantum as q

    for x in R.scen["Gen_C13"]:
        s = x["s"]
        if x["op"] == "par":
            rng, mu, V, h, pure = mk(R, s)
            R.call("probabilities", "parallel/" + skey(s), {"mu": mu, "V": V, "hbar": h, "cut": 3}, lambda: q.probabilities(mu, V, 3, parallel=True, hbar=h))
        if x["op"] != "full":
            continue
        rng, mu, V, h, pure = mk(R, s)
        n, c = s["n"], x["cut"]
        k = {} if h == 2 else {"hbar": h}
        key = skey(s) + f"/cut={c}"
        inp = enc({"mu": mu, "V": V, "hbar": h, "ps": [9] * n, "cut": c})
        inp["normalize"] = False
        dm = R.call("density_matrix", key, inp, lambda: q.density_matrix(mu, V, cutoff=c, **k))
        pr = R.call("probabilities", key, inp, lambda: q.probabilities(mu, V, c, **k))
        if pure:
            R.call("state_vector", key, inp, lambda: q.state_vector(mu, V, cutoff=c, **k))
            R.call("state_vector", key + "/nocheck", inp, lambda: q.state_vector(mu, V, cutoff=c, check_purity=False, **k))
            inp = dict(inp, normalize=True)
            R.call("state_vector", key + "/normalize", inp, lambda: q.state_vector(mu, V, cutoff=c, normalize=True, **k))

            def sv_amp():
                a = q.state_vector(mu, V, cutoff=c, **k)
                ix = [tuple(int(t) for t in rng.integers(0, c, n)) for _ in range(6)]
                return (np.array([a[i] for i in ix]), np.array([q.pure_state_amplitude(mu, V, list(i), **k) for i in ix]))

            R.call("same", key, {"fn": "state_vector vs pure_state_amplitude", "mu": mu, "V": V, "hbar": h}, sv_amp)


def post(R):
    import thewalrus.quantum as q

    for x in R.scen["Gen_C13"]:
        if x["op"] != "post":
            continue
        s = x["s"]
        rng, mu, V, h, pure = mk(R, s)
        n, c, ps = s["n"], x["cut"], x["ps"]
        if n == 3 and sum(p == 9 for p in ps) == 2 and c == 3 and R.quick and s["kind"] not in ("mixed", "pure"):
            c = 2
        k = {} if h == 2 else {"hbar": h}
        order = [i for i in range(n) if ps[i] != 9]
        if rng.random() < 0.5:
            order = order[::-1]
        sel = {i: ps[i] for i in order}
        norm = bool(rng.integers(2))
        key = skey(s) + f"/cut={c}/ps={ps}/norm={norm}"
        inp = enc({"mu": mu, "V": V, "hbar": h, "ps": ps, "cut": c})
        inp["normalize"] = norm
        p0 = np.real(q.density_matrix(mu, V, post_select=sel, cutoff=c, **k)).sum() if False else None
        if norm:
            # normalising is meaningful only when the outcome has a probability
            try:
                f = q.density_matrix(mu, V, post_select=sel, cutoff=c, **k)
                M = n - len(sel)
                tr = np.einsum(f, sum([[i, i] for i in range(M)], []), []).real if M else float(np.real(f))
                if not tr > 1e-6:
                    inp["normalize"] = norm = False
            except Exception:
                pass
        R.call("density_matrix", key, inp, lambda: q.density_matrix(mu, V, post_select=sel, normalize=norm, cutoff=c, **k))
        if pure:
            R.call("state_vector", key, inp, lambda: q.state_vector(mu, V, post_select=sel, normalize=norm, cutoff=c, **k))
            if not norm:

                def sl():
                    cc = max([c] + [v + 1 for v in sel.values()])
                    a = q.state_vector(mu, V, cutoff=cc, **k)
                    ix = tuple(ps[i] if ps[i] != 9 else slice(0, c) for i in range(n))
                    return (q.state_vector(mu, V, post_select=sel, cutoff=c, **k).ravel(), np.asarray(a[ix]).ravel())

                R.call("same", key, {"fn": "post-selected state_vector vs slice", "mu": mu, "V": V, "hbar": h, "ps": ps}, sl)


def elem(R):
    import thewalrus.quantum as q

    for x in R.scen["Gen_C13"]:
        if x["op"] != "elem":
            continue
        s = x["s"]
        rng, mu, V, h, pure = mk(R, s)
        n = s["n"]
        k = {} if h == 2 else {"hbar": h}
        key = skey(s)
        for t in range(6 if R.quick else 20):
            i = [int(y) for y in rng.integers(0, 4, n)] if t else [0] * n
            j = [int(y) for y in rng.integers(0, 4, n)] if t > 1 else ([0] * n if t == 0 else list(i))
            pref = bool(t % 3)
            inp = enc({"mu": mu, "V": V, "hbar": h, "i": i, "j": j})
            inp["pref"] = pref
            kk = dict(k) if pref else dict(k, include_prefactor=False)
            R.call("density_matrix_element", key + f"/{i}{j}", inp, lambda: q.density_matrix_element(mu, V, i, j, **kk))
            if pure:
                inp = dict(inp, scale=1)
                R.call("amplitude", key + f"/{i}{j}", inp, lambda: (np.array(q.pure_state_amplitude(mu, V, i, **kk)), np.array(q.pure_state_amplitude(mu, V, j, check_purity=False, **kk))))


def deep(R):
    import thewalrus.quantum as q

    for x in R.scen["Gen_C13"]:
        if x["op"] != "deep":
            continue
        s = x["s"]
        rng, mu, V, h, pure = mk(R, s)
        n = s["n"]
        k = {} if h == 2 else {"hbar": h}
        key = "deep/" + skey(s)
        top = {1: 12, 2: 6, 3: 4, 4: 3, 5: 2}[n]
        for t in range(4):
            i = [int(y) for y in rng.integers(0, top + 1, n)]
            j = [int(y) for y in rng.integers(0, top + 1, n)]
            inp = enc({"mu": mu, "V": V, "hbar": h, "i": i, "j": j})
            inp["pref"] = True
            R.call("density_matrix_element", key + f"/{i}{j}", inp, lambda: q.density_matrix_element(mu, V, i, j, **k))
            if s["kind"] == "pure":
                inp = dict(inp, scale=1)
                R.call("amplitude", key + f"/{i}{j}", inp, lambda: (np.array(q.pure_state_amplitude(mu, V, i, **k)), np.array(q.pure_state_amplitude(mu, V, j, **k))))


JOBS = {"full": full, "post": post, "elem": elem, "deep": deep}

if __name__ == "__main__":
    import c13

    main(c13)
