"""C14: moments."""
import numpy as np
from harness import *
from c13 import mk, skey
from c14_meta import META


def items(R, op):
    for x in R.scen["Gen_C14"]:
        if x["op"] == op:
            rng, mu, V, h, pure = mk(R, x["s"])
            yield x, rng, mu, V, h, ({} if h == 2 else {"hbar": h}), skey(x["s"])


def closed(R):
    import thewalrus.quantum as q

    for x, rng, mu, V, h, k, key in items(R, "closed"):
        n = x["s"]["n"]
        inp = {"mu": mu, "V": V, "hbar": h}
        R.call("photon_number_mean_vector", key, inp, lambda: q.photon_number_mean_vector(mu, V, **k))
        R.call("photon_number_covmat", key, inp, lambda: q.photon_number_covmat(mu, V, **k))
        for j in range(n):
            R.call("photon_number_mean", key + f"/{j}", dict(inp, j=j), lambda: q.photon_number_mean(mu, V, j, **k))
            l = int(rng.integers(n))
            R.call("photon_number_covar", key + f"/{j},{l}", dict(inp, j=j, k=l), lambda: q.photon_number_covar(mu, V, j, l, **k))
    for x, rng, mu, V, h, k, key in items(R, "clicks"):
        inp = {"V": V, "hbar": h}
        R.call("mean_clicks", key, inp, lambda: q.mean_clicks(V, **k))
        R.call("variance_clicks", key, inp, lambda: q.variance_clicks(V, **k))


def expect(R):
    import thewalrus.quantum as q

    for x, rng, mu, V, h, k, key in items(R, "expect"):
        m = x["m"]
        c = [list, tuple, np.array][rng.integers(3)](m)
        inp = {"mu": mu, "V": V, "hbar": h, "m": m}
        R.call("photon_number_expectation", key + f"/{m}", inp, lambda: q.photon_number_expectation(mu, V, c, **k))
        R.call("photon_number_squared_expectation", key + f"/{m}", inp, lambda: q.photon_number_squared_expectation(mu, V, c, **k))


def moment(R):
    import thewalrus.quantum as q

    for x, rng, mu, V, h, k, key in items(R, "moment"):
        p = x["p"]
        order = [int(i) for i in rng.permutation(len(p)) if p[i] != 9]
        if not order:
            continue
        R.call("photon_number_moment", key + f"/{p}", {"mu": mu, "V": V, "hbar": h, "p": p}, lambda: q.photon_number_moment(mu, V, {i: p[i] for i in order}, **k))


def order(R):
    import thewalrus.quantum as q

    for x, rng, mu, V, h, k, key in items(R, "order"):
        r = x["r"]
        c = [list, tuple, np.array][rng.integers(3)](r)
        inp = {"mu": mu, "V": V, "hbar": h, "r": r}
        s = [-1, -0.5, 0, 0.3, 1][rng.integers(5)]
        R.call("s_ordered_expectation", key + f"/{r}/s={s}", dict(inp, s=s), lambda: q.s_ordered_expectation(mu, V, c, s=s, **k) if s else q.s_ordered_expectation(mu, V, c, **k))
        R.call("normal_ordered_expectation", key + f"/{r}", dict(inp, s=1), lambda: q.normal_ordered_expectation(mu, V, c, **k))


JOBS = {"closed": closed, "expect": expect, "moment": moment, "order": order}

if __name__ == "__main__":
    import c14

    main(c14)
