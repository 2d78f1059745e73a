"""C12: representations, orderings, predicates, hbar-covariance."""
import zlib
import numpy as np
from harness import *
from c07 import state
from c12_meta import META


def rng_of(R, s):
    return np.random.default_rng([R.seed, zlib.crc32(repr(sorted(s.items())).encode())])


def hk(h):
    return {} if h == 2 else {"hbar": h}


def conv(R):
    import thewalrus.quantum as q
    from thewalrus import samples as sm

    for s in R.scen["Gen_C12"]:
        if s["op"] != "conv":
            continue
        rng = rng_of(R, s)
        h = float(s["hb"])
        mu, V = state(rng, s["n"], s["kind"], h)
        key = "{n}/{kind}/hbar={hb}/{lay}/{v}".format(**s)
        k = hk(h)
        L = layout(V, s["lay"])
        inp = {"V": V, "hbar": h}
        Q = R.call("Qmat", key, inp, lambda: q.Qmat(L, **k))
        R.call("Covmat", key, inp, lambda: q.Covmat(q.Qmat(L, **k), **k))
        R.call("Amat", key, inp, lambda: q.Amat(L, **k))
        if Q is not None:
            R.call("AQ", key, {"Q": Q}, lambda: q.Amat(Q, cov_is_qmat=True))
        R.call("c2r", key, {"mu": mu, "hbar": h}, lambda: q.complex_to_real_displacements(layout(mu, s["lay"]), **k))
        R.call("r2c", key, {"mu": mu, "hbar": h}, lambda: q.real_to_complex_displacements(q.complex_to_real_displacements(mu, **k), **k))
        R.call("mu_to_alpha", key, {"mu": mu, "hbar": h}, lambda: sm.mu_to_alpha(mu, **k))
        if s["kind"] not in ("squeezed",):
            R.call("decompose_cov", key, inp, lambda: sm.decompose_cov(L, **k))


def pred(R):
    import thewalrus.quantum as q

    for s in R.scen["Gen_C12"]:
        if s["op"] != "pred":
            continue
        rng = rng_of(R, s)
        h = float(s["hb"])
        n = s["n"]
        _, V = state(rng, n, s["kind"], h)
        sh = s["sh"]
        if sh in ("asym", "asymtiny"):
            eps = 1e-3 if sh == "asym" else 1e-10
            i, j = int(rng.integers(2 * n)), int(rng.integers(2 * n))
            if i != j:
                V[i, j] += eps
        elif sh != "none":
            V = V + float(sh) * np.eye(2 * n)
        at, rt = (1e-8, 1e-5)
        kw = dict(hk(h))
        if s["tol"] == "loose":
            at = 3e-3
            kw["atol"] = at
        key = "{n}/{kind}/hbar={hb}/shift={sh}/{tol}/{v}".format(**s)
        inp = {"V": V, "hbar": h, "rtol": rt, "atol": at}
        R.call("is_valid_cov", key, inp, lambda: bool(q.is_valid_cov(V, **kw)))
        R.call("is_pure_cov", key, inp, lambda: bool(q.is_pure_cov(V, **kw)))
        R.call("is_classical_cov", key, inp, lambda: bool(q.is_classical_cov(V, **kw)))
        if s["tol"] == "loose" and s["v"] == 0:
            kw["rtol"] = 2e-1
            inp = dict(inp, rtol=2e-1)
            R.call("is_pure_cov", key + "/rtol", inp, lambda: bool(q.is_pure_cov(V, **kw)))


def misc(R):
    import thewalrus.quantum as q
    import thewalrus.symplectic as sp

    for s in R.scen["Gen_C12"]:
        rng = rng_of(R, s)
        if s["op"] == "order":
            n, k, d = s["n"], s["kind"], s["dt"]
            key = "{n}/{kind}/{dt}".format(**s)
            if k in ("vec", "mat"):
                a = rmat(rng, 2 * n, 2 * n if k == "mat" else 1, d)
                a = a.ravel() if k == "vec" else a
                for lay in ("C", "strided"):
                    for nm in ("xxpp_to_xpxp", "xpxp_to_xxpp"):
                        R.call(nm, key + "/" + lay, {"a": a, "kind": k}, lambda: getattr(sp, nm)(layout(a, lay)))
            else:
                a = {"rect": np.zeros((2 * n, 2 * n + 2)), "oddmat": np.zeros((2 * n + 1, 2 * n + 1)), "oddvec": np.zeros(n)}[k]
                for nm in ("xxpp_to_xpxp", "xpxp_to_xxpp"):
                    R.call("reject", key + "/" + nm, {"fn": nm, "shape": list(a.shape)}, lambda: getattr(sp, nm)(a))
        elif s["op"] == "sizes":
            n, h = s["n"], float(s["hb"])
            if n and s["hb"] == "2":
                R.call("sympmat", f"{n}", {"n": n}, lambda: sp.sympmat(n))
                R.call("sympmat", f"{n}/int", {"n": n}, lambda: sp.sympmat(n, dtype=np.int64))
                R.call("Xmat", f"{n}", {"n": n}, lambda: q.Xmat(n))
            if n:
                R.call("vacuum_state", f"{n}/hbar={h}", {"n": n, "hbar": h}, lambda: np.vstack([x.reshape(-1, 2 * n) for x in sp.vacuum_state(n, **hk(h))]))
        elif s["op"] == "symp":
            n, k = s["n"], s["kind"]
            S = usymp(haar(rng, n)) @ np.diag(np.exp(np.concatenate([r := rng.uniform(-1, 1, n), -r]))) @ usymp(haar(rng, n))
            if k == "passive":
                S = usymp(haar(rng, n))
            elif k == "diag":
                S = np.diag(np.exp(np.concatenate([r, -r])))
            elif k == "rot":
                S = usymp(np.diag(np.exp(1j * r)))
            elif k == "perm":
                S = usymp(np.eye(n)[rng.permutation(n)])
            elif k == "int":
                S = usymp(np.eye(n)[rng.permutation(n)]).astype(int)
            elif k == "transpose":
                S = S.T
            elif k == "scaled":
                S = S * 1.05
            elif k == "scaledneg":
                S = -S
            elif k == "tinyoff":
                S = S.copy()
                S[int(rng.integers(2 * n)), int(rng.integers(2 * n))] += 1e-12
            elif k == "bigoff":
                S = S.copy()
                S[int(rng.integers(2 * n)), int(rng.integers(2 * n))] += 0.3
            elif k == "antisymp":  # reverses the sign of the form
                S = S @ np.diag([1.0] * n + [-1.0] * n)
            elif k == "xpxp":
                p = np.arange(2 * n).reshape(2, -1).T.ravel()
                S = S[np.ix_(p, p)]
            key = "{n}/{kind}/{v}".format(**s)
            for nm, mod in (("quantum.is_symplectic", q), ("symplectic.is_symplectic", sp)):
                if k in ("notsq", "odd"):
                    M = S[:, :-1] if k == "notsq" else S[:-1, :-1]
                    R.call("shape", key + "/" + nm, {"fn": nm}, lambda: bool(mod.is_symplectic(M)))
                    for f in ("is_valid_cov", "is_pure_cov", "is_classical_cov"):
                        if nm[0] == "q":
                            M2 = M if k == "notsq" else np.eye(2 * n - 1) * 3
                            R.call("shape", key + "/" + f, {"fn": f}, lambda: bool(getattr(q, f)(M2)))
                else:
                    R.call(nm, key, {"S": S}, lambda: bool(mod.is_symplectic(S)))


HAF = {"density_matrix_element", "density_matrix(post)", "probabilities", "photon_number_expectation", "photon_number_squared_expectation", "normal_ordered_expectation", "s_ordered_expectation", "photon_number_moment", "photon_number_cumulant", "n_body_marginals", "pure_state_amplitude"}  # compiled together


def covary(R, part):
    import thewalrus as tw
    import thewalrus.quantum as q
    import thewalrus.symplectic as sp
    from thewalrus import threshold_detection_prob
    from thewalrus.loop_hafnian_batch import loop_hafnian_batch  # noqa: F401

    for s in R.scen["Gen_C12"]:
        if s["op"] != "covary":
            continue
        rng = rng_of(R, s)
        n, h = s["n"], float(s["hb"])
        mu, V = state(rng, n, s["kind"], 2.0)
        mu2, V2 = state(rng, n, "mixed", 2.0)
        c = h / 2
        key = "{n}/{kind}/hbar={hb}/{v}".format(**s)
        pat = [int(x) for x in rng.integers(0, 3, n)]
        pat2 = [int(x) for x in rng.integers(0, 2, n)]
        clk = [int(x) for x in rng.integers(0, 2, n)]
        modes = [int(x) for x in rng.permutation(n)[: int(rng.integers(1, n + 1))]]
        j, k = int(rng.integers(n)), int(rng.integers(n))
        r2 = [int(x) for x in rng.integers(0, 3, 2 * n)]
        pure = s["kind"] in ("pure", "tmsv")
        Vs = np.diag(np.exp(np.concatenate([r := rng.uniform(-0.8, 0.8, n), -r])))
        T = haar(rng, n) * 0.8
        F = {
            "density_matrix_element": lambda m, v, b: q.density_matrix_element(m, v, pat, pat2, hbar=b),
            "density_matrix": lambda m, v, b: q.density_matrix(m, v, cutoff=3, hbar=b),
            "density_matrix(post)": lambda m, v, b: q.density_matrix(m, v, post_select={j: 1}, cutoff=3, normalize=False, hbar=b),
            "probabilities": lambda m, v, b: q.probabilities(m, v, 3, hbar=b),
            "photon_number_mean": lambda m, v, b: q.photon_number_mean(m, v, j, hbar=b),
            "photon_number_mean_vector": lambda m, v, b: q.photon_number_mean_vector(m, v, hbar=b),
            "photon_number_covar": lambda m, v, b: q.photon_number_covar(m, v, j, k, hbar=b),
            "photon_number_covmat": lambda m, v, b: q.photon_number_covmat(m, v, hbar=b),
            "photon_number_expectation": lambda m, v, b: q.photon_number_expectation(m, v, modes, hbar=b),
            "photon_number_squared_expectation": lambda m, v, b: q.photon_number_squared_expectation(m, v, modes, hbar=b),
            "normal_ordered_expectation": lambda m, v, b: q.normal_ordered_expectation(m, v, r2, hbar=b),
            "s_ordered_expectation": lambda m, v, b: q.s_ordered_expectation(m, v, r2, hbar=b, s=0.3),
            "mean_clicks": lambda m, v, b: q.mean_clicks(v, hbar=b),
            "variance_clicks": lambda m, v, b: q.variance_clicks(v, hbar=b),
            "photon_number_moment": lambda m, v, b: q.photon_number_moment(m, v, {j: 2}, hbar=b),
            "photon_number_cumulant": lambda m, v, b: q.photon_number_cumulant(m, v, [j, k], hbar=b),
            "click_cumulant": lambda m, v, b: q.click_cumulant(m, v, [j], hbar=b),
            "vonneumann_entropy": lambda m, v, b: q.vonneumann_entropy(v, hbar=b),
            "fidelity": lambda m, v, b: q.fidelity(m, v, mu2 * np.sqrt(b / 2), V2 * b / 2, hbar=b),
            "threshold_detection_prob": lambda m, v, b: threshold_detection_prob(m, v, clk, hbar=b),
            "tvd_cutoff_bounds": lambda m, v, b: q.tvd_cutoff_bounds(m, v, 3, hbar=b),
            "find_classical_subsystem": lambda m, v, b: q.find_classical_subsystem(v, hbar=b),
            "n_body_marginals": lambda m, v, b: q.n_body_marginals(m, v, 3, 1, hbar=b)[0],
            "passive_transformation": lambda m, v, b: np.vstack([(x := sp.passive_transformation(m, v, T, hbar=b))[0] / np.sqrt(b), x[1] / b]),
            "loss": lambda m, v, b: np.vstack([(x := sp.loss(m, v, 0.6, j, nbar=0.2, hbar=b))[0] / np.sqrt(b), x[1] / b]),
            "mean_photon_number": lambda m, v, b: np.array(sp.mean_photon_number(m[[j, j + n]], v[np.ix_([j, j + n], [j, j + n])], hbar=b)),
            "photonnumber.pure_state_distribution": lambda m, v, b: q.pure_state_distribution(Vs * b / 2, cutoff=10, hbar=b),
        }
        if pure:
            F["pure_state_amplitude"] = lambda m, v, b: q.pure_state_amplitude(m, v, pat, hbar=b)
            F["state_vector"] = lambda m, v, b: q.state_vector(m, v, cutoff=3, hbar=b)
        if n > 1:
            F["log_negativity"] = lambda m, v, b: q.log_negativity(v, split=1, hbar=b)
            if pure:
                F["entanglement_entropy"] = lambda m, v, b: q.entanglement_entropy(v, split=1, hbar=b)
        for i_, (nm, f) in enumerate(F.items()):
            grp = 1 if nm in ("click_cumulant", "threshold_detection_prob") else 0 if nm in HAF else 2
            if grp != part:
                continue
            tol = "0x1p-20" if nm in ("vonneumann_entropy", "entanglement_entropy", "log_negativity", "fidelity") else "0x1p-27"

            def both():
                a = np.asarray(f(mu, V, 2)).ravel()
                b = np.asarray(f(mu * np.sqrt(c), V * c, h)).ravel()
                return (a, b)

            R.call("covary", key + "/" + nm, {"fn": nm, "mu": mu, "V": V, "hbar": h, "tol": tol}, both)


JOBS = {"conv": conv, "pred": pred, "misc": misc, "cova": lambda R: covary(R, 0), "covb": lambda R: covary(R, 1), "covc": lambda R: covary(R, 2)}

if __name__ == "__main__":
    import c12

    main(c12)
