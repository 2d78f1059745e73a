"""C23: calls that are to be accepted or rejected."""
import json
import zlib

import numpy as np
from harness import *
from c23_meta import META

TOLS = {"default": (1e-5, 1e-8), "loose": (0.05, 0.02), "strict": (0.0, 1e-12)}


def rng_of(R, x):
    return np.random.default_rng([R.seed, zlib.crc32(json.dumps(x, sort_keys=True).encode())])


def key(x):
    s = []
    for p in ("a", "m", "s"):
        s += [f"{k}={v}" for k, v in sorted(x.get(p, {}).items()) if k != "op"]
    return " ".join(s)


def mdesc(A):
    """record of a matrix argument"""
    a = np.asarray(A)
    nan = bool(np.isnan(a.astype(complex)).any()) if a.size else False
    return {"arr": isinstance(A, np.ndarray), "sh": list(a.shape), "nan": nan, "v": [] if nan else a}


def matrix(rng, m):
    """symmetric matrix m describes, and the tolerance arguments of the call"""
    n, d, b = m["n"], m["d"], m["b"]
    rt, at = TOLS[m["t"]]
    if b == "complex":
        A = sym(rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n)))
    elif b == "int":
        A = sym(rng.integers(1, 4, size=(n, n)))
    elif b == "zero":
        A = np.zeros((n, n))
    elif b == "diag":
        A = np.diag(rng.uniform(0.5, 2, size=n))
    else:
        A = sym(rng.uniform(0.2, 1.5, size=(n, n)))
    i, j = (0, n - 1) if d != "asymlast" else (n - 2, n - 1)
    if d in ("asym", "asymlast"):
        A[i, j] += 1
    if d in ("in", "out"):
        A[i, j] += (0.5 if d == "in" else 2) * (at + rt * abs(A[j, i]))
    if d == "wide":
        A = np.hstack([A, A[:, :1]]) if n else A
    if d == "tall":
        A = np.vstack([A, A[:1]]) if n else A
    if d == "nan":
        A[i, j] = A[j, i] = np.nan
    if d == "nandiag":
        A[n // 2, n // 2] = np.nan
    kw = {} if m["t"] == "default" else {"rtol": rt, "atol": at}
    return (A.tolist() if d == "list" else A), {"rtol": rt, "atol": at}, kw


def vec(rng, mu, n, dt=float):
    if mu == "none":
        return None
    k = {"ok": n, "short": n - 1, "long": n + 1, "one": 1, "empty": 0}[mu]
    return rng.uniform(0.1, 1, size=k).astype(dt)


def mlen(v):
    return -1 if v is None else len(v)


def reps(how, n):
    z, o = [0] * n, [1] * n
    two = [1, 1] + [0] * (n - 2) if n > 1 else [2]
    return {
        "ok": two, "ones": o, "zero": z, "odd": [1] + [0] * (n - 1), "short": two[: n - 1], "long": two + [0], "zeroshort": z[: n - 1],
        "neg": two[:-1] + [-2], "frac": two[:-1] + [0.5], "negzero": z[:-1] + [-1], "fraczero": z[:-1] + [0.25], "negodd": [1] + [0] * (n - 2) + [-2] if n > 1 else [-1],
    }[how]


def scen(R, ops):
    for x in R.scen["Gen_C23"]:
        if x["op"] in ops:
            yield x["a"], x.get("m"), x.get("s"), key(x), rng_of(R, x)


def is_nan(v):
    if isinstance(v, (tuple, list)):
        return any(is_nan(y) for y in v)
    return bool(np.isnan(np.asarray(v, dtype=complex)).any())


def nothing(_):
    return None


def haf(R):
    import thewalrus as tw
    from thewalrus import reference as ref

    for a, m, _, k, rng in scen(R, {"hafnian"}):
        A, t, kw = matrix(rng, m)
        how = a["how"]
        opt = {"approx": True, "num_samples": 3} if how == "approx" else {"method": how}
        if how == "approx" and m["v"] % 2 == 1 and isinstance(A, np.ndarray) and A.size and A.dtype == float:
            A[0, -1] = A[-1, 0] = -0.5
        R.call("hafnian", k, {"A": mdesc(A), "approx": how == "approx", **t}, lambda: tw.hafnian(A, loop=bool(a["loop"]), **opt, **kw), nothing)
    for a, m, _, k, rng in scen(R, {"hafnian_banded"}):
        A, t, kw = matrix(rng, m)
        R.call("hafnian_banded", k, {"A": mdesc(A), **t}, lambda: tw.hafnian_banded(A, loop=bool(a["loop"]), **kw), nothing)
    for a, m, _, k, rng in scen(R, {"recursive_hafnian"}):
        A, _, _ = matrix(rng, m)
        R.call("recursive_hafnian", k, {"A": mdesc(A)}, lambda: tw._hafnian.recursive_hafnian(A), nothing)
    for a, m, _, k, rng in scen(R, {"reference_hafnian"}):
        A, _, _ = matrix(rng, m)
        R.call("reference_hafnian", k, {"A": mdesc(A)}, lambda: ref.hafnian(A, loop=bool(a["loop"])), nothing)


def rep(R):
    import thewalrus as tw

    for a, m, _, k, rng in scen(R, {"hafnian_repeated"}):
        A, t, kw = matrix(rng, m)
        mu, rpt = vec(rng, a["mu"], m["n"]), reps(a["rpt"], m["n"])
        if mu is not None:
            kw = {"mu": mu, **kw}
        R.call("hafnian_repeated", k, {"A": mdesc(A), "rpt": rpt, "mu": mlen(mu), **t}, lambda: tw.hafnian_repeated(A, rpt, loop=bool(a["loop"]), glynn=bool(a["glynn"]), **kw), nothing)


    from thewalrus import loop_hafnian

    for a, m, _, k, rng in scen(R, {"loop_hafnian"}):
        A, _, _ = matrix(rng, m)
        mu, rpt = vec(rng, a["mu"], m["n"]), reps(a["rpt"], m["n"])
        R.call("loop_hafnian", k, {"A": mdesc(A), "rpt": rpt, "mu": mlen(mu)}, lambda: loop_hafnian(A, D=mu, reps=rpt, glynn=bool(a["glynn"])), nothing)


def herm(R):
    import thewalrus as tw
    from thewalrus._hermite_multidimensional import grad_hermite_multidimensional, interferometer
    from thewalrus.loop_hafnian_batch import loop_hafnian_batch
    from thewalrus.loop_hafnian_batch_gamma import loop_hafnian_batch_gamma

    for a, m, _, k, rng in scen(R, {"hafnian_batched", "hermite"}):
        A, t, kw = matrix(rng, m)
        mu = vec(rng, a["mu"], m["n"], complex if a["renorm"] else float)
        inp = {"A": mdesc(A), "mu": mlen(mu), **t}
        if a["op"] == "hafnian_batched":
            if mu is not None:
                kw = {"mu": mu, **kw}
            R.call("hafnian_batched", k, inp, lambda: tw.hafnian_batched(A, 3, renorm=bool(a["renorm"]), make_tensor=bool(a["modified"]), **kw), nothing)
        else:
            if mu is not None:
                kw = {"y": mu, **kw}
            R.call("hermite", k, inp, lambda: tw.hermite_multidimensional(A, 3, renorm=bool(a["renorm"]), modified=bool(a["modified"]), **kw), nothing)
    for a, m, _, k, rng in scen(R, {"interferometer"}):
        A, t, kw = matrix(rng, m)
        R.call("interferometer", k, {"A": mdesc(A), **t}, lambda: interferometer(A, 2, **kw), nothing)
    for a, _, _, k, rng in scen(R, {"grad_hermite"}):
        n = a["n"]
        Rm = sym(rng.normal(size=(n, n))).astype(complex)
        y = vec(rng, a["mu"], n, complex)
        G = tw.hermite_multidimensional(Rm, 3, y=np.ones(n, dtype=complex), renorm=bool(a["renorm"]), modified=True)
        R.call("grad_hermite", k, {"A": mdesc(Rm), "mu": len(y)}, lambda: grad_hermite_multidimensional(G, Rm, y, renorm=bool(a["renorm"])), nothing)
    for a, _, _, k, rng in scen(R, {"batch"}):
        n = a["n"]
        A = sym(rng.normal(size=(n, n))).astype(complex)
        if a["sq"] == "wide":
            A = np.hstack([A, A[:, :1]])
        if a["sq"] == "tall":
            A = np.vstack([A, A[:1]])
        D = vec(rng, a["mu"], len(A), complex)
        rpt = {"ok": [1] * (n - 1), "short": [1] * (n - 2), "long": [1] * n, "zero": [0] * (n - 1), "zeroshort": [0] * (n - 2)}[a["rpt"]]
        if a["sq"] == "tall":
            rpt = rpt + [1]
        if a["gamma"]:
            fn = lambda: loop_hafnian_batch_gamma(A, np.array([D, 2 * D]), rpt, 2)
        else:
            fn = lambda: loop_hafnian_batch(A, D, rpt, 2)
        R.call("batch", k, {"A": mdesc(A), "mu": len(D), "rpt": rpt}, fn, nothing)


def perm(R):
    import thewalrus as tw
    from thewalrus import lmtl, mtl, ltor, tor

    for a, m, _, k, rng in scen(R, {"perm"}):
        A, _, _ = matrix(rng, m)
        R.call("perm", k, {"A": mdesc(A)}, lambda: tw.perm(A, method=a["how"]), nothing)
    for a, m, _, k, rng in scen(R, {"permanent_repeated"}):
        A, _, _ = matrix(rng, m)
        rpt = reps(a["rpt"], m["n"])
        if m["d"] == "tall":
            rpt = rpt + [0]
        R.call("permanent_repeated", k, {"A": mdesc(A), "rpt": rpt}, lambda: tw.permanent_repeated(A, rpt), nothing)
    for a, m, _, k, rng in scen(R, {"tor", "mtl", "ltor", "lmtl"}):
        A, _, _ = matrix(rng, m)
        if isinstance(A, np.ndarray):  # a matrix the torontonian is defined for
            A = A * (0.1 / max(1, m["n"]))
        else:
            A = (np.array(A) * 0.05).tolist()
        if a["op"] == "tor":
            R.call("tor", k, {"A": mdesc(A)}, lambda: tor(A, recursive=a["how"] == "recursive"), nothing)
        elif a["op"] == "mtl":
            A = A.astype(complex) if isinstance(A, np.ndarray) else A
            R.call("mtl", k, {"A": mdesc(A)}, lambda: mtl(A), nothing)
        else:
            g = vec(rng, a["mu"], m["n"], complex if a["op"] == "lmtl" else float)
            if m["b"] == "complex":
                g = g.astype(complex)
            inp = {"A": mdesc(A), "mu": len(g), "garr": bool(a["garr"])}
            g = g if a["garr"] else g.tolist()
            if a["op"] == "ltor":
                R.call("ltor", k, inp, lambda: ltor(A, g, recursive=a["how"] == "recursive"), nothing)
            else:
                A = A.astype(complex) if isinstance(A, np.ndarray) else A
                R.call("lmtl", k, inp, lambda: lmtl(A, g), nothing)
    from thewalrus._permanent import fock_prob, fock_threshold_prob

    for a, _, _, k, rng in scen(R, {"fock_prob"}):
        U = haar(rng, len(a["s"]))
        R.call("fock_prob", k, {"A": mdesc(U), "n": a["s"], "m": a["o"]}, lambda: fock_prob(list(a["s"]), list(a["o"]), U), nothing)
    for a, _, _, k, rng in scen(R, {"fock_threshold_prob"}):
        N = max(a["rows"], a["cols"])
        T = haar(rng, N)[: a["rows"], : a["cols"]] * 0.9
        f = 1 if a["fill"] == "one" else 0
        n, d = [f] * a["ln"], [f] * a["ld"]
        if f and a["ld"] > a["ln"]:
            d = [1] * a["ln"] + [0] * (a["ld"] - a["ln"])
        R.call("fock_threshold_prob", k, {"A": mdesc(T), "n": n, "d": d}, lambda: fock_threshold_prob(n, d, T), nothing)


# ------------------------------------------------------------------ Gaussian states

def cov_of(rng, s):
    n, c, h = s["n"], s["cov"], float(s["h"])
    r = rng.uniform(0.3, 0.8, size=n)
    O = usymp(haar(rng, n))
    P = O @ np.diag(np.concatenate([np.exp(-2 * r), np.exp(2 * r)])) @ O.T
    P = (P + P.T) / 2
    V = P
    if c == "vacuum":
        V = np.eye(2 * n)
    elif c == "mixed":
        V = P + 0.3 * np.eye(2 * n)
    elif c == "thermal":
        V = np.diag(np.tile(rng.uniform(1, 3, size=n), 2))
    elif c == "classical":
        V = P + np.eye(2 * n)
    elif c == "below":
        V = 0.7 * P
    elif c == "flip":  # the mean uncertainty is fine, one mode's is not
        V = np.diag(np.concatenate([np.full(n - 1, 3.0), [0.2], np.full(n - 1, 3.0), [0.3]]))
    elif c == "xpxp":  # valid, but written in the other ordering
        V = P[np.ix_(np.arange(2 * n).reshape(2, -1).T.flatten(), np.arange(2 * n).reshape(2, -1).T.flatten())]
    V = V * h / 2
    if c == "inside":
        V = V - 3e-9 * np.eye(2 * n)
    if c == "justpure":
        V = V * (1 + 1e-6)
    if c == "notpure":
        V = V * (1 + 1e-3)
    if c == "asymin":
        V[0, 1] += 4e-9
    if c == "asymout":
        V[0, -1] += 1e-3 * h
    if c == "odd":
        V = V[: 2 * n - 1, : 2 * n - 1].copy()
    if c == "wide":
        V = np.hstack([V, V[:, :1]])
    if c == "nanv":
        V[0, -1] = V[-1, 0] = np.nan
    return V.tolist() if c == "listv" else V


def state(R):
    import thewalrus.quantum as q
    import thewalrus.samples as sm
    from thewalrus.quantum import fock_tensors as ft

    for a, _, s, k, rng in scen(R, {"sample_state"}):
        V = cov_of(rng, s)
        h, n = float(s["h"]), s["n"]
        mu = np.zeros(2 * n) + 0.1 if a["mean"] else None
        np.random.seed(7)
        if a["f"] == "hafnian":
            fn = lambda: sm.hafnian_sample_state(V, 1, mean=mu, hbar=h, cutoff=3, max_photons=8)
        else:
            fn = lambda: sm.torontonian_sample_state(V, 1, mu=mu, hbar=h, max_photons=8)
        R.call("sample_state", k, {"A": mdesc(V)}, fn, nothing)
    for a, _, s, k, rng in scen(R, {"sample_classical"}):
        V = cov_of(rng, s)
        h, n = float(s["h"]), len(V)
        mu = {"none": None, "ok": np.ones(n), "short": np.ones(n - 1), "long": np.ones(n + 1), "matrix": np.ones((n, n)), "col": np.ones((n, 1))}[a["mean"]]
        f = getattr(sm, a["f"] + "_sample_classical_state")
        np.random.seed(7)
        R.call("sample_classical", k, {"A": mdesc(V), "hbar": h, "atol": 1e-8, "msh": [-1] if mu is None else list(mu.shape)}, lambda: f(V, 1, mean=mu, hbar=h), nothing)
    for a, _, s, k, rng in scen(R, {"vonneumann"}):
        V, h = cov_of(rng, s), float(s["h"])
        R.call("vonneumann", k, {"A": mdesc(V), "hbar": h}, lambda: q.vonneumann_entropy(V, hbar=h), nothing)
    for a, _, s, k, rng in scen(R, {"entropy", "negativity"}):
        V, h, n = cov_of(rng, s), float(s["h"]), s["n"]
        lists = {
            "int": [n - 1], "list": list(range(n))[-1:], "tuple": [0], "array": [n - 1], "range": [0], "float": [], "high": [n], "neg": [-1], "fracmode": [0.5],
            "highlast": [0, n + 1], "inthigh": [n], "intneg": [-1], "str": [], "none": [],
        }[a["modes"]]
        arg = {
            "int": n - 1, "tuple": (0,), "array": np.array([n - 1]), "range": range(1), "str": "01", "float": 1.0, "inthigh": n, "intneg": -1, "none": None,
        }.get(a["modes"], lists)
        sp = {"none": None, "ok": n - 1, "high": n, "neg": -1, "frac": 0.5, "zero": 0}[a["split"]]
        if a["modes"] == "none" and sp == 0:
            continue  # an empty part: unspecified
        mk = "none" if a["modes"] == "none" else "bad" if a["modes"] in ("str", "float") else "some"
        inp = {"A": mdesc(V), "hbar": h, "mk": mk, "modes": lists, "sk": "none" if sp is None else "some", "split": 0 if sp is None else sp, "M": n}
        f = q.entanglement_entropy if a["op"] == "entropy" else q.log_negativity
        R.call(a["op"], k, inp, lambda: f(V, modes_A=arg, split=sp, hbar=h), nothing)
    for a, _, s, k, rng in scen(R, {"state_vector", "amplitude"}):
        V, h = cov_of(rng, s), float(s["h"])
        mu = np.full(len(V), 0.3 if a["mean"] else 0.0)
        kw = {} if a["check"] else {"check_purity": False}
        inp = {"A": mdesc(V), "hbar": h, "check": bool(a["check"])}
        if a["op"] == "amplitude":
            R.call("amplitude", k, inp, lambda: q.pure_state_amplitude(mu, V, (1,) * (len(V) // 2), hbar=h, **kw), nothing)
        else:
            R.call("state_vector", k, inp, lambda: q.state_vector(mu, V, cutoff=2, hbar=h, **kw), nothing)
    for a, _, s, k, rng in scen(R, {"pure_distribution"}):
        V, h = cov_of(rng, s), float(s["h"])
        R.call("pure_distribution", k, {"A": mdesc(V), "hbar": h}, lambda: q.pure_state_distribution(V, cutoff=4, hbar=h), nothing)
    for a, _, s, k, rng in scen(R, {"tvd"}):
        V, h = cov_of(rng, s), float(s["h"])
        rt, at = TOLS[a["tol"]]
        kw = {} if a["tol"] == "default" else {"rtol": rt, "atol": at}
        if not a["check"]:
            kw["check_is_valid_cov"] = False
        R.call("tvd", k, {"A": mdesc(V), "hbar": h, "rtol": rt, "atol": at, "check": bool(a["check"])}, lambda: q.tvd_cutoff_bounds(np.zeros(len(V)), V, 3, hbar=h, **kw), nothing)
    for a, _, s, k, rng in scen(R, {"marginals"}):
        V, h = cov_of(rng, s), float(s["h"])
        m = len(V) + {"ok": 0, "short": -1, "long": 1}[a["mean"]]
        R.call("marginals", k, {"A": mdesc(V), "mu": m, "n": a["order"]}, lambda: q.n_body_marginals(np.zeros(m), V, 2, a["order"], hbar=h), nothing)


# ------------------------------------------------------------------ the rest

def symp_of(rng, m, kind):
    n = m["n"] // 2
    r = rng.uniform(0.2, 0.7, size=n)
    S = usymp(haar(rng, n)) @ np.diag(np.concatenate([np.exp(-r), np.exp(r)])) @ usymp(haar(rng, n))
    if kind == "identity":
        return np.eye(2 * n)
    if kind == "passive":
        return usymp(haar(rng, n))
    if kind == "in":
        return S * (1 + 1e-9)
    if kind == "out":
        return S * (1 + 1e-2)
    if kind == "scaled":
        return S * 2
    if kind == "perturbed":
        S[0, -1] += 0.3
        return S
    if kind == "xpxp":
        i = np.arange(2 * n).reshape(2, -1).T.flatten()
        return S[np.ix_(i, i)]
    if kind == "odd":
        return S[: 2 * n - 1, : 2 * n - 1].copy()
    if kind == "wide":
        return np.hstack([S, S[:, :1]])
    if kind == "zero":
        return np.zeros((2 * n, 2 * n))
    return S


def misc(R):
    import thewalrus as tw
    import thewalrus.decompositions as dec
    import thewalrus.quantum as q
    import thewalrus.random as rd
    import thewalrus.symplectic as sy
    from thewalrus import csamples as cs
    from thewalrus.quantum import fock_tensors as ft

    for a, m, _, k, rng in scen(R, {"williamson"}):
        V, t, kw = matrix(rng, m)
        i = np.arange(min(V.shape))
        V[i, i] += 2.5 * m["n"]
        e = {"ok": 0, "semi": 0, "neg": -1, "negone": -0.2, "small": 0.01}[a["pd"]]
        if a["pd"] != "ok":  # one direction with little, no or negative weight
            V[0, :] = V[:, 0] = 0 if m["d"] == "ok" else V[:, 0] * 0 if V.shape[0] == V.shape[1] else 0
            V[0, 0] = e
        R.call("williamson", k, {"A": mdesc(V), **t}, lambda: dec.williamson(V, **kw), nothing)
    for a, m, _, k, rng in scen(R, {"blochmessiah", "pre_iwasawa", "iwasawa", "fock_tensor"}):
        S = symp_of(rng, m, a["kind"])
        if a["op"] == "fock_tensor":
            if a["kind"] == "wide":
                continue
            for mu in range(len(S) // 2 - 1, len(S) // 2 + 2):
                for tol in TOLS:
                    rt, at = TOLS[tol]
                    kw = {} if tol == "default" else {"rtol": rt, "atol": at}
                    R.call("fock_tensor", f"{k} {mu} {tol}", {"A": mdesc(S), "rtol": rt, "atol": at, "check": True, "mu": mu}, lambda: q.fock_tensor(S, np.full(mu, 0.1), 2, **kw), nothing)
                if a["kind"] in ("ok", "passive"):
                    R.call("fock_tensor", f"{k} {mu} unchecked", {"A": mdesc(S), "rtol": 1e-5, "atol": 1e-8, "check": False, "mu": mu}, lambda: q.fock_tensor(S, np.full(mu, 0.1), 2, check_symplectic=False), nothing)
        else:
            R.call(a["op"], k, {"A": mdesc(S)}, lambda: getattr(dec, a["op"])(S), nothing)
    for a, m, _, k, rng in scen(R, {"takagi"}):
        A, _, _ = matrix(rng, m)
        R.call("takagi", k, {"A": mdesc(A)}, lambda: dec.takagi(A), nothing)
    for a, _, _, k, rng in scen(R, {"random_banded"}):
        np.random.seed(3)
        R.call("random_banded", k, {"A": 0, "N": a["N"], "w": a["w"]}, lambda: rd.random_banded_interferometer(a["N"], a["w"], top_one_init=bool(a["top"]), real=bool(a["real"])), nothing)
    for a, _, _, k, rng in scen(R, {"reduced_state", "reduced_gaussian"}):
        n = a["n"]
        mu, V = gauss(rng, n)
        f = sy.reduced_state if a["op"] == "reduced_state" else q.reduced_gaussian
        l = list(a["modes"])
        if a["how"] == "int" and len(l) > 1:
            continue
        arg = {"int": l[0], "list": l, "tuple": tuple(l), "array": np.array(l)}[a["how"]]
        R.call(a["op"], k, {"A": mdesc(V), "modes": l, "M": n}, lambda: f(mu, V, arg), nothing)
    for a, _, _, k, rng in scen(R, {"expand_passive"}):
        T = rng.normal(size=(a["rows"], a["cols"]))
        l = list(range(a["k"]))
        R.call("expand_passive", k, {"A": mdesc(T), "modes": l}, lambda: sy.expand_passive(T, l, 5), nothing)
    for a, _, _, k, rng in scen(R, {"reorder"}):
        S = rng.normal(size=a["rows"]) if a["cols"] == 0 else rng.normal(size=(a["rows"], a["cols"]))
        d = mdesc(S)
        d["v"] = []
        R.call("reorder", k, {"A": d}, lambda: getattr(sy, a["f"])(S), nothing)
    for a, _, _, k, rng in scen(R, {"adj_scaling_torontonian"}):
        A = np.ones((a["n"], a["n"])) - np.eye(a["n"])
        c = float(a["c"])
        if a["n"] - 0.6 < c <= a["n"] or (a["n"] == 3 and c > 1.95 and c <= 3):
            continue  # close to or above the number of clicks the graph can give
        R.call("adj_scaling_torontonian", k, {"A": mdesc(A), "c": c}, lambda: q.adj_scaling_torontonian(A, c), nothing)
    for a, m, _, k, rng in scen(R, {"adj_scaling"}):
        A, _, _ = matrix(rng, m)
        R.call("adj_scaling", k, {"A": mdesc(A)}, lambda: q.adj_scaling(A, 1.3), nothing)
    for a, m, _, k, rng in scen(R, {"adj_to_qmat"}):
        A, _, _ = matrix(rng, m)
        R.call("adj_to_qmat", k, {"A": mdesc(A)}, lambda: q.adj_to_qmat(A, 0.7), nothing)
    for a, m, _, k, rng in scen(R, {"rescale"}):
        A, t, kw = matrix(rng, m)
        n, at = m["n"], t["atol"]
        dA = A - np.tril(A) - np.tril(A, -1).T
        Qm = haar(rng, n, real=True)
        lam = np.concatenate([rng.uniform(0.6, 2, size=n - 1), [{"ok": 0.7, "semi": 0, "neg": -0.4, "negin": -at / 4, "negout": -8 * at}[a["pos"]]]])
        A = sym(Qm @ np.diag(lam) @ Qm.T) + dA
        if m["d"] != "ok" and a["pos"] not in ("ok", "neg"):
            continue
        ck = {"check_positivity": bool(a["chk"]), "check_symmetry": bool(a["sym"])}
        if a["f"] == "full":
            fn = lambda: cs.rescale_adjacency_matrix(A, 0.8, 0.9, **ck, **kw)
        else:
            fn = lambda: cs.rescale_adjacency_matrix_thermal(A, 0.8, **ck, **kw)
        R.call("rescale", k, {"A": mdesc(A), "pos": bool(a["chk"]), "sym": bool(a["sym"]), **t}, fn, nothing)
    for a, _, _, k, rng in scen(R, {"loss_mat"}):
        eta = float(a["eta"])
        R.call("loss_mat", k, {"A": 0, "eta": eta}, lambda: ft.loss_mat(eta, a["c"]), nothing)
    for a, _, _, k, rng in scen(R, {"update_loss"}):
        p = rng.uniform(0, 1, size=(2,) * a["M"])
        e = [float(y) for y in a["etas"]]
        R.call("update_loss", k, {"A": 0, "etas": e, "M": a["M"]}, lambda: q.update_probabilities_with_loss(e, p), nothing)
    for a, _, _, k, rng in scen(R, {"update_noise"}):
        p = rng.uniform(0, 1, size=(3,) * a["M"])
        R.call("update_noise", k, {"A": 0, "k": a["k"], "M": a["M"]}, lambda: q.update_probabilities_with_noise([np.array([0.9, 0.08, 0.02])] * a["k"], p), nothing)
    for a, _, _, k, rng in scen(R, {"fidelity"}):
        l = a["l"]
        V1, V2 = np.eye(l[0]), np.eye(l[1])
        rect = a.get("rect", 0)
        if rect == 1:
            V1 = np.ones((2, 3))
        if rect == 2:
            V2 = np.ones((4, 2))
        dims = list(V1.shape) + list(V2.shape) + [l[2], l[3]]
        R.call("fidelity", k, {"A": 0, "sh": dims}, lambda: q.fidelity(np.zeros(l[2]), V1, np.zeros(l[3]), V2), nothing)
    for a, _, _, k, rng in scen(R, {"nan"}):
        n, f = a["n"], a["f"]
        A = sym(rng.uniform(0.05, 0.1, size=(n, n)))
        V = np.eye(n) + 0.1
        mu = np.full(n, 0.2)
        i, j = {"corner": (0, n - 1), "diag": (0, 0), "last": (n - 1, n - 1)}[a["at"]]
        for M in (A, V):
            M[i, j] = M[j, i] = np.nan
        nmu = mu.copy()
        nmu[j] = np.nan
        good = sym(rng.uniform(0.1, 0.5, size=(n, n)))
        Vg = np.eye(n) * 1.2
        fn = {
            "tor": lambda: tw.tor(A), "ltor": lambda: tw.ltor(A, mu), "mtl": lambda: tw.mtl(A.astype(complex)), "lmtl": lambda: tw.lmtl(A.astype(complex), mu.astype(complex)),
            "Qmat": lambda: q.Qmat(V), "Amat": lambda: q.Amat(V), "photon_mean": lambda: q.photon_number_mean(nmu, Vg, j % (n // 2)),
            "photon_var": lambda: q.photon_number_covmat(nmu, Vg), "prob": lambda: q.density_matrix_element(nmu, Vg, (1,) * (n // 2), (1,) * (n // 2)),
            "threshold": lambda: tw.threshold_detection_prob(nmu, Vg, np.ones(n // 2, dtype=int)), "fidelity": lambda: q.fidelity(nmu, Vg, mu, Vg),
            "density": lambda: q.density_matrix(nmu, Vg, cutoff=2), "hermite_y": lambda: tw.hermite_multidimensional(good, 2, y=nmu), "batched_mu": lambda: tw.hafnian_batched(good, 2, mu=nmu),
            "repeated_mu": lambda: tw.hafnian_repeated(good, [1] * n, mu=nmu, loop=True), "charpoly": lambda: tw.charpoly.charpoly(A.astype(complex)),
        }[f]
        R.call("nan", k, {"A": 0}, fn, is_nan)


JOBS = {"haf": haf, "rep": rep, "herm": herm, "perm": perm, "state": state, "misc": misc}

if __name__ == "__main__":
    import c23

    main(c23)
