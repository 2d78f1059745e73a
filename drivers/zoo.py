"""Calls of every public computation, grouped into families.

zoo(fam) returns a list of (name, function, positional arguments, keyword
arguments, uses_rng).  Built from a fixed seed, so that every process sees the
same calls.  Consecutive entries share array arguments on purpose.
"""
import zlib

import numpy as np

from harness import gauss, haar, sym, usymp

from zoo_fams import FAMS


def zoo(fam):
    rng = np.random.default_rng(zlib.crc32(("zoo" + fam).encode()))
    Z = []

    def add(name, f, *args, rng=False, **kw):
        Z.append((fam + "." + name, f, list(args), kw, rng))

    import thewalrus as tw

    A4, A6, A5 = (sym(rng.normal(size=(n, n))) for n in (4, 6, 5))
    C4 = sym(rng.normal(size=(4, 4)) + 1j * rng.normal(size=(4, 4)))
    I4 = sym(rng.integers(-2, 3, size=(4, 4)))
    if fam == "haf":
        for m in ("glynn", "inclexcl", "recursive"):
            add("hafnian " + m, tw.hafnian, A6, method=m)
            add("hafnian c " + m, tw.hafnian, C4, method=m)
        for m in ("glynn", "inclexcl"):
            add("lhaf " + m, tw.hafnian, A5, loop=True, method=m)
        add("hafnian 4", tw.hafnian, A4)
        add("hafnian int", tw.hafnian, I4, method="recursive")
        add("hafnian bad", tw.hafnian, A6[:, :4])
    if fam == "haf2":
        from thewalrus import _hafnian as h
        from thewalrus._low_rank_haf import low_rank_hafnian, partitions as lrp

        r4 = np.array([1, 2, 0, 1])
        add("rep", tw.hafnian_repeated, A4, r4)
        add("rep2", tw.hafnian_repeated, A4, [2, 1, 1, 2])
        add("rep loop", tw.hafnian_repeated, A4, r4, mu=rng.normal(size=4), loop=True)
        add("sparse", tw.hafnian_sparse, A6)
        add("sparse D", tw.hafnian_sparse, A6, D={0, 1, 2, 5})
        add("sparse loop", tw.hafnian_sparse, A5, loop=True)
        B = A6 * (np.abs(np.subtract.outer(range(6), range(6))) < 3)
        add("banded", tw.hafnian_banded, B)
        add("banded loop", tw.hafnian_banded, B, loop=True)
        add("parts", lrp, 3, 3)
        add("lowrank", low_rank_hafnian, rng.normal(size=(6, 2)))
        add("reduction", tw.reduction, A4, r4)
        add("loop_hafnian", h.loop_hafnian, C4, np.array(rng.normal(size=4) + 0j), r4)
        add("bandwidth", h.bandwidth, B)
    if fam == "batch":
        from thewalrus.loop_hafnian_batch import loop_hafnian_batch as lb
        from thewalrus.loop_hafnian_batch_gamma import loop_hafnian_batch_gamma as lg

        D = rng.normal(size=4) + 1j * rng.normal(size=4)
        add("even", lb, C4, D, np.array([1, 1, 0]), 4)
        add("odd", lb, C4, D, np.array([1, 1, 1]), 3)
        add("odd2", lb, C4, D, np.array([2, 0, 1]), 5, glynn=False)
        G = rng.normal(size=(3, 4)) + 0j
        add("gamma even", lg, C4, G, np.array([1, 1, 0]), 4)
        add("gamma odd", lg, C4, G, np.array([1, 0, 0]), 3)
        add("gamma 0", lg, C4, G[:1], np.array([2, 1, 0]), 2, glynn=False)
    if fam == "herm":
        y = rng.normal(size=3)
        R = sym(rng.normal(size=(3, 3)))
        Rc = R.astype(complex)
        add("herm", tw.hermite_multidimensional, R, 3, y=y)
        add("herm renorm", tw.hermite_multidimensional, R, (2, 3, 2), y=y, renorm=True)
        add("herm mod", tw.hermite_multidimensional, R, 3, y=y, modified=True)
        add("herm flat", tw.hermite_multidimensional, R, 2, make_tensor=False, C=0.5)
        add("batched", tw.hafnian_batched, R, 3, mu=y)
        add("batched renorm", tw.hafnian_batched, R, 3, renorm=True)
        U = haar(rng, 2)
        W = np.block([[np.zeros((2, 2)), U], [U.T, np.zeros((2, 2))]])
        add("interf", tw.interferometer, W, 3)
        yc = y.astype(complex)
        T = np.asarray(tw.hermite_multidimensional(Rc, 3, y=yc, renorm=True), complex)
        add("grad", tw.grad_hermite_multidimensional, T, Rc, yc, 1.0 + 0j)
    if fam == "per":
        from thewalrus import _permanent as p

        U = haar(rng, 3)
        add("perm", tw.perm, A5)
        add("perm ryser", tw.perm, A5, method="ryser")
        add("perm c", tw.perm, C4)
        add("perm rect bad", tw.perm, A5[:, :3])
        add("rep", tw.permanent_repeated, A4, [1, 2, 1, 0])
        add("brs", tw.brs, haar(rng, 3), haar(rng, 3))
        add("ubrs", tw.ubrs, U)
        add("fock_prob", p.fock_prob, [1, 1, 0], [0, 1, 1], U)
        add("fock_prob2", p.fock_prob, [2, 0, 1], [1, 1, 1], U)
        add("fock_threshold", p.fock_threshold_prob, [1, 1, 1], [1, 1, 0], U * 0.8)
    if fam == "tor":
        from thewalrus import _torontonian as t
        from thewalrus.quantum import Qmat, Xmat

        mu, V = gauss(rng, 3)
        O = np.eye(6) - np.linalg.inv(Qmat(V))
        g = rng.normal(size=3) * 0.2 + 1j * rng.normal(size=3) * 0.2
        g = np.concatenate([g, g.conj()])
        add("tor", t.tor, O)
        add("tor nr", t.tor, O, recursive=False)
        add("ltor", t.ltor, O, g)
        add("ltor nr", t.ltor, O, g, recursive=False)
        add("ntor", t.numba_tor, O)
        add("thresh", t.threshold_detection_prob, mu, V, np.array([1, 0, 1]))
        add("thresh list", t.threshold_detection_prob, mu * 0, V, [1, 1, 1])
        add("thresh 0", t.threshold_detection_prob, mu, V, (0, 0, 0))
        add("tor bad", t.tor, O[:5, :5])
    if fam == "mtl":
        from thewalrus import _montrealer as m
        from thewalrus import charpoly as c
        from thewalrus import reference as ref
        from thewalrus.quantum import Xmat

        M = rng.normal(size=(4, 4)) + 1j * rng.normal(size=(4, 4))
        add("charpoly", c.charpoly, C4)
        add("powertrace", c.powertrace, C4, 5)
        add("charpoly n", c.charpoly, M)
        add("powertrace n", c.powertrace, M, 7)
        S = np.block([[A4[:2, :2] + 0j, C4[:2, 2:] + C4[:2, 2:].conj().T], [(C4[:2, 2:] + C4[:2, 2:].conj().T).conj(), A4[:2, :2]]])
        z = np.array([0.3 + 0.1j, -0.2 + 0.5j])
        z = np.concatenate([z.conj(), z])
        add("mtl", m.mtl, A4)
        add("mtl S", m.mtl, S)
        add("lmtl", m.lmtl, A4, z.real)
        add("ref haf", ref.hafnian, A6)
        add("ref lhaf", ref.hafnian, A5, loop=True)
        add("ref mtl", ref.mtl, A4)
        add("ref T", ref.T, 12)
        add("ref spm", lambda n: len(list(ref.spm(tuple(range(n))))), 7)
        add("ref pmp", lambda n: len(list(ref.pmp(tuple(range(n))))), 6)
        add("ref rspm", lambda n: len(list(ref.rspm(tuple(range(n))))), 6)
    mu, V = gauss(rng, 3)
    mup, Vp = gauss(rng, 2, pure=True)
    if fam == "symp":
        from thewalrus import symplectic as s

        S = s.two_mode_squeezing(0.3, 0.2)
        add("expand", s.expand, S, [2, 0], 3)
        add("expand_vector", s.expand_vector, 0.3 + 0.2j, 1, 3)
        add("expand_passive", s.expand_passive, haar(rng, 2), [0, 2], 3)
        add("reduced", s.reduced_state, mu, V, [2, 0])
        add("vacuum", s.vacuum_state, 2)
        add("squeezing", s.squeezing, np.array([0.3, 0.5]), np.array([0.1, 0.2]))
        add("interferometer", s.interferometer, haar(rng, 3))
        add("passive", s.passive_transformation, mu, V, haar(rng, 3) * 0.7)
        add("loss", s.loss, mu, V, 0.4, 1)
        add("loss th", s.loss, mu, V, 0.4, 2, nbar=0.3)
        add("n", s.mean_photon_number, mu, V)
        add("bs", s.beam_splitter, 0.3, 0.4)
        add("is_symplectic", s.is_symplectic, S)
        add("xpxp", s.xxpp_to_xpxp, V)
        add("xxpp", s.xpxp_to_xxpp, mu)
    if fam == "dec":
        from thewalrus import decompositions as d

        S = usymp(haar(rng, 2)) @ np.diag([2.0, 1.5, 0.5, 1 / 1.5]) @ usymp(haar(rng, 2))
        add("williamson", lambda X: [np.asarray(a) for a in (lambda D, W: (np.sort(np.diag(D)), W @ D @ W.T))(*d.williamson(X))], V)
        add("spec", d.symplectic_eigenvals, V)
        add("bm", lambda X: np.sort(np.diag(d.blochmessiah(X)[1])), S)
        add("takagi", lambda X: d.takagi(X)[0], C4)
        add("takagi r", lambda X: d.takagi(X)[0], A4)
        add("iwasawa", lambda X: list(d.iwasawa(X)), S)
        add("pre_iwasawa", lambda X: list(d.pre_iwasawa(X)), S)
        add("takagi bad", d.takagi, A5[:3])
    from thewalrus import quantum as q

    if fam == "fock":
        add("psa", q.pure_state_amplitude, mup, Vp, [1, 2])
        add("sv", q.state_vector, mup, Vp, cutoff=3)
        add("sv ps", q.state_vector, mup, Vp, post_select={1: 1}, cutoff=4, normalize=True)
        add("dme", q.density_matrix_element, mu, V, [1, 0, 1], [0, 1, 1])
        add("dm", q.density_matrix, mup, Vp, cutoff=2)
        add("dm ps", q.density_matrix, mu, V, post_select={0: 1, 2: 0}, cutoff=3, normalize=True)
        add("probs", q.probabilities, mu, V, 3)
        pr = rng.random((3, 3))
        add("loss_mat", q.loss_mat, 0.6, 4)
        add("upd loss", q.update_probabilities_with_loss, [0.5, 0.7], pr)
        add("upd noise", q.update_probabilities_with_noise, np.array([[0.7, 0.2, 0.1], [0.5, 0.3, 0.2]]), pr)
        add("tvd", q.tvd_cutoff_bounds, mu, V, 4)
        add("marg", q.n_body_marginals, mu, V, 3, 2)
        add("fock_tensor", q.fock_tensor, usymp(haar(rng, 1)) @ np.diag([1.2, 1 / 1.2]), np.array([0.2 + 0.1j]), 3)
    if fam == "means":
        add("mean", q.photon_number_mean, mu, V, 1)
        add("means", q.photon_number_mean_vector, mu, V)
        add("covar", q.photon_number_covar, mu, V, 0, 2)
        add("covmat", q.photon_number_covmat, mu, V)
        add("exp", q.photon_number_expectation, mu, V, [0, 2])
        add("sq", q.photon_number_squared_expectation, mu, V, [0, 1])
        add("normal", q.normal_ordered_expectation, mu, V, [1, 0, 2, 1, 0, 2])
        add("sord", q.s_ordered_expectation, mu, V, [1, 0, 0, 1, 1, 1], s=0.5)
        add("moment", q.photon_number_moment, mu, V, {0: 2, 1: 1})
        add("cumulant", q.photon_number_cumulant, mu, V, [0, 1, 1])
        add("click cum", q.click_cumulant, mu, V, [0, 1, 2])
        add("mclicks", q.mean_clicks, V)
        add("vclicks", q.variance_clicks, V)
    if fam == "conv":
        add("red", q.reduced_gaussian, mu, V, [0, 2])
        Q = q.Qmat(V)
        add("Q", q.Qmat, V)
        add("Cov", q.Covmat, Q)
        add("A", q.Amat, V)
        add("A q", q.Amat, Q, cov_is_qmat=True)
        add("c2r", q.complex_to_real_displacements, mu + 0j)
        add("r2c", q.real_to_complex_displacements, mu)
        add("valid", q.is_valid_cov, V)
        add("pure", q.is_pure_cov, Vp)
        add("classical", q.is_classical_cov, V)
        add("sub", q.find_classical_subsystem, V)
        add("psd", q.pure_state_distribution, Vp, cutoff=6)
    if fam == "ent":
        from thewalrus.quantum import distinguishable_squeezers as ds

        mu2, V2 = gauss(rng, 3)
        add("fid", q.fidelity, mu, V, mu2, V2)
        add("fid same", q.fidelity, mu, V, mu, V)
        add("vn", q.vonneumann_entropy, V)
        add("ee", q.entanglement_entropy, Vp, modes_A=[1])
        add("neg", q.log_negativity, V, modes_A=[2, 0])
        add("neg split", q.log_negativity, V, split=1)
        T = haar(rng, 3) * 0.8
        rs = np.array([0.3, 0.5, 0.7])
        add("means", ds.number_means, T, rs)
        add("cov", ds.number_cov, T, rs)
        add("sample", ds.sample, T, rs, n_samples=3, rng=True)
        add("tot", q.total_photon_number_distribution, 3, 2, 0.5, 0.6) if hasattr(q, "total_photon_number_distribution") else None
    if fam == "gates":
        from thewalrus import fock_gradients as g

        add("D", g.displacement, 0.3, 0.2, 4)
        add("S", g.squeezing, 0.3, 0.2, 4)
        add("S2", g.two_mode_squeezing, 0.3, 0.2, 3)
        add("B", g.beamsplitter, 0.3, 0.2, 3)
        add("M", g.mzgate, 0.3, 0.2, 3)
        add("gD", lambda T: list(g.grad_displacement(T, 0.3, 0.2)), np.asarray(g.displacement(0.3, 0.2, 4)))
        add("gS", lambda T: list(g.grad_squeezing(T, 0.3, 0.2)), np.asarray(g.squeezing(0.3, 0.2, 4)))
        add("gB", lambda T: list(g.grad_beamsplitter(T, 0.3, 0.2)), np.asarray(g.beamsplitter(0.3, 0.2, 3)))
        add("gS2", lambda T: list(g.grad_two_mode_squeezing(T, 0.3, 0.2)), np.asarray(g.two_mode_squeezing(0.3, 0.2, 3)))
    if fam == "graph":
        from thewalrus import csamples as cs

        P = np.abs(A4) @ np.abs(A4).T / 20
        add("adj_scaling", q.adj_scaling, P, 1.0)
        add("adj_tor", q.adj_scaling_torontonian, P, 1.0)
        add("adj_q", q.adj_to_qmat, P, 1.0)
        add("thermal", cs.rescale_adjacency_matrix_thermal, P, 1.0)
        add("rescale", cs.rescale_adjacency_matrix, P, 1.0, 0.5)
    if fam == "samp":
        from thewalrus import samples as s
        from thewalrus import random as r
        from thewalrus import csamples as cs

        add("haf", s.hafnian_sample_state, V, 3, mean=mu, rng=True)
        add("haf nomean", s.hafnian_sample_state, Vp, 3, cutoff=4, rng=True)
        add("tor", s.torontonian_sample_state, V, 3, mu=mu, rng=True)
        add("classical", s.hafnian_sample_classical_state, V @ V.T + 2 * np.eye(6), 3, mean=mu, rng=True)
        add("tclassical", s.torontonian_sample_classical_state, V @ V.T + 2 * np.eye(6), 3, rng=True)
        add("pns", s.photon_number_sampler, np.full((2, 2), 0.25), 4, rng=True)
        add("graph", s.hafnian_sample_graph, np.ones((3, 3)) - np.eye(3), 0.7, 2, rng=True)
        add("rank1", s.hafnian_sample_graph_rank_one, np.array([0.3, 0.5, 0.2]), 0.7, 2, rng=True)
        add("therm", cs.generate_thermal_samples, np.array([0.3, 0.5]), haar(rng, 2, real=True), num_samples=3, rng=True)
        add("cov", r.random_covariance, 3, rng=True)
        add("int", r.random_interferometer, 3, rng=True)
        add("approx", tw.hafnian, np.abs(A4), approx=True, num_samples=20, rng=True)
    if fam == "misc":
        import thewalrus.grouped_click_probabilities as gc
        from thewalrus.quantum.photon_number_distributions import characteristic_function, total_photon_number_distribution

        add("grouped", lambda *a: list(gc.grouped_click_probabilities(*a)), np.array([0.2, 0.3]), np.array([0.2, 0.1]), haar(rng, 2), 20, 4)
        add("grouped sq", lambda *a: list(gc.grouped_click_probabilities_squeezed(*a)), np.array([0.2, 0.3]), haar(rng, 2), 20, 4)
        add("total", total_photon_number_distribution, 4, 2, 0.5, 0.7)
        add("char", characteristic_function, 2, 0.5, 0.7, 0.1)
        add("haf", tw.hafnian, A6)
        add("probs", q.probabilities, mup, Vp, 3)
    return Z


def arrays(z):
    return [a for a in list(z[2]) + list(z[3].values()) if isinstance(a, np.ndarray)]


def run(z, args=None, kw=None):
    if z[4]:
        np.random.seed(zlib.crc32(z[0].encode()))
    return z[1](*(z[2] if args is None else args), **(z[3] if kw is None else kw))
