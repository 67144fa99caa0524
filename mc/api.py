"""The public functions of the package with small deterministic arguments."""
import itertools

import numpy as np

from mc import alphabet as al
from mc import gauss as g
from mc import weak


class Entry:
    """fn called with make(v) -> (args, kwargs); variants of equal shape but different values for v = 0, 1 and another shape for v = 2."""

    def __init__(self, name, fn, make, variants=(0, 1, 2), random=False):
        self.name, self.fn, self.make, self.variants, self.random = name, fn, make, variants, random

    def args(self, v):
        r = self.make(v)
        if isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], dict) and isinstance(r[0], tuple):
            return r
        return (r if isinstance(r, tuple) else (r,)), {}

    def call(self, a, k):
        if self.random:
            np.random.seed(5)
        r = self.fn(*a, **k)
        if hasattr(r, "__next__"):
            r = list(itertools.islice(r, 300))
        return r


def sz(v, a=4, b=2):
    return a if v < 2 else b


def state(v, n=None, pure=False, disp=True):
    """mu, cov (hbar = 2) of n modes."""
    n = sz(v, 2, 1) if n is None else n
    S = g.passive(g.unitary(n, v + 1)) @ g.sq([0.4, -0.2, 0.3][:n], 0.5 * np.arange(n) + v)
    V = S @ S.T
    mu = (np.array([0.3, -0.2, 0.5, 0.1, -0.4, 0.2])[: 2 * n] + 0.05 * v) if disp else np.zeros(2 * n)
    if not pure:
        mu, V = g.lossy(mu, V, np.array([0.8, 0.6, 0.9][:n]))
    return mu, V


def entries():
    import thewalrus as tw
    from thewalrus import charpoly as cp
    from thewalrus import csamples as cs
    from thewalrus import decompositions as de
    from thewalrus import fock_gradients as fg
    from thewalrus import quantum as q
    from thewalrus import random as rn
    from thewalrus import reference as ref
    from thewalrus import samples as sm
    from thewalrus import symplectic as sy
    from thewalrus.loop_hafnian_batch import loop_hafnian_batch
    from thewalrus.loop_hafnian_batch_gamma import loop_hafnian_batch_gamma
    from thewalrus.quantum import adjacency_matrices as am
    from thewalrus.quantum import distinguishable_squeezers as ds
    from thewalrus.quantum import entanglement as en
    from thewalrus.grouped_click_probabilities import grouped_click_probabilities, grouped_click_probabilities_squeezed

    E = []

    def add(name, fn, make, **kw):
        E.append(Entry(name, fn, make, **kw))

    sym = lambda v: al.sym_real(sz(v), 3 + v)
    symi = lambda v: al.sym_int(sz(v), 3 + v, -2, 3)
    symc = lambda v: al.sym_gauss(sz(v), 3 + v) / 2.0
    vec = lambda v: (al.vec_int(sz(v), v) + 0.5) / 2
    for meth in ("glynn", "inclexcl", "recursive"):
        for loop in (False, True):
            add("hafnian %s %s" % (meth, loop), tw.hafnian, lambda v, m=meth, l=loop: ((sym(v),), dict(method=m, loop=l)))
    add("hafnian complex", tw.hafnian, lambda v: ((symc(v),), dict(loop=True)))
    add("hafnian int", tw.hafnian, lambda v: ((symi(v),), {}))
    add("hafnian_banded", tw.hafnian_banded, lambda v: ((np.triu(np.tril(sym(v), 1), -1),), dict(loop=True)))
    add("hafnian_sparse", tw.hafnian_sparse, lambda v: ((sym(v),), dict(loop=False)))
    add("hafnian_sparse D", tw.hafnian_sparse, lambda v: ((sym(v), {0, 1, 3} if v < 2 else {1}), dict(loop=v == 1)))
    add("hafnian_repeated", tw.hafnian_repeated, lambda v: ((sym(v), np.array([1, 2, 0, 1][: sz(v)]) + (v == 2)), dict(mu=vec(v), loop=True)))
    add("hafnian_repeated list", tw.hafnian_repeated, lambda v: ((sym(v), [2, 0, 1, 1][: sz(v)]), {}))
    for gl in (True, False):
        add("loop_hafnian %s" % gl, tw.loop_hafnian, lambda v, gl=gl: ((sym(v),), dict(D=vec(v), reps=[1, 2, 1, 0][: sz(v)], glynn=gl)))
    add("loop_hafnian D 1", tw.loop_hafnian, lambda v: ((symc(v),), dict(D=vec(v) * 1j)))
    add("matched_reps", tw.matched_reps, lambda v: ([3, 1, 2, 0][: sz(v)] if v != 1 else [1, 2, 3, 4],))
    add("reduction", tw.reduction, lambda v: (sym(v), [1, 0, 2, 1][: sz(v)]))
    add("low_rank_hafnian", tw.low_rank_hafnian, lambda v: (al.mat_int(4, sz(v, 2, 1), v) + 0.5,))
    add("hafnian_batched", tw.hafnian_batched, lambda v: ((symc(2),), dict(cutoff=3, mu=al.vec_gauss(2, v), renorm=bool(v))))
    for mod in (False, True):
        add("hermite %s" % mod, tw.hermite_multidimensional, lambda v, m=mod: ((symc(2), 4 - (v == 2)), dict(y=al.vec_gauss(2, v), renorm=v == 1, modified=m)))
    add("hermite 1d", tw.hermite_multidimensional, lambda v: ((np.array([[0.5 + v]]), 6), dict(y=np.array([0.3 - v]))))
    add("hermite tuple", tw.hermite_multidimensional, lambda v: ((symc(2) * (1 + v), (2, 4)), dict(y=al.vec_gauss(2, v))))
    add("hermite flat", tw.hermite_multidimensional, lambda v: ((symc(2) * (1 + v), 3), dict(make_tensor=False)))
    add("grad_hermite", tw.grad_hermite_multidimensional, lambda v: (tw.hermite_multidimensional(symc(2), 3, y=al.vec_gauss(2, v), renorm=True, modified=True), symc(2), al.vec_gauss(2, v)))
    add("interferometer tensor", tw.interferometer, lambda v: (np.block([[np.zeros((2, 2)), g.unitary(2, v)], [g.unitary(2, v).T, np.zeros((2, 2))]]), 3))
    add("perm", tw.perm, lambda v: (al.mat_gauss(sz(v, 3, 2), sz(v, 3, 2), v),))
    add("perm ryser", tw.perm, lambda v: ((al.mat_int(sz(v, 3, 2), sz(v, 3, 2), v) + 0.5,), dict(method="ryser")))
    add("permanent_repeated", tw.permanent_repeated, lambda v: (al.mat_int(3, 3, v) + 0.5, [1, 2, v]))
    add("brs", tw.brs, lambda v: (al.mat_gauss(3, 2, v), al.mat_gauss(2, 2, v)))
    add("ubrs", tw.ubrs, lambda v: (g.unitary(sz(v, 3, 2), v),))

    def tormat(v):
        V = state(v)[1]
        return np.eye(len(V)) - np.linalg.inv(q.Qmat(V))

    for rec in (True, False):
        add("tor %s" % rec, tw.tor, lambda v, r=rec: ((tormat(v),), dict(recursive=r)))
        add("ltor %s" % rec, tw.ltor, lambda v, r=rec: ((tormat(v), _gam(v)), dict(recursive=r)))
    add("rec_torontonian", tw.rec_torontonian, lambda v: (tormat(v),))
    add("rec_ltorontonian", tw.rec_ltorontonian, lambda v: (tormat(v), _gam(v)))
    add("numba_tor", tw.numba_tor, lambda v: (tormat(v),))
    add("numba_ltor", tw.numba_ltor, lambda v: (tormat(v), _gam(v)))
    add("threshold", tw.threshold_detection_prob, lambda v: state(v) + (np.array([1, 0][: sz(v, 2, 1)]),))
    add("threshold list hbar", tw.threshold_detection_prob, lambda v: ((state(v)[0], state(v)[1], [1, 1][: sz(v, 2, 1)]), dict(hbar=2 + v / 10)), variants=(0,))
    add("mtl", tw.mtl, lambda v: (al.sym_real(sz(v), v),))
    add("lmtl", tw.lmtl, lambda v: (al.sym_real(sz(v), v), vec(v)))
    add("loop_hafnian_batch", loop_hafnian_batch, lambda v: (symc(v), vec(v) + 0j, np.array([1, 0, 2][: sz(v) - 1]), 3))
    add("loop_hafnian_batch rank", loop_hafnian_batch, lambda v: ((symc(v), vec(v) + 0j, [1, 1, 2][: sz(v) - 1], 2), dict(glynn=False)))
    add("loop_hafnian_batch_gamma", loop_hafnian_batch_gamma, lambda v: (symc(v), np.stack([vec(v), 2 * vec(v)]) + 0j, np.array([1, 0, 2][: sz(v) - 1]), 3))
    for f in ("fock_prob", "fock_threshold_prob"):
        fn = getattr(__import__("thewalrus._permanent", fromlist=["x"]), f)
        add(f, fn, lambda v, f=f: ([1, 1, v % 2], [1, 1, v % 2] if f == "fock_prob" else [1, 0, 1], g.unitary(3, v)))
    # charpoly
    add("charpoly", cp.charpoly, lambda v: (al.mat_int(sz(v), sz(v), v) + 0.0,))
    add("powertrace", cp.powertrace, lambda v: (al.mat_gauss(sz(v), sz(v), v), 3))
    # reference
    add("ref.hafnian", ref.hafnian, lambda v: ((sym(v),), dict(loop=v == 1)))
    add("ref.mtl", ref.mtl, lambda v: ((al.sym_real(sz(v), v),), dict(loop=v == 1)))
    for nm in ("spm", "pmp", "rspm", "rpmp"):
        add("ref." + nm, getattr(ref, nm), lambda v: (tuple(range(v, v + sz(v))),), variants=(0, 1, 2) if nm in ('pmp', 'rpmp') else (0, 1))
    add("ref.partitions", ref.partitions, lambda v: (tuple(range(sz(v, 4, 3))), v != 1, True))
    add("ref.T", ref.T, lambda v: (3 + v,))
    add("ref.bitstrings", ref.bitstrings, lambda v: (1 + v,))
    # symplectic
    U = lambda v: g.unitary(sz(v, 2, 1), v)
    add("sy.expand", sy.expand, lambda v: (g.symplectic(1, v), [v % 2], 2))
    add("sy.expand2", sy.expand, lambda v: (g.symplectic(2, v), np.array([2, 0]), 3))
    add("sy.expand_vector", sy.expand_vector, lambda v: (0.3 + v * 1j, 1, 3))
    add("sy.expand_vector array", sy.expand_vector, lambda v: (np.array([0.3 + v * 1j, v]), np.array([2, 0]), 3), variants=())
    add("sy.expand_passive", sy.expand_passive, lambda v: (g.unitary(2, v), [2, 0], 3))
    add("sy.interferometer", sy.interferometer, lambda v: (U(v),))
    add("sy.loss", sy.loss, lambda v: state(v) + (0.4, 0, 0.2))
    add("sy.passive_transformation", sy.passive_transformation, lambda v: state(v) + (0.7 * U(v),))
    add("sy.reduced_state", sy.reduced_state, lambda v: state(v, 3) + ([2, 0],))
    add("sy.reduced_state all", sy.reduced_state, lambda v: state(v, 2) + ([0, 1],))
    add("sy.mean_photon_number", sy.mean_photon_number, lambda v: state(v))
    add("sy.xxpp_to_xpxp", sy.xxpp_to_xpxp, lambda v: (state(v)[1],))
    add("sy.xpxp_to_xxpp", sy.xpxp_to_xxpp, lambda v: (state(v)[0],))
    add("sy.is_symplectic", sy.is_symplectic, lambda v: (g.symplectic(2, v) + (v == 1) * 0.1,))
    add("sy.squeezing", sy.squeezing, lambda v: (np.array([0.3, 0.1 * v]), np.array([0.2, v])))
    add("sy.squeezing2", sy.squeezing, lambda v: (0.3 + v,))
    add("sy.two_mode", sy.two_mode_squeezing, lambda v: (0.3 + v, 0.4))
    add("sy.beam_splitter", sy.beam_splitter, lambda v: (0.3 + v, 0.4))
    add("sy.rotation", sy.rotation, lambda v: (0.3 + v,))
    add("sy.vacuum", sy.vacuum_state, lambda v: (1 + v, 2.0))
    add("sy.sympmat", sy.sympmat, lambda v: (1 + v,))
    # decompositions
    add("williamson", de.williamson, lambda v: (state(v)[1],))
    add("symplectic_eigenvals", de.symplectic_eigenvals, lambda v: (state(v)[1],))
    add("takagi", de.takagi, lambda v: ((symc(v),), dict(svd_order=v != 1)))
    add("takagi real", de.takagi, lambda v: (sym(v),))
    for nm in ("blochmessiah", "iwasawa", "pre_iwasawa"):
        add(nm, getattr(de, nm), lambda v: (g.symplectic(sz(v, 2, 1), v),))
    # fock gates
    for nm in ("displacement", "squeezing", "two_mode_squeezing", "beamsplitter", "mzgate"):
        add("fg." + nm, getattr(fg, nm), lambda v: (0.3 + 0.2 * v, 0.4 + v, 3 + (v == 2)))
        base = getattr(fg, nm)
        add("fg.grad_" + nm, getattr(fg, "grad_" + nm), lambda v, b=base: (b(0.3 + 0.2 * v, 0.4, 4), 0.3 + 0.2 * v, 0.4))
    # quantum
    add("Qmat", q.Qmat, lambda v: (state(v)[1],))
    add("Covmat", q.Covmat, lambda v: (q.Qmat(state(v)[1]),))
    add("Amat", q.Amat, lambda v: (state(v)[1],))
    add("Amat q", q.Amat, lambda v: ((q.Qmat(state(v)[1]),), dict(cov_is_qmat=True)))
    add("Xmat", q.Xmat, lambda v: (1 + v,))
    add("real_to_complex", q.real_to_complex_displacements, lambda v: (_gam(v).conj(),))
    add("complex_to_real", q.complex_to_real_displacements, lambda v: (state(v)[0],))
    add("adj_scaling", am.adj_scaling, lambda v: (sym(v), 0.4))
    add("adj_scaling_torontonian", am.adj_scaling_torontonian, lambda v: (sym(v), 0.4))
    add("adj_to_qmat", am.adj_to_qmat, lambda v: (sym(v), 0.4))
    cf = lambda v: ((0.3, 0.4 + 0.1 * v, 0.8, 0.7), {})
    add("characteristic_function", q.characteristic_function, lambda v: ((2, 0.4 + 0.1 * v, 0.8, 0.7), {}))
    add("total_photon_number_distribution", q.total_photon_number_distribution, lambda v: (2 + v, 2, 0.5, 0.8))
    add("pure_state_distribution", q.pure_state_distribution, lambda v: ((state(v, pure=True)[1],), dict(cutoff=8)))
    add("density_matrix", q.density_matrix, lambda v: (state(v), dict(cutoff=3)))
    add("density_matrix ps", q.density_matrix, lambda v: (state(v, 2), dict(cutoff=3, post_select={1: v}, normalize=True)))
    add("density_matrix_element", q.density_matrix_element, lambda v: state(v) + ([1, 2][: sz(v, 2, 1)], [0, 1][: sz(v, 2, 1)]))
    add("state_vector", q.state_vector, lambda v: (state(v, pure=True), dict(cutoff=3)))
    add("state_vector ps", q.state_vector, lambda v: (state(v, 2, pure=True), dict(cutoff=3, post_select={0: v}, normalize=True)))
    add("pure_state_amplitude", q.pure_state_amplitude, lambda v: state(v, pure=True) + ([1, 2][: sz(v, 2, 1)],))
    add("probabilities", q.probabilities, lambda v: state(v) + (3,))
    add("fock_tensor", q.fock_tensor, lambda v: (g.symplectic(sz(v, 2, 1), v), np.array([0.2 + 0.1j, -0.1])[: sz(v, 2, 1)], 3))
    add("fock_tensor list", q.fock_tensor, lambda v: ((g.symplectic(1, v), [0.2], 3), dict(sf_order=True)), variants=(0, 1))
    add("n_body_marginals", q.n_body_marginals, lambda v: state(v, 3) + (2, 2))
    add("loss_mat", q.loss_mat, lambda v: (0.3 + 0.2 * v, 4))
    P = lambda v: np.abs(al.mat_int(3, 3 - (v == 2), v) + 3.5) / 50
    add("update_loss", q.update_probabilities_with_loss, lambda v: ([0.3, 0.5], P(v)))
    add("update_noise", q.update_probabilities_with_noise, lambda v: ([np.array([0.7, 0.3]), np.array([0.6, 0.2, 0.2])], P(v)), variants=(0, 1, 2))
    add("tvd", q.tvd_cutoff_bounds, lambda v: state(v) + (4,))
    for nm in ("photon_number_mean_vector", "photon_number_covmat"):
        add(nm, getattr(q, nm), lambda v: state(v))
    add("photon_number_mean", q.photon_number_mean, lambda v: state(v) + (0,))
    add("photon_number_covar", q.photon_number_covar, lambda v: state(v, 2) + (0, 1))
    for nm in ("photon_number_expectation", "photon_number_squared_expectation", "photon_number_cumulant", "click_cumulant"):
        add(nm, getattr(q, nm), lambda v: state(v, 2) + ([0, 1],))
    add("photon_number_moment", q.photon_number_moment, lambda v: state(v, 2) + ({0: 2, 1: 1 + v % 2},))
    add("normal_ordered", q.normal_ordered_expectation, lambda v: state(v, 2) + ([1, 2, 0, 1],))
    add("s_ordered", q.s_ordered_expectation, lambda v: ((*state(v, 2), [1, 1, 0, 2]), dict(s=0.3)))
    add("mean_clicks", q.mean_clicks, lambda v: (state(v)[1],))
    add("variance_clicks", q.variance_clicks, lambda v: (state(v)[1],))
    add("fidelity", q.fidelity, lambda v: state(v) + state(2 if v == 2 else 1 - v))
    add("reduced_gaussian", q.reduced_gaussian, lambda v: state(v, 3) + ([2, 0],))
    add("reduced_gaussian all", q.reduced_gaussian, lambda v: state(v, 2) + ([0, 1],))
    add("reduced_gaussian int", q.reduced_gaussian, lambda v: state(v, 2) + (1,))
    add("is_valid_cov", q.is_valid_cov, lambda v: (state(v)[1],))
    add("is_pure_cov", q.is_pure_cov, lambda v: (state(v, pure=v == 1)[1],))
    add("is_classical_cov", q.is_classical_cov, lambda v: (state(v)[1] + v * np.eye(2 * sz(v, 2, 1)),))
    add("find_classical_subsystem", q.find_classical_subsystem, lambda v: (np.diag([1.0, 1 + v, 0.5, 1, 1, 2]),))
    add("vonneumann", en.vonneumann_entropy, lambda v: (state(v)[1],))
    add("entanglement_entropy", en.entanglement_entropy, lambda v: ((state(v, 2, pure=True)[1],), dict(modes_A=[v % 2])))
    add("log_negativity", en.log_negativity, lambda v: ((state(v, 3)[1],), dict(split=1)))
    # samplers and generators
    add("hafnian_sample_state", sm.hafnian_sample_state, lambda v: ((state(v)[1], 2), dict(mean=state(v)[0])), random=True)
    add("torontonian_sample_state", sm.torontonian_sample_state, lambda v: ((state(v)[1], 2), dict(mu=state(v)[0], fanout=2)), random=True)
    add("generate_hafnian_sample", sm.generate_hafnian_sample, lambda v: ((state(v)[1],), dict(mean=state(v)[0], cutoff=4)), random=True)
    add("generate_torontonian_sample", sm.generate_torontonian_sample, lambda v: ((state(v)[1],), dict(mu=state(v)[0])), random=True)
    add("hafnian_sample_graph", sm.hafnian_sample_graph, lambda v: ((sym(v), 0.5), dict(samples=2)), random=True)
    add("torontonian_sample_graph", sm.torontonian_sample_graph, lambda v: ((sym(v), 0.5), dict(samples=2)), random=True)
    add("classical", sm.hafnian_sample_classical_state, lambda v: ((np.eye(4) * (1.5 + v), 3), dict(mean=np.ones(4))), random=True)
    add("tor classical", sm.torontonian_sample_classical_state, lambda v: ((np.eye(4) * (1.5 + v), 3), dict(mean=np.ones(4))), random=True)
    add("table", sm.photon_number_sampler, lambda v: (np.array([[0.1, 0.2], [0.3, 0.4]]) if v != 1 else np.array([[0.4, 0.3], [0.2, 0.1]]), 3), random=True)
    add("rank_one", sm.hafnian_sample_graph_rank_one, lambda v: (np.array([1.0, 2.0 + v, 0.5]), 0.7, 2), random=True)
    add("rescale_thermal", cs.rescale_adjacency_matrix_thermal, lambda v: (_psd(v), 0.5))
    add("rescale", cs.rescale_adjacency_matrix, lambda v: (_psd(v), 0.5, 0.8))
    add("thermal", cs.generate_thermal_samples, lambda v: ((np.array([0.2, 0.4 - 0.1 * v]), g.unitary(2, v)), dict(num_samples=3)), random=True)
    add("ds.sample", ds.sample, lambda v: (0.9 * g.unitary(2, v), np.array([0.4, 0.3]), 2), random=True)
    add("ds.number_means", ds.number_means, lambda v: (0.9 * g.unitary(2, v), np.array([0.4, 0.3])))
    add("ds.number_cov", ds.number_cov, lambda v: (0.9 * g.unitary(2, v), np.array([0.4, 0.3])))
    for nm in ("vacuum_prob_distinguishable", "threshold_detection_prob_distinguishable"):
        pass
    for nm, mk in (("random_interferometer", lambda v: ((2 + (v == 2),), dict(real=v == 1))), ("random_symplectic", lambda v: ((2 + (v == 2),), dict(passive=v == 1))),
                   ("random_covariance", lambda v: ((2,), dict(pure=v == 1, block_diag=v == 2))), ("random_block_interferometer", lambda v: ((2 + v,), {})),
                   ("random_banded_interferometer", lambda v: ((3 + v, 2), {})), ("randnc", lambda v: (1 + v, 2))):
        add("rn." + nm, getattr(rn, nm), mk, random=True)
    add("grouped", grouped_click_probabilities, lambda v: (np.array([0.3, 0.2]), np.array([0.1, 0.25 + 0.02 * v]), 0.9 * g.unitary(2, 1), 20, 2))
    add("grouped squeezed", grouped_click_probabilities_squeezed, lambda v: (np.array([0.3, 0.2 + 0.1 * v]), 0.9 * g.unitary(2, 1), 20, 2))
    return [e for e in E if e.variants]


def _gam(v):
    mu, _ = state(v)
    n = len(mu) // 2
    a = (mu[:n] + 1j * mu[n:]) / 2
    return np.concatenate([a.conj(), a]) / 2


def _psd(v):
    B = al.mat_int(sz(v, 3, 2), sz(v, 3, 2), v) + 0.5
    return B @ B.T


# ---------------------------------------------------------------- comparison of nested values
def same(a, b, tol=1e-11, path=""):
    """None when equal up to tol, otherwise a message."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            if not (np.ndim(a) == np.ndim(b) == 0):
                return "%s: %s instead of %s" % (path, type(b), type(a))
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return "%s: shape %s instead of %s" % (path, b.shape, a.shape)
        if a.dtype.kind in "OUS":
            return None if np.array_equal(a, b) else "%s: %s instead of %s" % (path, b, a)
        if a.size == 0:
            return None
        with np.errstate(all="ignore"):
            d = np.abs(a.astype(complex) - b.astype(complex))
            ok = (d <= tol * max(1.0, float(np.nanmax(np.abs(a))) if not np.all(np.isnan(a.astype(complex))) else 1.0)) | (a == b) | (np.isnan(a.astype(complex)) & np.isnan(b.astype(complex)))
        return None if np.all(ok) else "%s: %s instead of %s" % (path, b.tolist(), a.tolist())
    if isinstance(a, dict):
        if not isinstance(b, dict) or set(a) != set(b):
            return "%s: keys differ" % path
        for k in a:
            m = same(a[k], b[k], tol, "%s[%r]" % (path, k))
            if m:
                return m
        return None
    if isinstance(a, (list, tuple)):
        if type(a) is not type(b) or len(a) != len(b):
            return "%s: %r instead of %r" % (path, b, a)
        for i, (x, y) in enumerate(zip(a, b)):
            m = same(x, y, tol, "%s[%d]" % (path, i))
            if m:
                return m
        return None
    if isinstance(a, (int, float, complex, np.number, bool, np.bool_)) and isinstance(b, (int, float, complex, np.number, bool, np.bool_)):
        return same(np.asarray(a), np.asarray(b), tol, path)
    if type(a) is not type(b):
        return "%s: %r instead of %r" % (path, b, a)
    return None if a == b else "%s: %r instead of %r" % (path, b, a)


def bitwise(a, b):
    """Whether two nested argument values are identical."""
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(bitwise(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(bitwise(a[k], b[k]) for k in a)
    return a is b or a == b


def map_arrays(x, f):
    if isinstance(x, np.ndarray):
        return f(x)
    if isinstance(x, (list, tuple)):
        return type(x)(map_arrays(y, f) for y in x)
    if isinstance(x, dict):
        return {k: map_arrays(y, f) for k, y in x.items()}
    return x


def snapshot(x):
    import copy

    return copy.deepcopy(x)
