"""C32: documented preconditions are enforced, and only those."""
import itertools

import numpy as np

from mc import alphabet as al
from mc import api
from mc import gauss as g
from mc.core import unit

PROPERTY = "C32"
LEVEL = "exploration"
RULE = (
    "for every function with a documented precondition and every size, the valid input is accepted and every input obtained "
    "from it by one fault (type, shape, one entry or symmetric pair changed, NaN at one position, one argument out of range) "
    "is rejected; one evaluation per faulty input"
)
ASSUMPTIONS = ["faults are at least 1e-3 in size, admissible deviations at most 1e-10 (or as allowed by explicit tolerances)"]
UNITS = []
BAD = (ValueError, TypeError)


def pos(n):
    return list(itertools.product(range(n), repeat=2))


def with_entry(A, i, j, v, sym=False):
    dt = np.result_type(A.dtype, np.asarray(v).dtype)
    B = np.array(A, dtype=dt)
    B[i, j] = v
    if sym:
        B[j, i] = v
    return B


def shapes_of(A):
    """Non-square versions of a square matrix."""
    n = len(A)
    yield "drop row", A[:-1]
    yield "drop column", A[:, :-1]
    yield "first rows", A[: max(1, n // 2), :] if n > 1 else np.zeros((1, 2), dtype=A.dtype)
    yield "extra row", np.vstack([A, A[:1]]) if n else np.zeros((1, 0))
    yield "extra column", np.hstack([A, A[:, :1]]) if n else np.zeros((0, 1))


def nonsquare(A):
    return [(nm, B) for nm, B in shapes_of(A) if B.shape[0] != B.shape[1]]


def symmetric_checked():
    """Functions which require a symmetric NumPy matrix without NaN."""
    import thewalrus as tw

    for meth in ("glynn", "inclexcl", "recursive"):
        for loop in (False, True):
            yield "hafnian %s %s" % (meth, loop), lambda A, m=meth, l=loop, **k: tw.hafnian(A, method=m, loop=l, **k)
    yield "hafnian_repeated", lambda A, **k: tw.hafnian_repeated(A, [1] * len(A), **k)
    yield "hafnian_repeated mu", lambda A, **k: tw.hafnian_repeated(A, [2] * len(A), mu=np.ones(len(A)), loop=True, **k)
    for loop in (False, True):
        yield "hafnian_banded %s" % loop, lambda A, l=loop, **k: tw.hafnian_banded(A, loop=l, **k)
    for rn in (False, True):
        yield "hafnian_batched %s" % rn, lambda A, r=rn, **k: tw.hafnian_batched(A, 2, renorm=r, **k)
        yield "hermite %s" % rn, lambda A, r=rn, **k: tw.hermite_multidimensional(A, 2, renorm=r, **k)
        yield "hermite modified %s" % rn, lambda A, r=rn, **k: tw.hermite_multidimensional(A, 2, y=np.ones(len(A)), modified=True, renorm=r, **k)


@unit(UNITS, quick=[dict(n=n) for n in (1, 2, 3, 4)], thorough=[dict(n=n) for n in (1, 2, 3, 4, 5, 6)])
def symmetric(ctx, n):
    """Symmetry, shape, type and NaN checks of the hafnian family."""
    bases = [("real", al.sym_real(n, n) + 1.1), ("complex", al.sym_gauss(n, n) + 0.5), ("int", al.sym_int(n, n, 1, 3)), ("zero", np.zeros((n, n)))]
    for fname, fn in symmetric_checked():
        for bn, A in bases:
            ctx.true((fname, bn, "valid"), lambda: fn(A) is not None)
            ctx.raises((fname, bn, "list"), lambda: fn(A.tolist()), TypeError)
            for nm, B in nonsquare(A):
                if B.size:
                    ctx.raises((fname, bn, nm), lambda: fn(B), ValueError)
            for i, j in pos(n):
                if i <= j and bn != "int":
                    ctx.raises((fname, bn, "NaN", i, j), lambda: fn(with_entry(A, i, j, np.nan, True)), ValueError)
                    if bn == "complex":
                        ctx.raises((fname, bn, "NaN imaginary", i, j), lambda: fn(with_entry(A, i, j, complex(0.1, np.nan), True)), ValueError)
                if i != j:
                    for d in (1, -1) if bn == "int" else (1.0, -0.3, 1e-2):
                        ctx.raises((fname, bn, "asymmetric", i, j, d), lambda: fn(with_entry(A, i, j, A[i, j] + d)), ValueError)
                    if bn == "complex":
                        ctx.raises((fname, bn, "imaginary part", i, j), lambda: fn(with_entry(A, i, j, A[i, j] + 0.2j)), ValueError)
                    if bn != "int":
                        ctx.true((fname, bn, "rounding", i, j), lambda: fn(with_entry(A, i, j, A[i, j] * (1 + 1e-12) + 1e-12)) is not None)
                        ctx.true((fname, bn, "loose", i, j), lambda: fn(with_entry(A, i, j, A[i, j] + 0.01), atol=0.02) is not None)
                        ctx.raises((fname, bn, "tight", i, j), lambda: fn(with_entry(A, i, j, A[i, j] + 1e-6), atol=1e-9, rtol=1e-9), ValueError)
                        if bn == "real":
                            ctx.true((fname, bn, "relative", i, j), lambda: fn(with_entry(10 + 0 * A, i, j, 10.5), rtol=0.1, atol=0) is not None)
                            ctx.raises((fname, bn, "relative tight", i, j), lambda: fn(with_entry(10 + 0 * A, i, j, 10.5), rtol=0.01, atol=0), ValueError)
            if n > 1 and bn == "complex":
                H = np.array(A)
                H = np.triu(H, 1) + np.triu(H, 1).conj().T + np.diag(H.diagonal().real) + 1j * (np.tri(n, n, -1) - np.tri(n, n, -1).T)
                ctx.raises((fname, "hermitian"), lambda: fn(H), ValueError)


@unit(UNITS, quick=[dict(top=4)], thorough=[dict(top=6)])
def matrices(ctx, top):
    """Arguments of the other matrix functions."""
    import thewalrus as tw
    from thewalrus import reference as ref
    from thewalrus._hafnian import recursive_hafnian
    from thewalrus.quantum import adj_to_qmat, adj_scaling_torontonian
    from thewalrus.decompositions import takagi

    for n in range(1, top + 1):
        A = al.sym_real(n, n) + 1.1
        # repeated
        for k in range(n):
            rpt = [1] * n
            for v in (-1, 0.5, -2, 1.25):
                r = list(rpt)
                r[k] = v
                ctx.raises(("rpt", n, k, v), lambda: tw.hafnian_repeated(A, r), ValueError)
                ctx.raises(("rpt array", n, k, v), lambda: tw.hafnian_repeated(A, np.array(r), loop=True), ValueError)
        for m in [x for x in (0, n - 1, n + 1, n + 2) if x != n]:
            ctx.raises(("rpt length", n, m), lambda: tw.hafnian_repeated(A, [2] * m), ValueError)
            ctx.raises(("mu length", n, m), lambda: tw.hafnian_repeated(A, [2] * n, mu=np.ones(m), loop=True), ValueError)
            ctx.raises(("hermite y", n, m), lambda: tw.hermite_multidimensional(A, 2, y=np.ones(m)), ValueError)
            ctx.raises(("hermite y renorm", n, m), lambda: tw.hermite_multidimensional(A, 2, y=np.ones(m), renorm=True), ValueError)
            ctx.raises(("batched mu", n, m), lambda: tw.hafnian_batched(A, 2, mu=np.ones(m)), ValueError)
            T = tw.hermite_multidimensional(A, 2, y=np.ones(n), renorm=True, modified=True)
            ctx.raises(("grad y", n, m), lambda: tw.grad_hermite_multidimensional(T, A, np.ones(m)), ValueError)
        ctx.true(("rpt floats", n), lambda: tw.hafnian_repeated(A, [2.0] * n) is not None)
        # permanents
        M = al.mat_int(n, n, n) + 0.5
        for meth in ("bbfg", "ryser"):
            ctx.true(("perm", meth, n), lambda: tw.perm(M, method=meth) is not None)
            ctx.raises(("perm list", meth, n), lambda: tw.perm(M.tolist(), method=meth), TypeError)
            for nm, B in nonsquare(M):
                ctx.raises(("perm", meth, n, nm), lambda: tw.perm(B, method=meth), ValueError)
            for i, j in pos(n):
                ctx.raises(("perm NaN", meth, n, i, j), lambda: tw.perm(with_entry(M, i, j, np.nan), method=meth), ValueError)
                ctx.raises(("perm complex NaN", meth, n, i, j), lambda: tw.perm(with_entry(M, i, j, complex(0, np.nan)), method=meth), ValueError)
        # torontonians and montrealers
        O = al.sym_real(2 * n, n) / (20.0 * n)
        d = np.ones(2 * n) / 3
        fns = [("tor", lambda B: tw.tor(B)), ("tor iter", lambda B: tw.tor(B, recursive=False)), ("mtl", tw.mtl)]
        two = [("ltor", lambda B, x: tw.ltor(B, x)), ("ltor iter", lambda B, x: tw.ltor(B, x, recursive=False)), ("lmtl", tw.lmtl)]
        for nm, f in fns + [(k, lambda B, f=f: f(B, np.ones(len(B)) / 3)) for k, f in two]:
            ctx.true((nm, n), lambda: f(O) is not None)
            ctx.raises((nm, n, "list"), lambda: f(O.tolist()), TypeError)
            for s, B in nonsquare(O):
                ctx.raises((nm, n, s), lambda: f(B), ValueError)
            ctx.raises((nm, n, "odd"), lambda: f(O[:-1, :-1]), ValueError)
        for nm, f in two:
            ctx.raises((nm, n, "vector list"), lambda: f(O, d.tolist()), TypeError)
            for m in {0, n, 2 * n - 1, 2 * n + 1, 2 * n + 2}:
                ctx.raises((nm, n, "vector", m), lambda: f(O, np.ones(m)), ValueError)
        # references, takagi, graphs
        for s, B in nonsquare(A):
            ctx.raises(("ref.hafnian", n, s), lambda: ref.hafnian(B), ValueError)
            ctx.raises(("recursive_hafnian", n, s), lambda: recursive_hafnian(np.ascontiguousarray(B)), ValueError)
            ctx.raises(("takagi", n, s), lambda: takagi(B), ValueError)
            ctx.raises(("adj_to_qmat", n, s), lambda: adj_to_qmat(B, 0.5), ValueError)
        if n % 2:
            ctx.raises(("recursive_hafnian odd", n), lambda: recursive_hafnian(A), ValueError)
        for c in (-0.1, n + 0.1, 2 * n):
            ctx.raises(("clicks", n, c), lambda: adj_scaling_torontonian(np.ones((n, n)), c), ValueError)


@unit(UNITS, quick=[dict(top=4)], thorough=[dict(top=6)])
def thermal(ctx, top):
    """Rescaling of adjacency matrices: every sign pattern of the spectrum, every asymmetric entry, every flag."""
    from thewalrus import csamples as cs

    err = (AssertionError, ValueError)
    fns = [("thermal", lambda A, **k: cs.rescale_adjacency_matrix_thermal(A, 0.8, **k)),
           ("scaled", lambda A, **k: cs.rescale_adjacency_matrix(A, 0.8, 0.6, **k))]
    for n in range(1, top + 1):
        for fr, O in (("id", np.eye(n)), ("orth", np.linalg.qr(al.mat_int(n, n, 4) + 3 * np.eye(n))[0])):
            for signs in itertools.product((1, 0, -1), repeat=n):
                lam = np.array(signs) * (1.0 + 0.5 * np.arange(n))
                if lam.max() <= 0:
                    continue  # not a rescalable matrix at all
                A = (O * lam) @ O.T
                A = (A + A.T) / 2
                if fr == "orth" and 0 in signs and -1 not in signs:
                    continue  # zero eigenvalues up to rounding of either sign
                for nm, f in fns:
                    for kw in ({}, {"check_symmetry": False}):
                        if -1 in signs:
                            ctx.raises((nm, n, fr, signs, kw), lambda: f(A, **kw), err, data=A)
                        else:
                            ctx.true((nm, n, fr, signs, kw), lambda: len(f(A, **kw)[0]) == n, data=A)
            A = (O * (1.0 + np.arange(n))) @ O.T
            A = (A + A.T) / 2
            for i, j in pos(n):
                if i != j:
                    B = with_entry(A, i, j, A[i, j] + 0.01)
                    for nm, f in fns:
                        ctx.raises((nm, n, fr, "asym", i, j), lambda: f(B), err, data=B)
                        ctx.raises((nm, n, fr, "asym positivity off", i, j), lambda: f(B, check_positivity=False), err, data=B)
                        ctx.true((nm, n, fr, "asym symmetry off", i, j), lambda: len(f(B, check_symmetry=False)[0]) == n, data=B)
                        ctx.true((nm, n, fr, "asym tolerated", i, j), lambda: len(f(B, atol=0.1)[0]) == n, data=B)


@unit(UNITS)
def approx(ctx):
    """The random approximation is for real non-negative matrices (matrices up to size 4 are computed exactly)."""
    import thewalrus as tw

    for n in (6, 8):
        P = np.abs(al.sym_real(n, n)) + 0.3
        ctx.true(("approx", n), lambda: tw.hafnian(P, approx=True, num_samples=2) is not None)
        ctx.true(("approx zeros", n), lambda: tw.hafnian(0 * P, approx=True, num_samples=2) is not None)
        for i, j in pos(n):
            if i <= j:
                for v in (-0.1, -1e-6, 0.3 + 0.1j, 1j):
                    ctx.raises(("approx", n, i, j, v), lambda: tw.hafnian(with_entry(P, i, j, v, True), approx=True, num_samples=2), ValueError)


@unit(UNITS, quick=[dict(top=2)], thorough=[dict(top=3)])
def fock(ctx, top):
    """Photonic probabilities and Fock-space functions."""
    from thewalrus import quantum as q
    from thewalrus._permanent import fock_prob, fock_threshold_prob
    from thewalrus.quantum.fock_tensors import loss_mat

    for n in (1, 2, 3):
        U = g.unitary(n, 1)
        for a in itertools.product(range(3), repeat=n):
            for b in itertools.product(range(3), repeat=n):
                if sum(a) != sum(b) and sum(a) + sum(b) < 6:
                    ctx.raises(("fock_prob", a, b), lambda: fock_prob(list(a), list(b), U), ValueError)
        ones = [1] * n
        for m in (n - 1, n + 1):
            ctx.raises(("threshold inputs", n, m), lambda: fock_threshold_prob([1] * m, ones, U), ValueError)
            ctx.raises(("threshold outputs", n, m), lambda: fock_threshold_prob(ones, [1] * m, U), ValueError)
        ctx.raises(("threshold tall", n), lambda: fock_threshold_prob(ones, [1] * (n + 1), g.unitary(n + 1, 1)[:, :n]), ValueError)
    for eta in (-1e-3, -1, 1.001, 2, -1e-9):
        for c in (1, 2, 5):
            ctx.raises(("loss_mat", eta, c), lambda: loss_mat(eta, c), ValueError)
    for shape in ((2,), (3, 3), (2, 3, 2)):
        P = np.ones(shape) / np.prod(shape)
        n = len(shape)
        for m in (n - 1, n + 1):
            ctx.raises(("loss lengths", shape, m), lambda: q.update_probabilities_with_loss([0.5] * m, P), ValueError)
            ctx.raises(("noise lengths", shape, m), lambda: q.update_probabilities_with_noise([np.array([0.6, 0.4])] * m, P), ValueError)
        for k in range(n):
            for eta in (-0.1, 1.1):
                e = [0.5] * n
                e[k] = eta
                ctx.raises(("loss value", shape, k, eta), lambda: q.update_probabilities_with_loss(e, P), ValueError)
    for n in range(1, top + 1):
        mu, V = api.state(0, n)
        mup, Vp = api.state(0, n, pure=True)
        S = g.symplectic(n, 1)
        al0 = np.zeros(n)
        for hbar in (2, 1, 0.5):
            sc = hbar / 2
            k = dict(cutoff=3, hbar=hbar)
            ctx.true(("state_vector", n, hbar), lambda: q.state_vector(mup * sc ** 0.5, Vp * sc, **k) is not None)
            ctx.raises(("state_vector mixed", n, hbar), lambda: q.state_vector(mu * sc ** 0.5, V * sc, **k), ValueError)
            ctx.raises(("amplitude mixed", n, hbar), lambda: q.pure_state_amplitude(mu * sc ** 0.5, V * sc, [0] * n, hbar=hbar), ValueError)
            ctx.true(("amplitude", n, hbar), lambda: q.pure_state_amplitude(mup * sc ** 0.5, Vp * sc, [0] * n, hbar=hbar) is not None)
            ctx.raises(("distribution mixed", n, hbar), lambda: q.pure_state_distribution(V * sc, cutoff=5, hbar=hbar), ValueError)
            ctx.true(("distribution", n, hbar), lambda: q.pure_state_distribution(Vp * sc, cutoff=5, hbar=hbar) is not None)
            # one mode slightly mixed
            for m in range(n):
                W = Vp.copy()
                W[m, m] += 0.05
                ctx.raises(("state_vector one mode mixed", n, hbar, m), lambda: q.state_vector(mup * sc ** 0.5, W * sc, **k), ValueError)
                ctx.true(("unchecked", n, hbar, m), lambda: q.state_vector(mup * sc ** 0.5, W * sc, check_purity=False, **k) is not None)
                ctx.raises(("tvd unphysical", n, hbar, m), lambda: q.tvd_cutoff_bounds(mup * sc ** 0.5, with_entry(Vp, m, m, Vp[m, m] - 0.05) * sc, 3, hbar=hbar), ValueError)
                ctx.raises(("tvd unphysical p", n, hbar, m), lambda: q.tvd_cutoff_bounds(mup * sc ** 0.5, with_entry(Vp, m + n, m + n, Vp[m + n, m + n] - 0.05) * sc, 3, hbar=hbar), ValueError)
            ctx.true(("tvd", n, hbar), lambda: q.tvd_cutoff_bounds(mu * sc ** 0.5, V * sc, 3, hbar=hbar) is not None)
        ctx.true(("fock_tensor", n), lambda: q.fock_tensor(S, al0, 3) is not None)
        for i, j in pos(2 * n):
            for d in (0.5, -0.05):
                B = with_entry(S, i, j, S[i, j] + d)
                J = g.om(n)
                if np.max(np.abs(B @ J @ B.T - J)) < 1e-3:
                    continue  # still symplectic (a shear)
                ctx.raises(("fock_tensor not symplectic", n, i, j, d), lambda: q.fock_tensor(B, al0, 3), ValueError)
                ctx.true(("fock_tensor unchecked", n, i, j, d), lambda: q.fock_tensor(B, al0, 2, check_symplectic=False) is not None)
            ctx.true(("fock_tensor rounding", n, i, j), lambda: q.fock_tensor(with_entry(S, i, j, S[i, j] + 1e-11), al0, 3) is not None)
        for m in (n - 1, n + 1):
            ctx.raises(("fock_tensor alpha", n, m), lambda: q.fock_tensor(S, np.zeros(m), 3), ValueError)
        for m in range(0, 2 * n + 3):
            if m != 2 * n:
                ctx.raises(("marginals shapes", n, m), lambda: q.n_body_marginals(np.zeros(m), V, 2, 1), ValueError)
        ctx.raises(("marginals order", n), lambda: q.n_body_marginals(mu, V, 2, n + 1), ValueError)
        ctx.raises(("marginals odd", n), lambda: q.n_body_marginals(mu[:-1], V[:-1, :-1], 2, 1), ValueError)


def covs(n):
    mu, V = api.state(0, n)
    return mu, V, api.state(0, n, pure=True)[1]


@unit(UNITS, quick=[dict(n=1), dict(n=2), dict(n=3)], thorough=[dict(n=1), dict(n=2), dict(n=3), dict(n=4)])
def gaussian(ctx, n):
    """Gaussian states, modes and symplectic matrices."""
    from thewalrus import quantum as q
    from thewalrus import symplectic as sy
    from thewalrus import decompositions as de
    from thewalrus.quantum import entanglement as en

    if n > 3:
        S = g.passive(g.unitary(n, 1)) @ g.sq(0.2 + 0.1 * np.arange(n), 0.3 * np.arange(n))
        Vp = S @ S.T
        mu, V = g.lossy(0.1 * np.arange(2 * n), Vp, 0.5 + 0.1 * np.arange(n))
    else:
        mu, V, Vp = covs(n)
    N = 2 * n
    # validity and purity
    for hbar in (2, 1, 0.5, 1.7):
        for nm, W in (("mixed", V), ("pure", Vp), ("vacuum", np.eye(N))):
            W = W * hbar / 2
            ctx.true(("is_valid_cov", nm, hbar), lambda: bool(q.is_valid_cov(W, hbar=hbar)))
            ctx.true(("is_pure_cov", nm, hbar), lambda: bool(q.is_pure_cov(W, hbar=hbar)) == (nm != "mixed"))
            ctx.true(("not scaled", nm, hbar), lambda: not q.is_valid_cov(W * 0.97, hbar=hbar) or nm == "mixed")
            for i, j in pos(N):
                if i != j:
                    ctx.true(("asymmetric", nm, hbar, i, j), lambda: not q.is_valid_cov(with_entry(W, i, j, W[i, j] + 0.1), hbar=hbar))
                elif nm != "mixed":
                    ctx.true(("squeezed below", nm, hbar, i), lambda: not q.is_valid_cov(with_entry(W, i, i, W[i, i] * 0.95), hbar=hbar))
                    ctx.true(("not pure", nm, hbar, i), lambda: not q.is_pure_cov(with_entry(W, i, i, W[i, i] * 1.05), hbar=hbar))
            for s, B in nonsquare(W):
                ctx.true(("shape", nm, hbar, s), lambda: not q.is_valid_cov(B, hbar=hbar))
            ctx.true(("odd", nm, hbar), lambda: not q.is_valid_cov(W[:-1, :-1], hbar=hbar))
        bad = with_entry(Vp, 0, 0, Vp[0, 0] * 0.9) * hbar / 2
        for nm, f in (("vonneumann_entropy", lambda c: en.vonneumann_entropy(c, hbar=hbar)), ("log_negativity", lambda c: en.log_negativity(c, split=1, hbar=hbar)),
                      ("entanglement_entropy", lambda c: en.entanglement_entropy(c, split=1, hbar=hbar))):
            if n == 1 and nm != "vonneumann_entropy":
                continue
            ctx.raises((nm, hbar, "unphysical"), lambda: f(bad), ValueError)
            ctx.true((nm, hbar, "pure"), lambda: f(Vp * hbar / 2) is not None)
            if nm == "entanglement_entropy":
                ctx.raises((nm, hbar, "mixed"), lambda: f(V * hbar / 2), ValueError)
            else:
                ctx.true((nm, hbar, "mixed"), lambda: f(V * hbar / 2) is not None)
    if n > 1:
        for nm, f in (("log_negativity", lambda **k: en.log_negativity(V, **k)), ("entanglement_entropy", lambda **k: en.entanglement_entropy(Vp, **k))):
            for m in (-1, n, n + 3, 0.5, "a", [0, n], [-1], [0, 0.5], (n,), np.array([n]), np.array([0.5])):
                ctx.raises((nm, "modes_A", str(m)), lambda: f(modes_A=m), BAD)
            for s in (n, n + 1, 0.5, "a"):
                ctx.raises((nm, "split", s), lambda: f(split=s), BAD)
            ctx.raises((nm, "no bipartition"), lambda: f(), BAD)
            for m in [0, n - 1, [0], (n - 1,), range(1), np.array([0]), list(range(n - 1)), np.arange(n - 1)]:
                ctx.true((nm, "modes_A ok", str(m)), lambda: f(modes_A=m) is not None)
            for s in range(1, n):
                ctx.true((nm, "split ok", s), lambda: f(split=s) is not None)
    # modes
    for bad in [-1, n, n + 5, [n], [-1], [0, n], [n, 0], np.array([n]), (n,), np.array([0, -1])]:
        ctx.raises(("reduced_gaussian", str(bad)), lambda: q.reduced_gaussian(mu, V, bad), ValueError)
        ctx.raises(("reduced_state", str(bad)), lambda: sy.reduced_state(mu, V, bad), ValueError)
    for ok in [0, n - 1, [0], (n - 1,), np.array([0]), list(range(n)), list(range(n))[::-1]]:
        ctx.true(("reduced_gaussian ok", str(ok)), lambda: q.reduced_gaussian(mu, V, ok) is not None)
        ctx.true(("reduced_state ok", str(ok)), lambda: sy.reduced_state(mu, V, ok) is not None)
    for s, B in nonsquare(g.unitary(n, 1)):
        ctx.raises(("expand_passive shape", s), lambda: sy.expand_passive(B, list(range(B.shape[0])), n + 2), ValueError)
    for m in range(0, n + 3):
        if m != n:
            ctx.raises(("expand_passive modes", m), lambda: sy.expand_passive(g.unitary(n, 1), list(range(m)), n + 3), ValueError)
    # orderings
    for f in (sy.xxpp_to_xpxp, sy.xpxp_to_xxpp):
        ctx.true((f.__name__,), lambda: f(V) is not None and f(mu) is not None)
        ctx.raises((f.__name__, "odd vector"), lambda: f(mu[:-1]), ValueError)
        ctx.raises((f.__name__, "odd matrix"), lambda: f(V[:-1, :-1]), ValueError)
        for s, B in nonsquare(V):
            ctx.raises((f.__name__, s), lambda: f(B), ValueError)
    # fidelity
    for k in range(4):
        for m in (n - 1, n + 1):
            if m == 0:
                continue
            args = [mu, V, mu, V]
            args[k] = np.zeros(2 * m) if k % 2 == 0 else np.eye(2 * m)
            ctx.raises(("fidelity", k, m), lambda: q.fidelity(*args), ValueError)
        args = [mu, V, mu, V]
        args[k] = args[k][:-1]
        ctx.raises(("fidelity cut", k), lambda: q.fidelity(*args), ValueError)
    # decompositions
    ctx.true(("williamson",), lambda: de.williamson(V) is not None)
    for s, B in nonsquare(V):
        ctx.raises(("williamson", s), lambda: de.williamson(B), ValueError)
    ctx.raises(("williamson odd",), lambda: de.williamson(V[:-1, :-1]), ValueError)
    for i, j in pos(N):
        if i != j:
            for d in (0.2, -1e-2):
                ctx.raises(("williamson asymmetric", i, j, d), lambda: de.williamson(with_entry(V, i, j, V[i, j] + d)), ValueError)
            ctx.true(("williamson rounding", i, j), lambda: de.williamson(with_entry(V, i, j, V[i, j] + 1e-13)) is not None)
        else:
            ctx.raises(("williamson indefinite", i), lambda: de.williamson(with_entry(V, i, i, -0.2)), ValueError)
    ctx.raises(("williamson singular",), lambda: de.williamson(0 * V), ValueError)
    S, J = g.symplectic(n, 2), g.om(n)
    for nm in ("blochmessiah", "iwasawa", "pre_iwasawa"):
        f = getattr(de, nm)
        ctx.true((nm,), lambda: f(S) is not None)
        for i, j in pos(N):
            for d in (0.3, -0.02):
                B = with_entry(S, i, j, S[i, j] + d)
                if np.max(np.abs(B @ J @ B.T - J)) > 1e-3:
                    ctx.raises((nm, i, j, d), lambda: f(B), ValueError)
            ctx.true((nm, "rounding", i, j), lambda: f(with_entry(S, i, j, S[i, j] + 1e-12)) is not None)
        for sc in (0.9, 1.1, -1.05):
            ctx.raises((nm, "scaled", sc), lambda: f(sc * S), ValueError)
    for i, j in pos(N):
        B = with_entry(S, i, j, S[i, j] + 0.01)
        ctx.true(("is_symplectic", i, j), lambda: bool(sy.is_symplectic(B)) == (np.max(np.abs(B @ J @ B.T - J)) < 1e-6))
    ctx.true(("is_symplectic",), lambda: bool(sy.is_symplectic(S)) and bool(sy.is_symplectic(np.eye(N))) and not sy.is_symplectic(1.01 * S))


@unit(UNITS, quick=[dict(n=1), dict(n=2)], thorough=[dict(n=1), dict(n=2), dict(n=3)])
def samplers(ctx, n):
    """Covariance matrices and means given to the samplers."""
    from thewalrus import samples as sm

    mu, V = api.state(0, n)
    fns = [
        ("hafnian_sample_state", lambda c: sm.hafnian_sample_state(c, 1, max_photons=3)),
        ("hafnian_sample_state mean", lambda c: sm.hafnian_sample_state(c, 1, mean=mu, max_photons=3)),
        ("torontonian_sample_state", lambda c: sm.torontonian_sample_state(c, 1)),
        ("torontonian_sample_state mean", lambda c: sm.torontonian_sample_state(c, 1, mu=mu)),
    ]
    for nm, f in fns:
        np.random.seed(2)
        ctx.true((nm,), lambda: f(V) is not None)
        ctx.raises((nm, "list"), lambda: f(V.tolist()), TypeError)
        for s, B in nonsquare(V):
            ctx.raises((nm, s), lambda: f(B), ValueError)
        for i, j in pos(2 * n):
            ctx.raises((nm, "NaN", i, j), lambda: f(with_entry(V, i, j, np.nan)), ValueError)
    for nm, f in (("hafnian_sample_classical_state", sm.hafnian_sample_classical_state), ("torontonian_sample_classical_state", sm.torontonian_sample_classical_state)):
        for hbar in (2, 1, 0.5):
            C = (np.eye(2 * n) * 1.2 + 0.1) * hbar / 2
            ctx.true((nm, hbar), lambda: f(C, 2, hbar=hbar) is not None)
            ctx.true((nm, hbar, "vacuum"), lambda: f(np.eye(2 * n) * hbar / 2, 2, hbar=hbar) is not None)
            for i in range(2 * n):
                ctx.raises((nm, hbar, "squeezed", i), lambda: f(with_entry(C, i, i, 0.9 * hbar / 2), 2, hbar=hbar), ValueError)
            for i, j in pos(2 * n):
                if i < j:
                    ctx.raises((nm, hbar, "correlated", i, j), lambda: f(with_entry(C, i, j, 0.6 * hbar, True), 2, hbar=hbar), ValueError)
            if nm.startswith("hafnian"):
                for m in (0, 2 * n - 1, 2 * n + 1, n):
                    ctx.raises((nm, hbar, "mean", m), lambda: f(C, 2, mean=np.zeros(m), hbar=hbar), ValueError)
                ctx.raises((nm, hbar, "mean matrix"), lambda: f(C, 2, mean=np.zeros((1, 2 * n)), hbar=hbar), ValueError)
