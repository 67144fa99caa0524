"""C20: encodings of graphs with a requested mean photon or click number."""
import itertools
import math

import numpy as np

from mc import alphabet as al
from mc import gauss as g
from mc.core import unit

PROPERTY = "C20"
LEVEL = "exploration"
RULE = (
    "every labelled graph up to 4 vertices, every isomorphism class with 5 and 6 vertices, weighted, complex and singular "
    "matrices, each for every mean of a grid; the mean of the encoded state is recomputed from its covariance matrix"
)
ASSUMPTIONS = ["means agree up to 1e-5 relative"]
UNITS = []
MEANS = (0.01, 0.3, 1.0, 2.5, 10.0)


def matrices(n):
    if n <= 4:
        for bits, A in al.graphs(n):
            yield "graph" + "".join(map(str, bits)), A
    elif n <= 6:
        for code, A in al.graph_classes(n):
            yield "class%d" % code, A
    for name, A in al.sym_families(n):
        yield name, A
    if n <= 6:
        for s in (1e-3, 30.0):
            yield "scaled%g" % s, s * al.sym_gauss(n, 3)


def cov_of(B):
    """hbar=2 covariance of the pure state with amplitudes haf(B_n), through its moments (<a^dag a>, <a a>)."""
    n = len(B)
    I = np.eye(n)
    K = np.linalg.inv(I - B.conj() @ B)  # of the conjugate ordering
    N = (K @ B.conj() @ B)  # <a_i^dag a_j>
    M = (np.linalg.inv(I - B @ B.conj()) @ B)  # <a_i a_j>
    N = N.conj() if False else N
    x = 2 * (N.real + M.real) + I
    p = 2 * (N.real - M.real) + I
    xp = 2 * (M.imag + N.imag)
    return np.block([[x, xp], [xp.T, p]])


def mean_of(V):
    n = len(V) // 2
    return (np.trace(V) - 2 * n) / 4


def clicks_of(V):
    n = len(V) // 2
    return sum(1 - g.vac_prob(np.zeros(2 * n), V, [i]) for i in range(n))


@unit(UNITS, quick=[dict(n=n) for n in (1, 2, 3, 4, 5, 6, 9)], thorough=[dict(n=n) for n in (1, 2, 3, 4, 5, 6, 8, 9, 12)])
def photons(ctx, n):
    from thewalrus import quantum as qm
    from thewalrus.quantum import adjacency_matrices as am

    for name, A in matrices(n):
        sv = np.linalg.svd(A, compute_uv=False)
        if sv[0] < 1e-6:
            ctx.raises((n, name, "zero"), lambda: am.adj_scaling(A, 1.0), ValueError)
            ctx.raises((n, name, "zero", "qmat"), lambda: am.adj_to_qmat(A, 1.0), ValueError)
            continue
        for mean in MEANS:
            box = {}

            def scale():
                box["s"] = s = am.adj_scaling(A, mean)
                x = (s * sv) ** 2
                if not 0 < s * sv[0] < 1:
                    return "scaling %r is outside the physical range" % s
                got = np.sum(x / (1 - x))
                if abs(got - mean) > 1e-5 * mean:
                    return "mean photon number %r instead of %r" % (got, mean)

            ctx.true((n, name, mean, "scaling"), scale, data=A)
            if "s" not in box:
                continue
            B = box["s"] * np.asarray(A, dtype=complex)

            def state():
                Q = np.asarray(am.adj_to_qmat(A, mean))
                V = qm.Covmat(Q)
                if abs(np.trace(Q).real / 2 - n - mean) > 1e-5 * max(1, mean):
                    return "trace of Q gives mean %r" % (np.trace(Q).real / 2 - n)
                if abs(mean_of(V) - mean) > 1e-5 * max(1, mean):
                    return "covariance has mean %r" % mean_of(V)
                if np.abs(g.om(n) @ V @ g.om(n) @ V + np.eye(2 * n)).max() > 1e-6 * np.abs(V).max() ** 2:
                    return "the encoded state is not pure"
                H = g.husimi(np.zeros(2 * n), V)[1]  # ket indices first
                if np.abs(H[:n, :n] - B).max() > 1e-6 or np.abs(H[:n, n:]).max() > 1e-6 or np.abs(H[n:, n:] - B.conj()).max() > 1e-6:
                    return "the encoded state does not have the scaled graph as its A matrix"

            if mean <= 2.5 or n < 4:
                ctx.true((n, name, mean, "state"), state, data=A)
    for f in (am.adj_to_qmat,):
        ctx.raises((n, "rect"), lambda: f(np.ones((n, n + 1)), 1.0), ValueError)


@unit(UNITS, quick=[dict(n=n) for n in (1, 2, 3, 4, 5, 7)], thorough=[dict(n=n) for n in (1, 2, 3, 4, 5, 6, 7, 9)])
def clicks(ctx, n):
    from thewalrus.quantum import adjacency_matrices as am

    for name, A in matrices(n):
        sv = np.linalg.svd(A, compute_uv=False)
        if sv[0] < 1e-6:
            continue

        def at(x):
            return clicks_of(cov_of(x / sv[0] * np.asarray(A, dtype=complex)))

        top = at(1 - 1e-7)  # reachable mean click number, up to about 1e-3
        for f in (0.05, 0.3, 0.6, 0.9):
            c = f * top

            def scale():
                s = am.adj_scaling_torontonian(A, c)
                if not 0 < s * sv[0] < 1:
                    return "scaling %r is outside the physical range" % s
                got = at(s * sv[0])
                if abs(got - c) > 1e-5:
                    return "mean click number %r instead of %r" % (got, c)

            ctx.true((n, name, f), scale, data=A)
        for c in (-0.1, -1, n + 0.1, n + 1):
            ctx.raises((n, name, c, "range"), lambda: am.adj_scaling_torontonian(A, c), ValueError)
        if top < n - 0.05 and at(1 - 1e-10) - top < 1e-3:  # converged to the supremum
            for c in (0.5 * (top + 0.02 + n), n - 0.01):
                ctx.raises((n, name, c, "unreachable"), lambda: am.adj_scaling_torontonian(A, c), ValueError, data=A)


@unit(UNITS, quick=[dict(n=n) for n in (1, 2, 3, 4, 5, 7)], thorough=[dict(n=n) for n in range(1, 9)])
def thermal(ctx, n):
    """Thermal encodings: positive semidefinite matrices, all scales."""
    from thewalrus import csamples as cs

    pool = [("ident", np.eye(n)), ("ones", np.ones((n, n))), ("diag", np.diag(1.0 + np.arange(n)))]
    for k in range(6):
        B = al.mat_int(n, max(1, n - k % 3), k) + 0.0
        pool.append(("gram%d" % k, B @ B.T + (0.5 * np.eye(n) if k % 2 else 0)))
    pool += [("int", (n + 1) * np.eye(n, dtype=int) + 1), ("small", 1e-2 * np.eye(n)), ("large", 1e2 * (np.eye(n) + 1))]
    for name, A in pool:
        if np.abs(A).max() == 0:
            continue
        for mean in MEANS:
            for scale in (None, 1.0, 0.5, 2.0, 3):
                def chk():
                    if scale is None:
                        ls, O = cs.rescale_adjacency_matrix_thermal(A, mean)
                        sc = 1.0
                    else:
                        ls, O = cs.rescale_adjacency_matrix(A, mean, scale)
                        sc = scale
                    if np.any(ls < 0) or np.any(sc * ls >= 1):
                        return "eigenvalues %s outside [0, 1)" % (sc * ls)
                    got = np.sum(sc * ls / (1 - sc * ls))
                    if abs(got - mean) > 1e-5 * mean:
                        return "mean photon number %r instead of %r" % (got, mean)
                    if np.abs(O @ O.T - np.eye(n)).max() > 1e-9:
                        return "O is not orthogonal"
                    R = (O * ls) @ O.T
                    t = np.trace(R) / np.trace(A)
                    if np.abs(R - t * A).max() > 1e-7 * max(1, np.abs(t * A).max()):
                        return "the rescaled matrix is not proportional to A"

                ctx.true((n, name, mean, scale), chk, data=A)
    if n > 1:
        neg = np.ones((n, n)) - np.eye(n)
        asym = np.eye(n) * 3
        asym[0, 1] = 0.5
        for f in (lambda M, **k: cs.rescale_adjacency_matrix_thermal(M, 1.0, **k), lambda M, **k: cs.rescale_adjacency_matrix(M, 1.0, 0.7, **k)):
            ctx.raises((n, "negative"), lambda: f(neg), AssertionError)
            ctx.raises((n, "asymmetric"), lambda: f(asym), AssertionError)
            ctx.raises((n, "asymmetric, positivity off"), lambda: f(asym, check_positivity=False), AssertionError)
            ctx.raises((n, "negative, symmetry off"), lambda: f(neg, check_symmetry=False), AssertionError)
            ctx.true((n, "asymmetric, tolerated"), lambda: len(f(asym, atol=1.0)[0]) == n)
            ctx.true((n, "asymmetric, symmetry off"), lambda: len(f(asym, check_symmetry=False)[0]) == n)


SCALES = (1e-6, 1e-4, 1e3, 1e6, 1e9, 1e12)


@unit(UNITS, quick=[dict(n=n) for n in (1, 2, 3, 5, 8)])
def scales(ctx, n):
    """Tiny and huge weights: the requested mean is reached whatever the unit the weights are given in."""
    from thewalrus import csamples as cs
    from thewalrus.quantum import adjacency_matrices as am

    for k, A in enumerate((al.sym_gauss(n, 3), al.sym_real(n, 2), np.ones((n, n)) + np.diag(np.arange(n)))):
        sv = np.linalg.svd(A, compute_uv=False)
        for f in SCALES:
            for mean in (1e-6, 0.01, 0.3, 2.5, 10.0, 1e3):
                def photon():
                    x = (am.adj_scaling(f * A, mean) * f * sv) ** 2
                    got = np.sum(x / (1 - x))
                    if not np.all(x < 1) or not abs(got - mean) < 1e-5 * mean:
                        return "mean photon number %r instead of %r" % (got, mean)

                ctx.true((n, k, f, mean, "photons"), photon)

                def qmat():
                    got = np.trace(np.asarray(am.adj_to_qmat(f * A, mean))).real / 2 - n
                    if not abs(got - mean) < 1e-5 * mean + 1e-12:
                        return "mean photon number %r instead of %r" % (got, mean)

                ctx.true((n, k, f, mean, "qmat"), qmat)

                def heat(P, c):
                    ls, O = cs.rescale_adjacency_matrix(f * P, mean, c)
                    got = np.sum(c * ls / (1 - c * ls))
                    if np.any(ls < 0) or np.any(c * ls >= 1) or not abs(got - mean) < 1e-5 * mean:
                        return "mean photon number %r instead of %r" % (got, mean)
                    R = (O * ls) @ O.T
                    t = np.trace(R) / np.trace(P)
                    if not np.abs(R - t * P).max() < 1e-7 * np.abs(t * P).max():
                        return "the rescaled matrix is not proportional to A"

                if f > 1:
                    for c in (1.0, 0.5, 2.0):
                        ctx.true((n, k, f, mean, c, "thermal"), lambda: heat(A.real @ A.real.T + 0.1 * np.eye(n), c))
            top = clicks_of(cov_of((1 - 1e-7) / sv[0] * np.asarray(A, dtype=complex)))
            for q in (0.01, 0.3, 0.8):
                def click():
                    got = clicks_of(cov_of(am.adj_scaling_torontonian(f * A, q * top) * f * np.asarray(A, dtype=complex)))
                    if not abs(got - q * top) < 1e-5:
                        return "mean click number %r instead of %r" % (got, q * top)

                ctx.true((n, k, f, q, "clicks"), click)
