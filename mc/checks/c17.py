"""C17: conversions between covariance, Q, A matrices and displacements."""
import itertools
import math

import numpy as np

from mc import alphabet as al
from mc import gauss as g
from mc.core import unit

PROPERTY = "C17"
LEVEL = "model_checking"
RULE = (
    "states are the representations (covariance or means in one unit of hbar, Q matrix, A matrix, complex amplitudes) of "
    "a Gaussian state, transitions the library's conversions; every sequence of conversions up to the depth is executed "
    "and every representation reached is compared with an independently computed one (one trace per sequence)"
)
ASSUMPTIONS = ["agreement up to 1e-9 relative to the largest entry"]
UNITS = []
HB = (2, 1, 0.5, 1.7, 2.0, 1e-3)


def q_ref(mu, cov):
    _, N, M = g.cplx(mu, cov)
    n = len(N)
    I = np.eye(n)
    return np.block([[N + I, M.conj()], [M, N.conj() + I]])


@unit(UNITS, quick=[dict(n=n) for n in (1, 2, 3, 4, 5, 6, 7, 9)], thorough=[dict(n=n) for n in range(1, 13)])
def sequences(ctx, n):
    """Every sequence of conversions of a covariance matrix up to depth 4 (depth 3 above two modes)."""
    from thewalrus.quantum import conversions as cv

    depth = (5 if n < 3 else 4) + (1 if ctx.thorough else 0)
    hbs = HB if n < 3 else (2, 0.5, 1.7)
    for name, mu0, cov0, pure in g.states(n):
        ref = {("cov", h): cov0 * h / 2 for h in hbs}
        ref["Q"] = q_ref(mu0, cov0)
        ref["A"] = g.husimi(mu0, cov0)[1].conj()  # the library lists the bra indices first
        frontier = [((("start", h),), ("cov", h), cov0 * h / 2) for h in hbs]
        ctx.count(states=len(hbs) + 2)
        for _ in range(depth):
            new = []
            for path, kind, val in frontier:
                steps = []
                if kind == "Q":
                    steps += [(("Covmat", h), ("cov", h), lambda h=h: cv.Covmat(val, hbar=h)) for h in hbs]
                    steps.append((("AmatQ",), "A", lambda: cv.Amat(val, cov_is_qmat=True)))
                    steps.append((("AmatQ", "hbar"), "A", lambda: cv.Amat(val, hbar=0.3, cov_is_qmat=True)))
                elif kind != "A":
                    h = kind[1]
                    steps.append((("Qmat",), "Q", lambda: cv.Qmat(val, hbar=h)))
                    steps.append((("Amat",), "A", lambda: cv.Amat(val, hbar=h)))
                    if h == 2:
                        steps.append((("Qmat", "default"), "Q", lambda: cv.Qmat(val)))
                        steps.append((("Amat", "default"), "A", lambda: cv.Amat(val)))
                for st, k2, fn in steps:
                    box = {}

                    def run():
                        box["v"] = fn()
                        return box["v"]

                    p2 = path + (st,)
                    ctx.eq((n, name, p2), run, ref[k2], tol=1e-9, zero_scale=1e-3)
                    ctx.count(transitions=1, traces=1)
                    if "v" in box and k2 != "A":
                        new.append((p2, k2, box["v"]))
            frontier = new


@unit(UNITS, quick=[dict(n=n) for n in (1, 2, 3, 4, 5, 6, 8)], thorough=[dict(n=n) for n in range(1, 11)])
def structure(ctx, n):
    """Xmat, the block form of A, and the A matrix of pure states against its closed form."""
    from thewalrus.quantum import conversions as cv

    O, I = np.zeros((n, n)), np.eye(n)
    ctx.eq((n, "X"), lambda: cv.Xmat(n), np.block([[O, I], [I, O]]), tol=0)
    for name, mu, cov, pure in g.states(n):
        for h in (2, 0.7):
            for lay in al.LAYOUTS:
                V = al.layout(cov * h / 2, lay)
                ctx.eq((n, name, h, lay, "Q"), lambda: cv.Qmat(V, hbar=h), q_ref(mu, cov), tol=1e-10)

                def blocks():
                    A = cv.Amat(V, hbar=h)
                    if np.abs(A - A.T).max() > 1e-9:
                        return "A is not symmetric"
                    if np.abs(A[:n, :n] - A[n:, n:].conj()).max() > 1e-9 or np.abs(A[n:, :n] - A[:n, n:].conj()).max() > 1e-9:
                        return "A does not have the block form [[B, C], [C*, B*]]"
                    if pure and np.abs(A[:n, n:]).max() > 1e-9:
                        return "the A matrix of a pure state has a non-zero C block"

                ctx.true((n, name, h, lay, "blocks"), blocks)
    for k in range(6):
        rs = np.array([0.3 + 0.2 * i for i in range(n)]) * (-1) ** k
        U = g.unitary(n, k)
        S = g.passive(U) @ g.sq(rs)
        B = U @ np.diag(-np.tanh(rs)) @ U.T  # <n|psi> of squeezers exp(r/2 (a^2 - a^dag^2)) followed by a^dag -> U a^dag
        for h in (2, 1, 0.3):
            ctx.eq((n, k, h, "pure"), lambda: cv.Amat(S @ S.T * h / 2, hbar=h), np.block([[B.conj(), 0 * B], [0 * B, B]]), tol=1e-9)
    I2 = 3 * np.eye(2 * n, dtype=int)
    ctx.eq((n, "int", "Q"), lambda: cv.Qmat(I2), 2 * np.eye(2 * n), tol=1e-12)
    ctx.eq((n, "int", "A"), lambda: cv.Amat(I2), np.block([[O, I / 2], [I / 2, O]]), tol=1e-12)
    ctx.eq((n, "int", "cov"), lambda: cv.Covmat(2 * np.eye(2 * n, dtype=int)), 3 * np.eye(2 * n), tol=1e-12)


@unit(UNITS, quick=[dict(n=n) for n in (1, 2, 3, 4, 5, 6)], thorough=[dict(n=n) for n in range(1, 9)])
def displacements(ctx, n):
    """Round trips of the displacement conversions for every pair of units."""
    from thewalrus.quantum import conversions as cv

    vecs = [("unit%d" % i, np.eye(2 * n)[i]) for i in range(2 * n)]
    vecs += [("zero", np.zeros(2 * n)), ("count", np.arange(1.0, 2 * n + 1)), ("int", np.arange(1, 2 * n + 1)), ("mixed", np.array([(-1) ** i * 0.3 * (i + 1) for i in range(2 * n)]))]
    for name, mu in vecs:
        for h in HB:
            a = (mu[:n] + 1j * mu[n:]) / math.sqrt(2 * h)
            beta = np.concatenate([a, a.conj()])
            ctx.eq((n, name, h, "to complex"), lambda: cv.complex_to_real_displacements(mu, hbar=h), beta, tol=1e-12)
            ctx.eq((n, name, h, "to real"), lambda: cv.real_to_complex_displacements(beta, hbar=h), mu, tol=1e-12)
            for h2 in HB:
                ctx.eq((n, name, h, h2, "trip"), lambda: cv.real_to_complex_displacements(cv.complex_to_real_displacements(mu, hbar=h), hbar=h2), mu * math.sqrt(h2 / h), tol=1e-12)
                ctx.count(transitions=2, traces=1)
            ctx.count(states=1)
        if True:
            ctx.eq((n, name, "default"), lambda: cv.complex_to_real_displacements(2 * mu), np.concatenate([mu[:n] + 1j * mu[n:], mu[:n] - 1j * mu[n:]]), tol=1e-12)
            ctx.eq((n, name, "default trip"), lambda: cv.real_to_complex_displacements(cv.complex_to_real_displacements(mu)), mu, tol=1e-12)
