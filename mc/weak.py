"""Gaussian states with few photons for the exploration of the samplers (hbar = 2, xxpp)."""
import itertools
import math

import numpy as np

from mc import gauss as g


def product(rs, phis, nbars, alphas):
    """Squeezed thermal displaced states of independent modes."""
    n = len(rs)
    S = g.sq(rs, phis)
    V = S @ np.diag(np.tile(2 * np.asarray(nbars, dtype=float) + 1, 2)) @ S.T
    a = np.asarray(alphas, dtype=complex)
    return np.concatenate([2 * a.real, 2 * a.imag]), V


def states(n):
    """(name, mu, cov) in increasing complexity."""
    out = []
    z = np.zeros(n)
    if n == 1:
        out += [("vac",) + product([0], [0], [0], [0]), ("coh",) + product([0], [0], [0], [0.4 - 0.3j]),
                ("sqz",) + product([0.5], [0], [0], [0]), ("sqz-rot+d",) + product([-0.4], [0.7], [0], [0.3 + 0.2j]),
                ("thermal",) + product([0], [0], [0.2], [0]), ("sqth+d",) + product([0.3], [1.1], [0.1], [0.2j])]
        mu, V = product([0.6], [0.4], [0], [0.3])
        out.append(("lossy+d",) + g.lossy(mu, V, np.array([0.6])))
        return out
    # product states in every order of the mean photon numbers
    base_r, base_a, base_n = [0.45, 0.2, 0.0, 0.3][:n], [0, 0.1j, 0.25, 0.4][:n], [0, 0, 0, 0.02][:n]
    for p in itertools.permutations(range(n)):
        out.append(("prod%s" % (p,),) + product([base_r[i] for i in p], [0.3 * i for i in p], [base_n[i] for i in p], [base_a[i] for i in p]))
    out.append(("only-first",) + product([0.4] + [0] * (n - 1), z, z, z))
    out.append(("only-last",) + product([0] * (n - 1) + [0.4], z + 1, z, z))
    out.append(("disp-last",) + product([0] * n, z, z, [0] * (n - 1) + [0.5 + 0.2j]))
    out.append(("thermal-first",) + product([0] * n, z, [0.15] + [0.02] * (n - 1), z))
    # entangled
    T = np.eye(2 * n)
    r, i, j = 0.35, 0, n - 1
    c, s = math.cosh(r), math.sinh(r)
    T[i, i] = T[j, j] = T[i + n, i + n] = T[j + n, j + n] = c
    T[i, j] = T[j, i] = s
    T[i + n, j + n] = T[j + n, i + n] = -s
    out.append(("tms", np.zeros(2 * n), T @ T.T))
    for k in (1, 2):
        rs = np.array([0.35, 0.15, -0.3, 0.1][:n]) * (1 if k == 1 else 0.9)
        S = g.passive(g.unitary(n, k + 2)) @ g.sq(rs, 0.3 * np.arange(n))
        P = S @ S.T
        d = np.zeros(2 * n)
        if k == 2:
            d = np.array([0.4, -0.3, 0.2, 0.1, -0.2, 0.3, 0.25, -0.15][: 2 * n])
        out.append(("pure%d" % k, d, P))
        e = np.array([0.7] + [1.0] * (n - 1)) if k == 1 else np.array([1.0] * (n - 1) + [0.6])
        out.append(("lossy%d" % k,) + g.lossy(d, P, e))
    return out


def pattern_probs(mu, cov, top, total=None):
    """{pattern: probability} for all patterns with entries <= top (and bounded total)."""
    n = len(mu) // 2
    out = {}
    for k in itertools.product(range(top + 1), repeat=n):
        if total is None or sum(k) <= total:
            out[k] = float(np.real(g.dm_element(mu, cov, k, k)))
    return out


def single(mu, cov, i, top):
    n = len(mu) // 2
    ix = [i, i + n]
    rho, _ = g.dm_lattice(mu[ix], cov[np.ix_(ix, ix)], top + 1)
    return np.real(np.diag(rho))


def tail(mu, cov, top):
    """Sum over modes of the probability of more than top photons."""
    n = len(mu) // 2
    return float(sum(max(0.0, 1 - single(mu, cov, i, top).sum()) for i in range(n)))


def formed(n):
    """(name, mu, cov, mu0, cov0): the same state handed over in another form, and in plain form (hbar = 2)."""
    from mc import alphabet as al

    one = np.array([(1, 0, -1, 1)[i % 4] for i in range(2 * n)])
    I = np.eye(2 * n, dtype=int)
    yield "int cov", None, I, np.zeros(2 * n), I * 1.0
    yield "int both", one, I, one * 1.0, I * 1.0
    yield "int mean", one, I * 1.0, one * 1.0, I * 1.0
    name, m, V = states(n)[-1]
    for lay in al.LAYOUTS[1:]:
        yield lay, al.layout(m, lay), al.layout(V, lay), m, V
    for nm, d in (("sum0", [0.4 * (-1) ** i for i in range(2 * n)]), ("xp0", [0.3] * n + [-0.3] * n), ("lastp", [0.0] * (2 * n - 1) + [0.6])):
        yield nm, np.array(d), V, np.array(d), V


def sparse_states(n):
    """(name, mu, cov) of many modes, almost all of them vacuum: the populated modes move through all positions."""
    for i in range(n):
        a = np.zeros(n, dtype=complex)
        a[i] = 0.4 - 0.3j
        yield ("coh%d" % i,) + product(np.zeros(n), np.zeros(n), np.zeros(n), a)
        r = np.zeros(n)
        r[i] = 0.4
        yield ("sqz%d" % i,) + product(r, np.arange(n), np.zeros(n), np.zeros(n))
        b = a.copy()
        b[(i + 2) % n] = 0.2j
        b[(i + 1) % n] = -0.3
        yield ("coh3-%d" % i,) + product(np.zeros(n), np.zeros(n), np.zeros(n), b)
        yield ("sqz+coh%d" % i,) + product(r, np.zeros(n), np.zeros(n), np.roll(b, 1))


def product_probs(mu, cov, top, least=1e-12):
    """Pattern probabilities of a product state of many modes, at most top photons per mode."""
    n = len(mu) // 2
    out = {(): 1.0}
    for i in range(n):
        p = single(mu, cov, i, top)
        out = {k + (j,): v * float(x) for k, v in out.items() for j, x in enumerate(p) if v * x > least}
    return out


def product_clicks(mu, cov, least=1e-12):
    n = len(mu) // 2
    out = {(): 1.0}
    for i in range(n):
        ix = [i, i + n]
        p0 = g.click_prob(mu[ix], cov[np.ix_(ix, ix)], (0,))
        out = {k + (j,): v * x for k, v in out.items() for j, x in ((0, p0), (1, 1 - p0)) if v * x > least}
    return out


def bright_states(n):
    """(name, mu, cov, top) of product states with more than twenty photons in one mode."""
    for i in range(n):
        a = np.zeros(n, dtype=complex)
        a[i] = 4.0 - 3.0j
        a[(i + 1) % n] += 0.3 if n > 1 else 0
        yield ("coh%d" % i,) + product(np.zeros(n), np.zeros(n), np.zeros(n), a) + (60,)
        yield ("sqz+coh%d" % i,) + product([0.3 * (j == i) for j in range(n)], np.zeros(n), np.zeros(n), a) + (60,)
