"""Reference models of Gaussian states, independent of thewalrus.

Ordering is xxpp everywhere.  States are built with hbar = 2 and rescaled with `to_hbar`."""
import itertools
import math

import numpy as np
from scipy.linalg import expm

from mc import alphabet as al
from mc import oracles as orc


def om(n):
    I = np.eye(n)
    return np.block([[0 * I, I], [-I, 0 * I]])


def passive(U):
    U = np.asarray(U)
    return np.block([[U.real, -U.imag], [U.imag, U.real]])


def sq(rs, phis=None):
    """Squeezers exp(r/2 (e^{-i phi} a^2 - e^{i phi} a^dag^2)) on each mode."""
    rs = np.asarray(rs, dtype=float)
    n = len(rs)
    phis = np.zeros(n) if phis is None else np.asarray(phis, dtype=float)
    c, s = np.diag(np.cosh(rs)), np.sinh(rs)
    return np.block([[c - np.diag(s * np.cos(phis)), -np.diag(s * np.sin(phis))],
                     [-np.diag(s * np.sin(phis)), c + np.diag(s * np.cos(phis))]])


def unitary(n, k):
    """A fixed unitary number k on n modes."""
    if k == 0 or n == 0:
        return np.eye(n, dtype=complex)
    if k == 1:
        w = np.exp(2j * np.pi / n)
        return np.array([[w ** (i * j) for j in range(n)] for i in range(n)]) / math.sqrt(n)
    q, _ = np.linalg.qr(al.mat_gauss(n, n, k) + 0.3 * np.eye(n))
    return q


def angle(*a):
    return al.ent(-31, 31, *a) / 10.0


def frac(*a):
    return al.ent(1, 9, *a) / 10.0


def symplectic(n, k, scale=0.6):
    """A fixed generic symplectic matrix number k."""
    rs = np.array([scale * frac(5, k, i) for i in range(n)])
    return passive(unitary(n, 3 * k + 2)) @ sq(rs) @ passive(unitary(n, 3 * k + 4))


def lossy(mu, cov, etas, nbar=0.0):
    """Loss channels on every mode (hbar=2)."""
    e = np.sqrt(np.concatenate([etas, etas]))
    nb = np.broadcast_to(np.asarray(nbar, dtype=float), (len(etas),))
    nb = np.concatenate([nb, nb])
    return mu * e, (cov * e) * e[:, None] + np.diag((1 - e ** 2) * (2 * nb + 1))


def states(n, disp=True, which=None):
    """(name, mu, cov, pure) with hbar=2, from the simplest to generic ones."""
    out = []
    z = np.zeros(2 * n)
    d = np.array([0.5 * frac(77, i) * (-1) ** i for i in range(2 * n)])

    def add(name, mu, cov, pure):
        out.append((name, mu, cov, pure))

    V0 = np.eye(2 * n)
    rs = np.array([0.2 + 0.15 * i for i in range(n)]) * np.array([(-1) ** i for i in range(n)])
    nb = np.array([0.1 + 0.25 * i for i in range(n)])
    add("vac", z, V0, True)
    if disp:
        add("coh", d, V0, True)
    S = sq(rs, [0.4 * i for i in range(n)])
    add("sq", z, S @ S.T, True)
    add("thermal", z, np.diag(np.tile(2 * nb + 1, 2)), False)
    S = symplectic(n, 1)
    P = S @ S.T
    add("pure", z, P, True)
    if disp:
        add("pure+d", d, P, True)
        dd = d.copy()
        dd[n:] = 0
        add("pure+x", dd, P, True)
        dd = d.copy()
        dd[:n] = 0
        add("pure+p", dd, P, True)
        dd = 0 * d
        dd[-1] = 0.7
        add("coh-last", dd, V0, True)
        if n > 1:
            dd = d.copy()
            dd[0] = dd[n] = 0
            add("pure+d1", dd, P, True)
            # displacements that cancel in the sum over modes
            dd = 0 * d
            dd[0], dd[1], dd[n], dd[n + 1] = 0.4, -0.4, 0.3, -0.3
            add("pure+c", dd, P, True)
    M = S @ np.diag(np.tile(2 * nb + 1, 2)) @ S.T
    add("mixed", z, M, False)
    if disp:
        add("mixed+d", d, M, False)
    etas = np.array([0.9 - 0.2 * (i % 4) for i in range(n)])
    mu, cov = lossy(d, P, etas)
    add("lossy", z, cov, False)
    if disp:
        add("lossy+d", mu, cov, False)
        mu, cov = lossy(d, np.diag(np.tile(2 * nb + 1, 2)), etas, nbar=0.3)
        add("classical+d", mu, cov, False)
    if n > 1:
        # loss in the last mode only
        mu, cov = lossy(d * disp, P, np.array([1.0] * (n - 1) + [0.6]))
        add("lossy-last", mu, cov, False)
        # two-mode entangled pair, other modes vacuum or thermal
        r = 0.45
        S2 = passive(unitary(n, 0))
        T = np.eye(2 * n)
        i, j = 0, n - 1
        c, s = math.cosh(r), math.sinh(r)
        T[i, i] = T[j, j] = T[i + n, i + n] = T[j + n, j + n] = c
        T[i, j] = T[j, i] = s
        T[i + n, j + n] = T[j + n, i + n] = -s
        add("tms", z, T @ S2 @ T.T, True)
        # one mode decoupled and vacuum
        D = symplectic(n - 1, 2)
        idx = list(range(1, n)) + list(range(n + 1, 2 * n))
        V = np.eye(2 * n)
        V[np.ix_(idx, idx)] = D @ D.T
        add("part-vac", z, V, True)
    if which is not None:
        out = [o for o in out if o[0] in which]
    return out


def to_hbar(mu, cov, hbar):
    return mu * math.sqrt(hbar / 2), cov * (hbar / 2)


def cplx(mu, cov):
    """(alpha, N, M) with N_ij = <a_i^dag a_j>_c, M_ij = <a_i a_j>_c, hbar = 2."""
    n = len(mu) // 2
    x, p = cov[:n, :n], cov[n:, n:]
    xp = cov[:n, n:]
    alpha = (mu[:n] + 1j * mu[n:]) / 2
    # a = (x + i p)/2 ; symmetrised covariances
    N = (x + p + 1j * (xp - xp.T)) / 4 - np.eye(n) / 2
    M = (x - p + 1j * (xp + xp.T)) / 4
    return alpha, N, M


def husimi(mu, cov):
    """(prefactor, A, gamma) such that <n|rho|m> = pref / sqrt(n! m!) * lhaf of A with diagonal gamma,
    rows 0..n-1 repeated n times (ket index) and rows n..2n-1 repeated m times."""
    alpha, N, M = cplx(mu, cov)
    n = len(alpha)
    I = np.eye(n)
    # covariance of the Q function for (a, a*): E[z z^H] with z = (a, a^*)
    S = np.block([[N.T + I, M], [M.conj(), N + I]])
    Si = np.linalg.inv(S)
    z = np.concatenate([alpha, alpha.conj()])
    # Q(b) = exp(-1/2 (b-z)^H Si (b-z)) / sqrt(det S) ; e^{|b|^2} Q(b) generates the matrix elements in
    # (conj(b) for the ket index, b for the bra index)
    X = np.block([[0 * I, I], [I, 0 * I]])
    K = np.eye(2 * n) - Si  # quadratic form 1/2 w^H K w with w = (b, b*)
    A = X @ K
    # w^H = (X w)^T, linear term: 1/2 (w^H Si z + z^H Si w) = w^T X Si z (z is of the form (a, a*))
    lin = X @ Si @ z
    pref = (np.exp(-0.5 * (z.conj() @ Si @ z)) / np.sqrt(np.linalg.det(S))).real
    # variables: first n entries of w are b (bra), last n are b* (ket): swap so that ket comes first
    perm = list(range(n, 2 * n)) + list(range(n))
    A = A[np.ix_(perm, perm)]
    return pref, (A + A.T) / 2, lin[perm]


def dm_lattice(mu, cov, cutoff):
    """rho[k_1..k_n, b_1..b_n] and the number of recursion transitions; hbar = 2."""
    n = len(mu) // 2
    pref, A, g = husimi(mu, cov)
    H, tr = orc.lhaf_lattice(A, g, (cutoff,) * (2 * n))
    f = np.sqrt(np.array([math.factorial(k) for k in range(cutoff)], dtype=float))
    for ax in range(2 * n):
        sh = [1] * (2 * n)
        sh[ax] = cutoff
        H = H / f.reshape(sh)
    return pref * H, tr


def dm_element(mu, cov, k, b):
    pref, A, g = husimi(mu, cov)
    v = orc.haf_reps(A, tuple(k) + tuple(b), g)
    return pref * v / math.sqrt(orc.factorials(k) * orc.factorials(b))


def vac_prob(mu, cov, modes):
    """Probability that all of `modes` are in vacuum, from the overlap of Gaussian Wigner functions; hbar=2."""
    n = len(mu) // 2
    modes = list(modes)
    if not modes:
        return 1.0
    ix = modes + [m + n for m in modes]
    V = (cov[np.ix_(ix, ix)] + np.eye(len(ix))) / 2
    m = mu[ix]
    return float(np.exp(-0.25 * m @ np.linalg.solve(V, m)) / np.sqrt(np.linalg.det(V)))


def click_prob(mu, cov, pattern):
    """Threshold outcome probability by inclusion and exclusion."""
    on = [i for i, c in enumerate(pattern) if c]
    off = [i for i, c in enumerate(pattern) if not c]
    s = 0.0
    for r in range(len(on) + 1):
        for Z in itertools.combinations(on, r):
            s += (-1) ** r * vac_prob(mu, cov, off + list(Z))
    return s


# ---------------------------------------------------------------- Fock-space simulation by truncation
BIG = 90


def lower(D):
    return np.diag(np.sqrt(np.arange(1, D)), 1)


_cache = {}


def fock_displacement(alpha, D):
    key = ("D", complex(alpha), D)
    if key not in _cache:
        a = lower(max(BIG, 2 * D))
        _cache[key] = expm(alpha * a.T - np.conj(alpha) * a)[:D, :D]
    return _cache[key]


def fock_squeezing(r, phi, D):
    key = ("S", r, phi, D)
    if key not in _cache:
        a = lower(max(BIG, 2 * D))
        z = r * np.exp(1j * phi)
        _cache[key] = expm(0.5 * (np.conj(z) * a @ a - z * a.T @ a.T))[:D, :D]
    return _cache[key]


def fock_rotation(theta, D):
    return np.diag(np.exp(1j * theta * np.arange(D)))


def fock_passive2(U, D):
    """<m,n|W|p,q> of the two-mode passive gate a_j^dag -> sum_i U_ij a_i^dag as a D^4 array [m,n,p,q]."""
    key = ("P", np.asarray(U).tobytes(), D)
    if key not in _cache:
        W = np.zeros((D, D, D, D), dtype=complex)
        for p in range(D):
            for q in range(D):
                amps, _, _ = orc.fock_evolve(U, (p, q))
                for (m, n), v in amps.items():
                    if m < D and n < D:
                        W[m, n, p, q] = v
        _cache[key] = W
    return _cache[key]


def bs_unitary(theta, phi):
    return np.array([[math.cos(theta), -np.exp(-1j * phi) * math.sin(theta)],
                     [np.exp(1j * phi) * math.sin(theta), math.cos(theta)]])


def fock_loss_kraus(eta, D):
    """Kraus operators of the loss channel."""
    a = lower(D)
    out = []
    A = np.eye(D)
    for l in range(D):
        K = np.diag(np.sqrt(eta) ** np.arange(D)) @ A * math.sqrt((1 - eta) ** l / math.factorial(l))
        out.append(K)
        A = A @ a
    return out


def apply1(psi, M, ax):
    return np.moveaxis(np.tensordot(M, psi, axes=(1, ax)), 0, ax)


def apply2(psi, W, i, j):
    return np.moveaxis(np.tensordot(W, psi, axes=((2, 3), (i, j))), (0, 1), (i, j))


# ---------------------------------------------------------------- exact Fock matrix elements (normal-ordered forms)
def _exp_raise(c, D):
    """exp(c a^dag) truncated to D (exact: the factor is lower triangular)."""
    M = np.zeros((D, D), dtype=complex)
    for n in range(D):
        for k in range(D - n):
            M[n + k, n] = c ** k / math.factorial(k) * math.sqrt(math.factorial(n + k) / math.factorial(n))
    return M


def _exp_raise2(c, D):
    """exp(c a^dag^2) truncated to D (exact)."""
    M = np.zeros((D, D), dtype=complex)
    for n in range(D):
        for k in range((D - 1 - n) // 2 + 1):
            M[n + 2 * k, n] = c ** k / math.factorial(k) * math.sqrt(math.factorial(n + 2 * k) / math.factorial(n))
    return M


def exact_displacement(alpha, D):
    alpha = complex(alpha)
    return np.exp(-abs(alpha) ** 2 / 2) * _exp_raise(alpha, D) @ _exp_raise(-alpha, D).conj().T


def exact_squeezing(r, phi, D):
    t = np.exp(1j * phi) * math.tanh(r)
    mid = np.diag((1 / math.cosh(r)) ** (np.arange(D) + 0.5))
    return _exp_raise2(-t / 2, D) @ mid @ _exp_raise2(t / 2, D).conj().T


def exact_two_mode_squeezing(r, theta, D):
    """exp(r (e^{i theta} a^dag b^dag - h.c.)) as [m, n, p, q] = <m, n| . |p, q>."""
    z = np.exp(1j * theta) * math.tanh(r)
    s = 1 / math.cosh(r)
    R = np.zeros((D,) * 4, dtype=complex)  # exp(z a^dag b^dag)
    for p in range(D):
        for q in range(D):
            for k in range(D - max(p, q)):
                R[p + k, q + k, p, q] = z ** k / math.factorial(k) * math.sqrt(
                    math.factorial(p + k) * math.factorial(q + k) / (math.factorial(p) * math.factorial(q)))
    n = np.arange(D)
    mid = s ** (1 + n[:, None] + n[None, :])
    L = R.copy()
    # exp(-z^* a b) is the adjoint of exp(-z a^dag b^dag)
    sign = np.zeros((D,) * 4)
    for k in range(D):
        for p in range(D - k):
            for q in range(D - k):
                sign[p + k, q + k, p, q] = (-1) ** k
    L = (L * sign).conj().transpose(2, 3, 0, 1)
    return np.einsum("mnab,ab,abpq->mnpq", R, mid, L)


def mz_unitary(theta, phi):
    v, u = np.exp(1j * theta), np.exp(1j * phi)
    return 0.5 * np.array([[u * (v - 1), 1j * (1 + v)], [1j * u * (1 + v), 1 - v]])


def weak_states(n):
    """(name, mu, cov, pure) with small displacements and small squeezing, pure and lossy (hbar=2)."""
    U = passive(unitary(n, 2))
    for r in (0.0, 1e-6, 1e-4, 1e-2, 0.4):
        for d in (0.0, 3e-7, 1e-5, 1e-3, 0.3):
            if r == 0.4 and d == 0.3:
                continue
            S = U @ sq([r * (1 + 0.5 * i) for i in range(n)])
            mu = 2 * d * np.array([frac(6, i) + 0.1 for i in range(2 * n)])
            cov = S @ S.T
            yield "r%g d%g" % (r, d), mu, cov, True
            if d:
                e = np.zeros(2 * n)
                e[2 * n - 1] = 2 * d
                yield "r%g d%g last" % (r, d), e, cov, True
            if r in (1e-4, 1e-2, 0.4) and d in (0.0, 1e-5):
                m2, c2 = lossy(mu, cov, [0.5 + 0.4 * i / n for i in range(n)])
                yield "r%g d%g lossy" % (r, d), m2, c2, False


def formed(n):
    """(name, mu, cov, pure) in other layouts, dtypes and magnitudes than the states above (hbar=2)."""
    z = np.zeros(2 * n)
    C = 3 * np.eye(2 * n, dtype=int)
    for i in range(2 * n - 1):
        C[i, i + 1] = C[i + 1, i] = (1, -1, 0)[i % 3]
    m = np.array([(1, 0, -1, 2)[i % 4] for i in range(2 * n)])
    yield "int cov", z, C, False
    yield "int both", m, C, False
    yield "int mean", m, C * 1.0, False
    yield "int vac", m, np.eye(2 * n, dtype=int), True
    S = symplectic(n, 3, 0.5)
    P = S @ S.T
    d = np.array([0.4 * frac(79, i) * (-1) ** (i // 2) for i in range(2 * n)])
    m2, L = lossy(d, P, [0.8 - 0.1 * (i % 3) for i in range(n)])
    for lay in al.LAYOUTS[1:]:
        yield "pure " + lay, al.layout(d, lay), al.layout(P, lay), True
        yield "lossy " + lay, al.layout(m2, lay), al.layout(L, lay), False
    yield "pure F vs C", d, np.asfortranarray(P), True
    for nm, v in (("equal", np.full(2 * n, 0.5)), ("sum0", np.array([0.4 * (-1) ** i for i in range(2 * n)])), ("first", np.eye(2 * n)[0] * 0.6),
                  ("lastx", np.eye(2 * n)[n - 1] * 0.6), ("lastp", -np.eye(2 * n)[2 * n - 1] * 0.6), ("xp0", np.concatenate([np.full(n, 0.3), np.full(n, -0.3)]))):
        yield "pure " + nm, v, P, True
        yield "lossy " + nm, v, L, False
    nb = np.array([4.0, 0.0, 11.0, 0.5][:n] + [1.0] * (n - 4))
    H = S @ np.diag(np.tile(2 * nb + 1, 2)) @ S.T
    yield "hot", z, H, False
    yield "hot+d", 8 * d, H, False
    yield "bright", np.array([(3.0, -2.0, 1.0, 0.0)[i % 4] for i in range(2 * n)]), np.eye(2 * n), True
    G = sq([0.0] * (n - 1) + [1.3])
    yield "strong last", 3 * d, G @ G.T, True
    G = passive(unitary(n, 3)) @ sq([1.1 * (-1) ** i for i in range(n)])
    yield "strong", d, G @ G.T, True
