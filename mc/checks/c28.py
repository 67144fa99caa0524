"""C28: laws of the total photon number."""
import itertools
import math

import numpy as np

from mc import gauss as g
from mc.core import unit

PROPERTY = "C28"
LEVEL = "model_checking"
RULE = (
    "states are the photon numbers below the convergence cutoff, transitions the pair-creation and photon-loss events of "
    "the reference chains (and the lowering steps of the pattern lattice); every total below the cutoff is compared for "
    "every parameter set, state, hbar, cutoff and padding (one trace per compared value)"
)
ASSUMPTIONS = [
    "the reference chains are cut at a pair number where the remaining mass is below 1e-13",
    "agreement up to 1e-9 relative to the largest probability, and 1e-6 relative per probability above 1e-12",
]
UNITS = []
HB = (2, 1, 0.5, 1.7, 0.1)


def pairs_law(s, top):
    """P(2m photons) of one squeezed mode, by its recursion."""
    t2 = math.tanh(s) ** 2
    p = np.zeros(2 * top + 1)
    p[0] = 1 / math.cosh(s)
    for m in range(1, top + 1):
        p[2 * m] = p[2 * m - 2] * t2 * (2 * m - 1) / (2 * m)
    return p


def lose(p, eta):
    """Thinning: each photon survives with probability eta.  Returns (law, transitions)."""
    n = len(p)
    out = np.zeros(n)
    for m in range(n):
        if p[m] == 0:
            continue
        b = np.array([math.comb(m, k) * eta ** k * (1 - eta) ** (m - k) if m < 900 else 0.0 for k in range(m + 1)])
        out[: m + 1] += p[m] * b
    return out, n * n // 4


def need(s):
    t2 = math.tanh(s) ** 2
    return 2 if t2 == 0 else min(int(math.log(1e-17) / math.log(t2)) + 8, 400)


PAR = [dict(s=s) for s in (0.0, 1e-4, 0.1, 0.4, 0.88, 1.3, -0.5)]


@unit(UNITS, quick=PAR, thorough=PAR + [dict(s=s) for s in (0.01, 0.6, 1.1, 1.5, -1.2)])
def lossy(ctx, s):
    """total_photon_number_distribution and characteristic_function for every (k, eta, pref, mu, moment)."""
    from thewalrus.quantum import photon_number_distributions as pd

    top = need(s)
    base = pairs_law(s, top)
    ks = (1, 2, 3, 4, 7) + ((5, 10, 16) if ctx.thorough else ())
    for eta in (1.0, 0.99, 0.9, 0.5, 0.25, 0.1, 0.0):
        p1, tr = lose(base, eta)
        law = np.array([1.0])
        done = 0
        for k in ks:
            while done < k:
                law = np.convolve(law, p1)[: 2 * top + 1]
                done += 1
            ctx.count(states=len(law), transitions=tr)
            N = min(len(law) - 1, 24 if not ctx.thorough else 60)
            for n in range(N + 1):
                key = (s, eta, k, n)
                w = law[n]
                ctx.eq(key, lambda: pd.total_photon_number_distribution(n, k, s, eta), w, tol=1e-6 if w > 1e-12 else 1e-11, scale=max(w, 1e-12) if w > 1e-12 else 1.0)
                for pref in (0.5, 1.2):
                    ctx.eq(key + (pref,), lambda: pd.total_photon_number_distribution(n, k, s, eta, pref=pref), w * pref ** n,
                           tol=1e-6 if w > 1e-12 else 1e-11, scale=max(w, 1e-12) * pref ** n if w > 1e-12 else 1.0)
                ctx.count(traces=3)
            m = np.arange(len(law))
            for mu in (0.0, -0.3, -2.0, 0.05):
                # the generating function exists while e^mu (eta tanh + (1-eta) tanh ...) stays inside the unit disc
                if mu > 0 and (abs(s) > 0.95 or k > 4):
                    continue
                w = law * np.exp(mu * m)
                for pc in (None, 0, 1, 2, 3):
                    ref = float(np.sum(w * (m ** pc if pc else 1)))
                    ctx.eq((s, eta, k, mu, pc), lambda: pd.characteristic_function(k, s, eta, mu, poly_corr=pc), ref, tol=1e-8, scale=max(ref, 1e-9))
                    ctx.count(traces=1)
            if eta > 0 and s != 0:
                ref = float(np.sum(law[: 4]))
                ctx.eq((s, eta, k, "max_iter"), lambda: pd.characteristic_function(k, s, eta, 0.0, max_iter=4, delta=0.0), ref, tol=1e-8)
            mean = k * eta * math.sinh(s) ** 2
            ctx.eq((s, eta, k, "mean"), lambda: pd.characteristic_function(k, s, eta, 0.0, poly_corr=1), mean, tol=1e-8, scale=max(mean, 1e-9))


def total_from_chain(rs, c):
    law = np.array([1.0])
    for r in rs:
        law = np.convolve(law, pairs_law(r, c))[:c]
    return np.pad(law, (0, max(0, c - len(law))))[:c]


@unit(UNITS, quick=[dict(n=n) for n in (1, 2, 3, 4)], thorough=[dict(n=n) for n in (1, 2, 3, 4, 5, 6)])
def pure(ctx, n):
    """pure_state_distribution against the sum over all patterns and against the chain of its squeezers."""
    from thewalrus.quantum import photon_number_distributions as pd

    D = {1: 10, 2: 8, 3: 6, 4: 4}.get(n, 3)
    sts = [(nm, V, True) for nm, _, V, p in g.states(n, disp=False) if p]
    for k in range(2, 8):
        rs = np.array([0.15 * ((k + 2 * i) % 6) * (-1) ** i for i in range(n)])
        S = g.passive(g.unitary(n, k)) @ g.sq(rs) @ g.passive(g.unitary(n, k + 1))
        sts.append(("gen%d" % k, S @ S.T, False))
    S = g.passive(g.unitary(n, 1)) @ g.sq([1.2] * n)
    sts.append(("equal", S @ S.T, False))
    for name, V, lat in sts:
        rs = np.log(np.sort(np.linalg.eigvalsh(V))[n:]) / 2
        if lat:
            pref, A, gam = g.husimi(np.zeros(2 * n), V)
            from mc import oracles as orc

            B = A[:n, :n]
            H, tr = orc.lhaf_lattice(B, np.zeros(n), (D,) * n)
            tot = np.zeros(D)
            for idx in itertools.product(range(D), repeat=n):
                if sum(idx) < D:
                    tot[sum(idx)] += pref * abs(H[idx]) ** 2 / orc.factorials(idx)
            ctx.count(states=H.size, transitions=tr)
            assert np.allclose(tot, total_from_chain(rs, D), atol=1e-10)
        for hb in HB:
            for c in (1, 2, 3, 4, 5, 8, 13, 20, 31):
                w = total_from_chain(rs, c)
                for pf in (1, 2, 3):
                    ctx.eq((n, name, hb, c, pf), lambda: pd.pure_state_distribution(V * hb / 2, cutoff=c, hbar=hb, padding_factor=pf), w, tol=1e-9)
                    ctx.count(states=c, transitions=c * n, traces=1)
        ctx.eq((n, name, "default"), lambda: pd.pure_state_distribution(V), total_from_chain(rs, 50), tol=1e-9)
    for name, _, V, p in g.states(n, disp=False):
        if not p:
            for hb in HB:
                ctx.raises((n, name, hb, "impure"), lambda: pd.pure_state_distribution(V * hb / 2, hbar=hb), ValueError)


@unit(UNITS, quick=[dict(n=n) for n in (1, 2, 3)], thorough=[dict(n=n) for n in (1, 2, 3, 4)])
def lossy_patterns(ctx, n):
    """The lossy law equals the sum of all pattern probabilities of n equally squeezed lossy modes behind an interferometer."""
    from thewalrus import quantum as qm
    from thewalrus.quantum import photon_number_distributions as pd

    T = {1: 8, 2: 6, 3: 4, 4: 3}[n]
    for s in (0.2, 0.7):
        for eta in (1.0, 0.8, 0.3):
            for k in (0, 1, 4):
                V = g.sq([s] * n)
                V = eta * V @ V.T + (1 - eta) * np.eye(2 * n)
                U = g.passive(g.unitary(n, k))
                V = U @ V @ U.T
                P = {}
                for idx in itertools.product(range(T + 1), repeat=n):
                    if sum(idx) <= T:
                        P[idx] = np.real(g.dm_element(np.zeros(2 * n), V, idx, idx))
                ctx.count(states=len(P), transitions=len(P) * n)
                for t in range(T + 1):
                    w = sum(v for idx, v in P.items() if sum(idx) == t)
                    ctx.eq((n, s, eta, k, t), lambda: pd.total_photon_number_distribution(t, n, s, eta), w, tol=1e-9)
                    ctx.eq((n, s, eta, k, t, "lib"), lambda: sum(np.real(qm.density_matrix_element(np.zeros(2 * n), V, idx, idx)) for idx in P if sum(idx) == t), w, tol=1e-9)
                    ctx.count(traces=2)


def wide_law(k, s, eta, N, M=4000):
    """Totals below N of k lossy squeezed modes: chain of pair creations for all modes together, then thinning."""
    t2 = math.tanh(s) ** 2
    p = np.zeros(M)
    p[0] = math.cosh(s) ** (-k)
    for m in range(1, M):
        p[m] = p[m - 1] * t2 * (m - 1 + k / 2) / m
    if eta == 1:
        out = np.zeros(N)
        out[::2] = p[: (N + 1) // 2]
        return out, M
    lf = np.array([math.lgamma(j + 1) for j in range(2 * M)])
    m2 = 2 * np.arange(M)
    keep = p > 0
    out = np.zeros(N)
    with np.errstate(divide="ignore"):
        lp = np.log(p)
    for n in range(N):
        ok = keep & (m2 >= n)
        j = m2[ok]
        out[n] = np.sum(np.exp(lp[ok] + lf[j] - lf[n] - lf[j - n] + n * math.log(eta) + (j - n) * math.log(1 - eta)))
    return out, M * N


@unit(UNITS, quick=[dict(s=s) for s in (0.2, 0.7, 1.0, 1.6)])
def many(ctx, s):
    """Many modes and large totals."""
    from thewalrus.quantum import photon_number_distributions as pd

    N = 220
    for k in (1, 2, 5, 13, 20, 60):
        for eta in (1.0, 0.93, 0.6, 0.2):
            law, tr = wide_law(k, s, eta, N)
            ctx.count(states=N, transitions=tr)
            f = lambda ns: np.array([pd.total_photon_number_distribution(n, k, s, eta) for n in ns])
            ctx.eq((s, k, eta, "large n"), lambda: f(range(N)), law, tol=1e-7, scale=float(law.max()))
            # relative, wherever no intermediate factor leaves the range of floating point numbers
            sel = np.where(law > 1e-30)[0]
            ctx.eq((s, k, eta, "relative"), lambda: f(sel.tolist()) / law[sel], np.ones(len(sel)), tol=1e-6)
            if law.sum() > 1 - 1e-13 and law[-20:].max() < 1e-18:
                m = np.arange(N)
                for mu in (0.0, -0.15, -1.0):
                    for pc in (None, 1, 2, 4):
                        ref = float(np.sum(law * np.exp(mu * m) * (m ** float(pc) if pc else 1)))
                        ctx.eq((s, k, eta, mu, pc), lambda: pd.characteristic_function(k, s, eta, mu, poly_corr=pc), ref, tol=1e-8, scale=ref)
                        ctx.count(traces=1)
            ctx.count(traces=N)


@unit(UNITS, quick=[dict(n=n) for n in (1, 2, 3, 6, 10)])
def pure_wide(ctx, n):
    """Pure states of many modes with large cutoffs."""
    from thewalrus.quantum import photon_number_distributions as pd

    for k in range(3):
        rs = np.array([0.12 * ((k + 2 * i) % 9) * (-1) ** i for i in range(n)])
        S = g.passive(g.unitary(n, k)) @ g.sq(rs) @ g.passive(g.unitary(n, k + 1))
        V = S @ S.T
        V = (V + V.T) / 2
        for c in (64, 101, 250):
            w = np.array([1.0])
            for r in rs:
                w = np.convolve(w, pairs_law(r, c))[:c]
            w = np.pad(w, (0, max(0, c - len(w))))[:c]
            for hb in (2, 0.5):
                ctx.eq((n, k, hb, c), lambda: pd.pure_state_distribution(V * hb / 2, cutoff=c, hbar=hb), w, tol=1e-9)
                ctx.count(states=c, transitions=c * n, traces=1)


@unit(UNITS, quick=[dict(n=n) for n in (1, 2, 3, 4, 7)])
def forms(ctx, n):
    """Covariance matrices of pure and mixed states in other layouts, types and magnitudes."""
    from thewalrus.quantum import photon_number_distributions as pd

    for name, mu, V, p in g.formed(n):
        V0 = np.array(V, dtype=float)
        if not p:
            ctx.raises((n, name, "impure"), lambda: pd.pure_state_distribution(V), ValueError)
            continue
        rs = np.log(np.sort(np.linalg.eigvalsh(V0))[n:]) / 2
        for c in (1, 4, 12):
            w = np.array([1.0])
            for r in rs:
                w = np.convolve(w, pairs_law(r, c))[:c]
            w = np.pad(w, (0, max(0, c - len(w))))[:c]
            ctx.eq((n, name, c), lambda: pd.pure_state_distribution(V, cutoff=c, padding_factor=40 if name.startswith("strong") else 4), w, tol=1e-8)
            ctx.count(states=c, transitions=c * n, traces=1)
