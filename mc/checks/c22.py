"""C22: the law of the threshold samplers."""
import itertools

import numpy as np

from mc import gauss as g
from mc import rand, weak
from mc.checks.c21 import check, cost
from mc.core import unit

PROPERTY = "C22"
LEVEL = "model_checking"
RULE = (
    "states are the executions (paths) of the sampler under a controlled random source: every outcome of every discrete "
    "draw above the pruning weight, and every node of a Gauss-Hermite rule for the normal draws the program depends on; "
    "transitions are the draws made; the law accumulated over all paths is compared outcome by outcome with the exact "
    "click distribution, within the mass truncated by the per-detector cutoff (one trace per path on the real code)"
)
ASSUMPTIONS = [
    "the integral over the normal draws is replaced by a sparse Gauss-Hermite rule; allowance 5e-4 (2e-3 to 6e-3 with fan-out on several modes)",
    "the sub-detector cutoff may change the law by at most the sum over sub-detectors of the probability of more photons than the cutoff",
    "branches with weight below the pruning weight are accounted as lost mass",
    "the sampler draws from numpy's global random functions (the documented seeding interface)",
]
UNITS = []
HB = (2, 1, 0.5, 1.7)


def warm():
    from thewalrus.loop_hafnian_batch_gamma import loop_hafnian_batch_gamma

    A, D = np.eye(2, dtype=complex), np.ones((2, 2), dtype=complex)
    for r in ([0], [1], [2]):
        for c in (1, 2, 3):
            loop_hafnian_batch_gamma(A, D, np.array(r), c)


def truncated(mu, cov, fanout, cutoff):
    """Sum over sub-detectors of P(more than cutoff photons)."""
    n = len(mu) // 2
    s = 0.0
    for i in range(n):
        ix = [i, i + n]
        m, V = g.lossy(mu[ix], cov[np.ix_(ix, ix)], np.array([1.0 / fanout]))
        s += fanout * max(0.0, 1 - weak.single(m, V, 0, cutoff).sum())
    return s


def clicks(mu, cov):
    n = len(mu) // 2
    return {k: g.click_prob(mu, cov, k) for k in itertools.product((0, 1), repeat=n)}


def rule(d, deep=False):
    if d <= 2:
        return rand.tensor(d, 10)
    if d <= 4:
        return rand.smolyak(d, 4 if deep else 3)
    return rand.smolyak(d, 3 if deep and d <= 12 else 2)


def jobs(thorough):
    """(n, name, mu, cov, hbar, fanout, cutoff)"""
    out = []
    for n in (1, 2, 3):
        for q, (name, mu, cov) in enumerate(weak.states(n)):
            simple = cost((n, name)) < 10
            confs = {1: [(1, 8), (2, 5), (3, 4), (5, 3), (10, 1)], 2: [(1, 6), (2, 3), (4, 2)] if simple else [(1, 5), (2, 3)], 3: [(1, 5)] + ([(2, 3)] if simple else [])}[n]
            if thorough:
                confs = confs + {1: [(10, 2), (8, 3)], 2: [(3, 3), (10, 1)], 3: [(2, 2), (3, 2)]}[n]
            for r, (F, c) in enumerate(confs):
                if n == 3 and F > 1 and not thorough and q % 3:
                    continue
                if F == 10 and not thorough and name not in ("sqz", "sqz-rot+d", "lossy+d"):
                    continue
                out.append((n, name, mu, cov, HB[(q + r) % 4] if r else HB[q % 4], F, c))
            if n == 1 or simple and q % 3 == 0:
                for hb in HB:
                    if hb != HB[q % 4]:
                        out.append((n, name, mu, cov, hb, 1, 6))
    return out


def weight(j):
    n, name, F, c = j[0], j[1], j[5], j[6]
    simple = cost((n, name)) < 10
    return (1 if n == 1 else 4 if simple else 30) * n * F * F * c


PARTS = [dict(part=i) for i in range(16)]


@unit(UNITS, quick=PARTS, thorough=PARTS, timeout=850)
def full(ctx, part):
    """Law of generate_torontonian_sample and torontonian_sample_state for every state, hbar, fan-out and cutoff."""
    from thewalrus import samples as sm

    load, mine = [0.0] * len(PARTS), []
    for j in sorted(jobs(ctx.thorough), key=weight, reverse=True):
        k = load.index(min(load))
        load[k] += weight(j)
        if k == part:
            mine.append(j)
    for q, (n, name, mu0, cov0, hb, F, c) in enumerate(reversed(mine)):
        mu, cov = g.to_hbar(mu0, cov0, hb)
        P = clicks(mu0, cov0)
        t = truncated(mu0, cov0, F, c)
        extra = 0 if n == 1 or F == 1 else 1.5e-3 if cost((n, name)) < 10 or ctx.thorough else 6e-3
        slack = 5e-4 + extra + t + (1e-3 if n == 3 else 0)
        m = None if name in ("vac", "sqz", "tms", "thermal", "only-first", "only-last", "thermal-first") else mu
        kw = dict(hbar=hb, fanout=F, cutoff=c)
        nodes = lambda d: rule(d, ctx.thorough)
        pr = 1e-6 if n == 1 else 3e-5
        if F == 1 and n < 3 or q % 2:
            check(ctx, (n, name, hb, F, c, "generate"), lambda: sm.generate_torontonian_sample(cov, mu=m, **kw), P, slack, nodes, pr, False, None, data=(mu, cov))
        else:
            check(ctx, (n, name, hb, F, c, "state"), lambda: sm.torontonian_sample_state(cov, 1, mu=m, **kw), P, slack, nodes, pr, True, 4 * n + 2 * n * (F - 1), data=(mu, cov))


@unit(UNITS, quick=PARTS[:4], thorough=PARTS[:4], timeout=800)
def limits(ctx, part):
    """Limits on the number of clicks: admissible outcomes, their law and rejection; defaults."""
    from thewalrus import samples as sm

    js = []
    for n in (1, 2, 3):
        for name, mu, cov in weak.states(n):
            if n == 1 or name.startswith("prod") or name in ("tms", "only-last", "disp-last"):
                js.append((n, name, mu, cov))
    for q, (n, name, mu0, cov0) in enumerate(js):
        if q % 4 != part:
            continue
        hb = HB[(q // 4) % 4]
        mu, cov = g.to_hbar(mu0, cov0, hb)
        P = clicks(mu0, cov0)
        t = truncated(mu0, cov0, 1, 5)
        for mp in range(n + 1):
            want = {k: v for k, v in P.items() if sum(k) <= mp}
            s = sum(want.values())
            kw = dict(mu=mu, hbar=hb, cutoff=5, fanout=1, max_photons=mp)
            check(ctx, (n, name, hb, "max", mp), lambda: sm.generate_torontonian_sample(cov, **kw), want, 6e-4 + t + 1e-3 * (n == 3), rule, 3e-5, False, None)
            if s > 0.05:
                check(ctx, (n, name, hb, "max state", mp), lambda: sm.torontonian_sample_state(cov, 1, **kw), want, (1e-3 + 2 * t + 1e-3 * (n == 3)) / s, rule, 3e-5, True, 4 * n)
        if n == 1 and name in ("sqth+d", "coh"):
            mu, cov = mu0, cov0
            t = truncated(mu0, cov0, 10, 1)
            check(ctx, (n, name, "defaults"), lambda: sm.torontonian_sample_state(cov, 1, mu), P, 2e-3 + t, rule, 1e-5, True, 22)
            check(ctx, (n, name, "defaults generate"), lambda: sm.generate_torontonian_sample(cov, mu), P, 2e-3 + t, rule, 1e-5, False, None)


@unit(UNITS, quick=PARTS[:4], thorough=PARTS[:4], timeout=800)
def several(ctx, part):
    """Joint law of several samples, sequentially and in parallel mode for every order of the tasks."""
    from thewalrus import samples as sm

    todo = [(1,) + s for s in weak.states(1) if s[0] in ("sqz", "sqz-rot+d", "coh")]
    todo += [(2,) + s for s in weak.states(2) if s[0] in ("prod(0, 1)", "only-last", "disp-last")]
    for q, (n, name, mu0, cov0) in enumerate(todo):
        if q % 4 != part:
            continue
        hb = HB[(q + 1) % 4]
        mu, cov = g.to_hbar(mu0, cov0, hb)
        P = clicks(mu0, cov0)
        c = 5
        t = truncated(mu0, cov0, 1, c)
        for k in (2, 3) if n == 1 else (2,):
            want = {tuple(x[0] for x in combo): float(np.prod([x[1] for x in combo])) for combo in itertools.product(P.items(), repeat=k)}
            args = dict(mu=mu, hbar=hb, cutoff=c, fanout=1)
            check(ctx, (n, name, hb, k, "sequential"), lambda: sm.torontonian_sample_state(cov, k, **args), want, 5e-4 + k * 2 * t, rule, 1e-5, True, 4 * n * k)
            for order in itertools.permutations(range(k)):
                with rand.schedule(lambda m: [i for i in order if i < m] + list(range(k, m))):
                    check(ctx, (n, name, hb, k, order), lambda: sm.torontonian_sample_state(cov, k, parallel=True, **args), want, 5e-4 + k * 2 * t, rule, 1e-5, True, 4 * n * k)


@unit(UNITS, quick=PARTS[:3], thorough=PARTS[:3], timeout=800)
def graph(ctx, part):
    """torontonian_sample_graph draws clicks of the Gaussian state that encodes the graph with the requested mean photon number."""
    from scipy.optimize import brentq
    from thewalrus import samples as sm

    As = [np.array([[0, 1], [1, 0]]), np.array([[1.0, 0.5], [0.5, 0.2]]), np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0]]),
          np.array([[2.0]]), np.array([[0.3, 1j], [1j, 0.4]]), np.array([[0, 1, 0], [1, 0, 2], [0, 2, 0]])]
    for q, A in enumerate(As):
        if q % 3 != part:
            continue
        n = len(A)
        for nm in (0.15, 0.3) if n < 3 else (0.05, 0.15):
            l = np.linalg.svd(A, compute_uv=False)
            x = brentq(lambda c: np.sum((c * l) ** 2 / (1 - (c * l) ** 2)) - nm, 0, (1 - 1e-12) / l[0])
            B = x * np.asarray(A, dtype=complex)
            X = np.kron([[0, 1], [1, 0]], np.eye(n))
            Z = np.zeros((n, n))
            Q = np.linalg.inv(np.eye(2 * n) - X @ np.block([[B, Z], [Z, B.conj()]]))
            # (a, a*) covariance to quadratures
            R = np.block([[np.eye(n), 1j * np.eye(n)], [np.eye(n), -1j * np.eye(n)]]) / np.sqrt(2)
            cov0 = (2 * (R.conj().T @ Q @ R) - np.eye(2 * n)).real
            mu0 = np.zeros(2 * n)
            P = clicks(mu0, cov0)
            for F, c in ((1, 6), (2, 3)) if n < 3 else ((1, 5),):
                t = truncated(mu0, cov0, F, c)
                check(ctx, (q, nm, F, c), lambda: sm.torontonian_sample_graph(A, nm, samples=1, fanout=F, cutoff=c), P, (1e-3 if n < 3 else 2.5e-3) + 2 * t, rule, 5e-5, True, 4 * n + 2 * n * (F - 1), data=A)


@unit(UNITS, quick=[dict(n=1, part=0), dict(n=2, part=0), dict(n=2, part=1), dict(n=2, part=2)], timeout=800)
def forms(ctx, n, part):
    """Integer and strided covariance matrices and means, cancelling displacements: the law of the same state."""
    from thewalrus import samples as sm

    for q, (name, m, V, mu0, cov0) in enumerate(weak.formed(n)):
        if n > 1 and q % 3 != part:
            continue
        c = 4
        P = clicks(mu0, cov0)
        t = truncated(mu0, cov0, 1, c)
        kw = dict(mu=m, cutoff=c, fanout=1)
        check(ctx, (n, name, "generate"), lambda: sm.generate_torontonian_sample(V, **kw), P, 5e-4 + t, rule, {1: 1e-7, 2: 5e-5}[n], False, None, data=(m, V))
        if n == 1:
            check(ctx, (n, name, "state"), lambda: sm.torontonian_sample_state(V, 1, **kw), P, 5e-4 + t, rule, 1e-7, True, 4, data=(m, V))


@unit(UNITS, quick=[dict(n=4), dict(n=5), dict(n=6), dict(n=8), dict(n=11)], timeout=800)
def wide(ctx, n):
    """Four to eleven modes of which few are populated, at every position."""
    from thewalrus import samples as sm

    for q, (name, mu0, cov0) in enumerate(weak.sparse_states(n)):
        hb = HB[q % 4]
        mu, cov = g.to_hbar(mu0, cov0, hb)
        c = 4
        P = weak.product_clicks(mu0, cov0)
        t = truncated(mu0, cov0, 1, c)
        kw = dict(mu=mu, hbar=hb, cutoff=c, fanout=1)
        check(ctx, (n, name, hb), lambda: sm.generate_torontonian_sample(cov, **kw), P, 1e-3 + t, rule, 1e-4, False, None, data=(mu, cov))


@unit(UNITS, quick=[dict(n=1), dict(n=2)], timeout=800)
def bright(ctx, n):
    """Bright states with a generous cutoff: the factorials of many photons enter the probability of no click and of a click."""
    from thewalrus import samples as sm

    for q, (name, mu0, cov0, top) in enumerate(weak.bright_states(n)):
        hb = HB[q % 4]
        mu, cov = g.to_hbar(mu0, cov0, hb)
        P = weak.product_clicks(mu0, cov0)
        for F, c in ((1, 50), (30, 6)) if n == 1 and "sqz" not in name else ((1, 50),):
            kw = dict(mu=mu, hbar=hb, cutoff=c, fanout=F)
            check(ctx, (n, name, hb, F, c), lambda: sm.generate_torontonian_sample(cov, **kw), P, 2e-3, rule, 1e-5, False, None, data=(mu, cov))


@unit(UNITS, quick=PARTS[:4], timeout=800)
def limits_parallel(ctx, part):
    """Parallel mode, states and graphs: the means, hbar, fanout, cutoff and the click limit reach every task."""
    from thewalrus import samples as sm

    todo = [(n,) + s for n in (1, 2) for s in weak.states(n)]
    todo = [s for s in todo if s[1] in ("sqz", "sqz-rot+d", "coh", "prod(0, 1)", "only-last", "disp-last", "tms")]
    cases = [(s, mp, F, hb) for i, s in enumerate(todo) for mp in range(s[0] + 1) for F, hb in (((1, HB[i % 4]), (2, HB[(i + 1) % 4])) if s[0] == 1 else ((1, HB[i % 4]),))]
    for q, ((n, name, mu0, cov0), mp, F, hb) in enumerate(cases):
        if q % 4 != part:
            continue
        mu, cov = g.to_hbar(mu0, cov0, hb)
        c = {1: 5, 2: 3}[F]
        for mean in (mu, None):
            m0 = mu0 if mean is not None else np.zeros(2 * n)
            P = {k: v for k, v in clicks(m0, cov0).items() if sum(k) <= mp}
            t, s = truncated(m0, cov0, F, c), sum(P.values())
            if s < 0.05:
                continue
            kw = dict(mu=mean, hbar=hb, cutoff=c, fanout=F, max_photons=mp)
            with rand.schedule(lambda m: list(range(m))):
                check(ctx, (n, name, hb, mp, F, mean is None), lambda: sm.torontonian_sample_state(cov, 1, parallel=True, **kw), P, (1e-3 + 2 * t) / s, rule, 3e-5, True, 4 * n + 2 * n * (F - 1))
    for q, (A, nm) in enumerate(((np.array([[0, 1], [1, 0]]), 0.3), (np.array([[2.0]]), 0.3))):
        if q % 4 != part:
            continue
        n = len(A)
        r = np.arcsinh(np.sqrt(nm / n))
        if n == 1:
            cov0 = np.diag([np.exp(2 * r), np.exp(-2 * r)])
        else:
            cov0 = np.cosh(2 * r) * np.eye(4) + np.sinh(2 * r) * np.kron(np.diag([1, -1]), A)
        full = clicks(np.zeros(2 * n), cov0)
        for mp in range(n + 1):
            P = {k: v for k, v in full.items() if sum(k) <= mp}
            for F, c in ((1, 6), (2, 3)):
                t = truncated(np.zeros(2 * n), cov0, F, c)
                for par in (False, True):
                    with rand.schedule(lambda m: list(range(m))):
                        check(ctx, ("graph", q, nm, mp, F, c, par), lambda: sm.torontonian_sample_graph(A, nm, samples=1, fanout=F, cutoff=c, max_photons=mp, parallel=par), P, (1e-3 + 2 * t) / sum(P.values()), rule, 3e-5, True, 4 * n + 2 * n * (F - 1), data=A)
