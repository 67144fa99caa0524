"""C14: photon-number and click statistics of Gaussian states."""
import itertools
import math

import numpy as np

from mc import alphabet as al
from mc import gauss as g
from mc import oracles as orc
from mc.core import unit

PROPERTY = "C14"
LEVEL = "model_checking"
RULE = (
    "states are multi-indices of creation and annihilation operators (or set partitions of the modes), transitions the "
    "contractions of Wick's recursion; every moment, cumulant and ordering in the bounds is compared for every state, "
    "hbar and mode list (one trace per compared call)"
)
ASSUMPTIONS = ["agreement up to 1e-8 relative to the same Wick sum with absolute values"]
UNITS = []


def wick(mu, cov, s=1.0):
    """(C, m): covariances and means of (a_1^dag.., a_1..) in s-ordering; hbar=2."""
    a, N, M = g.cplx(mu, cov)
    n = len(a)
    N = N + (1 - s) / 2 * np.eye(n)
    return np.block([[M.conj(), N], [N.T, M]]), np.concatenate([a.conj(), a])


def stirling2(n, k):
    return sum((-1) ** (k - j) * math.comb(k, j) * j ** n for j in range(k + 1)) // math.factorial(k)


def number_moment(mu, cov, powers):
    """(<prod n_i^p_i>, scale)."""
    C, m = wick(mu, cov)
    tot, sc = 0.0, 0.0
    for ks in itertools.product(*(range(0 if p == 0 else 1, p + 1) for p in powers)):
        c = 1
        for p, k in zip(powers, ks):
            c *= stirling2(p, k)
        tot += c * np.real(orc.haf_reps(C, tuple(ks) * 2, m))
        sc += c * abs(orc.haf_reps(np.abs(C), tuple(ks) * 2, np.abs(m)))
    return tot, sc


def set_partitions(items):
    items = list(items)
    if not items:
        yield []
        return
    for p in set_partitions(items[1:]):
        yield [[items[0]]] + p
        for i in range(len(p)):
            yield p[:i] + [[items[0]] + p[i]] + p[i + 1:]


def cumulant(modes, moment):
    tot, parts = 0.0, 0
    for p in set_partitions(range(len(modes))):
        t = (-1) ** (len(p) - 1) * math.factorial(len(p) - 1)
        for B in p:
            t *= moment([modes[i] for i in B])
        tot += t
        parts += 1
    return tot, parts


def number_cumulant(mu, cov, modes):
    n = len(mu) // 2

    def moment(B):
        return number_moment(mu, cov, [B.count(i) for i in range(n)])[0]

    return cumulant(modes, moment)[0]


HB = (2, 1, 0.5, 1.7)


@unit(UNITS, quick=[dict(n=1), dict(n=2), dict(n=3), dict(n=4)], thorough=[dict(n=n) for n in (1, 2, 3, 4, 5)])
def first_second(ctx, n):
    """Means, covariances and expectations of photon numbers."""
    from thewalrus import quantum as qm
    from thewalrus import symplectic as sy

    for name, mu0, cov0, _ in g.states(n):
        mean = np.array([number_moment(mu0, cov0, [int(i == j) for i in range(n)])[0] for j in range(n)])
        second = np.array([[number_moment(mu0, cov0, [int(i == j) + int(i == k) for i in range(n)])[0] for k in range(n)] for j in range(n)])
        cv = second - np.outer(mean, mean)
        ctx.count(states=n * n + n, transitions=(n * n + n) * 2 * n)
        for hb in HB:
            mu, cov = g.to_hbar(mu0, cov0, hb)
            for j in range(n):
                ctx.eq((n, name, hb, j, "mean"), lambda: qm.photon_number_mean(mu, cov, j, hbar=hb), mean[j], tol=1e-9)
                for k in range(n):
                    ctx.eq((n, name, hb, j, k, "covar"), lambda: qm.photon_number_covar(mu, cov, j, k, hbar=hb), cv[j, k], tol=1e-9)
                    ctx.count(traces=1)
            ctx.eq((n, name, hb, "meanvec"), lambda: qm.photon_number_mean_vector(mu, cov, hbar=hb), mean, tol=1e-9)
            ctx.eq((n, name, hb, "covmat"), lambda: qm.photon_number_covmat(mu, cov, hbar=hb), cv, tol=1e-9)
            for j in range(n):
                ix = [j, j + n]
                ctx.eq((n, name, hb, j, "one-mode"), lambda: sy.mean_photon_number(mu[ix], cov[np.ix_(ix, ix)], hbar=hb), np.array([mean[j], cv[j, j]]), tol=1e-9)
            for r in range(1, n + 1):
                for modes in itertools.permutations(range(n), r):
                    w, sc = number_moment(mu0, cov0, [int(i in modes) for i in range(n)])
                    f = (list, tuple, np.array)[r % 3]
                    ctx.eq((n, name, hb, modes, "E"), lambda: qm.photon_number_expectation(mu, cov, f(modes), hbar=hb), w, scale=max(1, sc), tol=1e-9)
                    if r <= 3:
                        w, sc = number_moment(mu0, cov0, [2 * int(i in modes) for i in range(n)])
                        ctx.eq((n, name, hb, modes, "E2"), lambda: qm.photon_number_squared_expectation(mu, cov, list(modes), hbar=hb), w,
                               scale=max(1, sc), tol=1e-9)
                    ctx.count(traces=2)
        ctx.eq((n, name, "default hbar"), lambda: qm.photon_number_covmat(mu0, cov0), cv, tol=1e-9)
        ctx.eq((n, name, "default hbar mean"), lambda: qm.photon_number_mean_vector(mu0, cov0), mean, tol=1e-9)


@unit(UNITS, quick=[dict(n=1, P=6), dict(n=2, P=5), dict(n=3, P=4), dict(n=4, P=3)], thorough=[dict(n=1, P=9), dict(n=2, P=7), dict(n=3, P=5), dict(n=4, P=4)])
def moments(ctx, n, P):
    """photon_number_moment for every power assignment up to total P, in every key order."""
    from thewalrus import quantum as qm

    for q, (name, mu0, cov0, _) in enumerate(g.states(n)):
        for r, p in enumerate(al.multi(n, P, P)):
            hb = HB[(q + r) % 4]
            mu, cov = g.to_hbar(mu0, cov0, hb)
            w, sc = number_moment(mu0, cov0, p)
            ctx.count(states=1, transitions=len(p), traces=1)
            full = {i: p[i] for i in range(n)}
            part = {i: p[i] for i in reversed(range(n)) if p[i]}
            ctx.eq((n, name, hb, p, "full"), lambda: qm.photon_number_moment(mu, cov, full, hbar=hb), w, scale=max(1, sc), tol=1e-8)
            ctx.eq((n, name, hb, p, "part"), lambda: qm.photon_number_moment(mu, cov, part, hbar=hb), w, scale=max(1, sc), tol=1e-8)
            if hb == 2:
                ctx.eq((n, name, p, "default"), lambda: qm.photon_number_moment(mu, cov, full), w, scale=max(1, sc), tol=1e-8)


@unit(UNITS, quick=[dict(n=1, P=4), dict(n=2, P=2), dict(n=3, P=1)], thorough=[dict(n=1, P=6), dict(n=2, P=3), dict(n=3, P=2)])
def ordered(ctx, n, P):
    """s-ordered expectations for every multi-index and every ordering parameter."""
    from thewalrus import quantum as qm

    for q, (name, mu0, cov0, _) in enumerate(g.states(n)):
        for s in (1, 0, -1, 0.5, -0.3):
            C, m = wick(mu0, cov0, s)
            H, tr = orc.lhaf_lattice(C, m, (P + 1,) * (2 * n))
            B, _ = orc.lhaf_lattice(np.abs(C), np.abs(m), (P + 1,) * (2 * n))
            ctx.count(states=H.size, transitions=tr)
            for r, rpt in enumerate(itertools.product(range(P + 1), repeat=2 * n)):
                hb = HB[(q + r) % 4]
                mu, cov = g.to_hbar(mu0, cov0, hb)
                sc = max(1, abs(B[rpt]))
                f = (list, tuple, np.array)[r % 3]
                if sum(rpt) > 8 or (n > 2 and sum(rpt) > 4 and s not in (1, 0) and not ctx.thorough):
                    continue
                ctx.eq((n, name, hb, s, rpt), lambda: qm.s_ordered_expectation(mu, cov, f(rpt), hbar=hb, s=s), H[rpt], scale=sc, tol=1e-8)
                ctx.count(traces=1)
                if s == 1:
                    ctx.eq((n, name, hb, "normal", rpt), lambda: qm.normal_ordered_expectation(mu, cov, f(rpt), hbar=hb), H[rpt], scale=sc, tol=1e-8)
                if s == 0 and hb == 2:
                    ctx.eq((n, name, "default", rpt), lambda: qm.s_ordered_expectation(mu, cov, f(rpt)), H[rpt], scale=sc, tol=1e-8)


@unit(UNITS, quick=[dict(n=1), dict(n=2), dict(n=3), dict(n=4)], thorough=[dict(n=n) for n in (1, 2, 3, 4, 5)])
def cumulants(ctx, n):
    """Photon-number and click cumulants of every mode list, with repetitions and in every order."""
    from thewalrus import quantum as qm

    L = 3 if n > 2 else 4
    L += ctx.thorough
    for q, (name, mu0, cov0, _) in enumerate(g.states(n)):
        mom = {}

        def nm(B):
            key = tuple(B.count(i) for i in range(n))
            if key not in mom:
                mom[key] = number_moment(mu0, cov0, key)[0]
            return mom[key]

        def cm(B):
            key = frozenset(B)
            if key not in mom:
                mom[key] = sum((-1) ** r * g.vac_prob(mu0, cov0, Z) for r in range(len(key) + 1) for Z in itertools.combinations(sorted(key), r))
            return mom[key]

        for r in range(1, L + 1):
            for i, modes in enumerate(itertools.product(range(n), repeat=r)):
                hb = HB[(q + i) % 4]
                mu, cov = g.to_hbar(mu0, cov0, hb)
                f = (list, tuple, np.array)[i % 3]
                w, parts = cumulant(list(modes), nm)
                sc = max(1.0, abs(nm(list(modes))))
                ctx.eq((n, name, hb, modes, "n"), lambda: qm.photon_number_cumulant(mu, cov, f(modes), hbar=hb), w, scale=sc, tol=1e-8)
                w, parts = cumulant(list(modes), cm)
                ctx.eq((n, name, hb, modes, "click"), lambda: qm.click_cumulant(mu, cov, f(modes), hbar=hb), w, tol=1e-8)
                ctx.count(states=parts, transitions=parts * r, traces=2)
        if n >= 3 and name in ("pure+d", "lossy+d", "mixed"):
            modes = tuple(range(n)) + ((0,) if n < 4 else ())
            w, parts = cumulant(list(modes), nm)
            ctx.eq((n, name, modes, "n"), lambda: qm.photon_number_cumulant(mu0, cov0, modes), w, scale=max(1, abs(nm(list(modes)))), tol=1e-8)
            w, parts = cumulant(list(modes), cm)
            ctx.eq((n, name, modes, "click"), lambda: qm.click_cumulant(mu0, cov0, modes), w, tol=1e-8)


@unit(UNITS, quick=[dict(n=n) for n in (1, 2, 3, 4, 5)])
def clicks(ctx, n):
    """mean_clicks and variance_clicks against the click law, enumerated."""
    from thewalrus import quantum as qm

    for name, mu0, cov0, _ in g.states(n, disp=False):
        ps = {d: g.click_prob(mu0, cov0, d) for d in itertools.product((0, 1), repeat=n)}
        mean = sum(p * sum(d) for d, p in ps.items())
        var = sum(p * sum(d) ** 2 for d, p in ps.items()) - mean ** 2
        ctx.count(states=2 ** n, transitions=n * 2 ** n)
        for hb in HB:
            _, cov = g.to_hbar(mu0, cov0, hb)
            ctx.eq((n, name, hb, "mean"), lambda: qm.mean_clicks(cov, hbar=hb), mean, tol=1e-9)
            ctx.eq((n, name, hb, "var"), lambda: qm.variance_clicks(cov, hbar=hb), var, tol=1e-9)
            ctx.count(traces=2)
        ctx.eq((n, name, "mean default"), lambda: qm.mean_clicks(cov0), mean, tol=1e-9)
        ctx.eq((n, name, "var default"), lambda: qm.variance_clicks(cov0), var, tol=1e-9)
        ctx.eq((n, name, "deprecated"), lambda: np.array([qm.mean_number_of_clicks(cov0), qm.variance_number_of_clicks(cov0)]), np.array([mean, var]), tol=1e-9)


@unit(UNITS, quick=[dict(n=1), dict(n=2), dict(n=3)])
def weak(ctx, n):
    """Nearly vacuum states: every expectation is resolved to its own leading order."""
    from thewalrus import quantum as qm

    for q, (name, mu0, cov0, _) in enumerate(g.weak_states(n)):
        hb = HB[q % 4]
        mu, cov = g.to_hbar(mu0, cov0, hb)
        P = {1: 4, 2: 2, 3: 1}[n]
        for s in (1, 0, -0.3):
            C, m = wick(mu0, cov0, s)
            H, tr = orc.lhaf_lattice(C, m, (P + 1,) * (2 * n))
            B, _ = orc.lhaf_lattice(np.abs(C), np.abs(m), (P + 1,) * (2 * n))
            # rounding of N = <x^2 + p^2> - 1/2 enters as 1e-16 wherever a contraction vanishes
            Bn, _ = orc.lhaf_lattice(np.abs(C) + 1e-9, np.abs(m) + 1e-9, (P + 1,) * (2 * n))
            ctx.count(states=H.size, transitions=tr)
            for r, rpt in enumerate(itertools.product(range(P + 1), repeat=2 * n)):
                if not 0 < sum(rpt) <= 4:
                    continue
                sc = abs(B[rpt]) + 1e-7 * abs(Bn[rpt])
                ctx.eq((n, name, hb, s, rpt), lambda: qm.s_ordered_expectation(mu, cov, list(rpt), hbar=hb, s=s), H[rpt], scale=sc + 1e-7, tol=1e-7, data=(mu, cov))
                if s == 1:
                    ctx.eq((n, name, hb, "normal", rpt), lambda: qm.normal_ordered_expectation(mu, cov, list(rpt), hbar=hb), H[rpt], scale=sc + 1e-7, tol=1e-7)
                ctx.count(traces=1)
        mean = np.array([number_moment(mu0, cov0, [int(i == j) for i in range(n)])[0] for j in range(n)])
        ctx.eq((n, name, hb, "mean"), lambda: qm.photon_number_mean_vector(mu, cov, hbar=hb), mean, scale=np.abs(mean) + 1e-7, tol=1e-7)
        ctx.eq((n, name, hb, "mean1"), lambda: np.array([qm.photon_number_mean(mu, cov, j, hbar=hb) for j in range(n)]), mean, scale=np.abs(mean) + 1e-7, tol=1e-7)
        second = np.array([[number_moment(mu0, cov0, [int(i == j) + int(i == k) for i in range(n)])[0] for k in range(n)] for j in range(n)])
        cv = second - np.outer(mean, mean)
        ctx.eq((n, name, hb, "covmat"), lambda: qm.photon_number_covmat(mu, cov, hbar=hb), cv, scale=np.abs(cv) + 1e-7, tol=1e-7)
        for p in al.multi(n, 3, 3):
            w, sc = number_moment(mu0, cov0, p)
            ctx.eq((n, name, hb, p, "moment"), lambda: qm.photon_number_moment(mu, cov, {i: p[i] for i in range(n)}, hbar=hb), w, scale=sc + 1e-7, tol=1e-7)
        for r in range(1, n + 1):
            for modes in itertools.combinations(range(n), r):
                w, sc = number_moment(mu0, cov0, [int(i in modes) for i in range(n)])
                ctx.eq((n, name, hb, modes, "E"), lambda: qm.photon_number_expectation(mu, cov, list(modes), hbar=hb), w, scale=sc + 1e-7, tol=1e-7)
                w, sc = number_moment(mu0, cov0, [2 * int(i in modes) for i in range(n)])
                ctx.eq((n, name, hb, modes, "E2"), lambda: qm.photon_number_squared_expectation(mu, cov, list(modes), hbar=hb), w, scale=sc + 1e-7, tol=1e-7)
                w = number_cumulant(mu0, cov0, list(modes))
                ctx.eq((n, name, hb, modes, "cumulant"), lambda: qm.photon_number_cumulant(mu, cov, list(modes), hbar=hb), w, scale=abs(w) + 1e-7, tol=1e-7)
                ctx.count(traces=3)


def strong_states(n):
    """Squeezed, displaced and hot states far from the vacuum."""
    for k, (r, d, e) in enumerate(((1.5, 0.0, 0.0), (0.4, 6.0, 0.2), (0.0, 12.0, 0.0), (0.8, 1.0, 8.0), (2.0, 0.5, 0.5))):
        rs = np.array([r * (1 + 0.1 * i) * (-1) ** i for i in range(n)])
        S = g.passive(g.unitary(n, k)) @ g.sq(rs) @ g.passive(g.unitary(n, k + 1))
        V = (S * np.tile(1 + e * np.arange(1, n + 1), 2)) @ S.T
        yield "strong%d" % k, d * np.cos(np.arange(2 * n) + k), (V + V.T) / 2


def real(x):
    if np.iscomplexobj(x):
        raise TypeError("complex result %r for a real expectation value" % (x,))
    return x


@unit(UNITS, quick=[dict(n=n) for n in (1, 2, 3, 4)])
def strong(ctx, n):
    """High moments and long cumulants of states far from the vacuum; expectation values of observables are real."""
    from thewalrus import quantum as qm

    P = {1: 7, 2: 6, 3: 4, 4: 3}[n]
    for q, (name, mu0, cov0) in enumerate(strong_states(n)):
        hb = HB[q % 4]
        mu, cov = g.to_hbar(mu0, cov0, hb)
        mom = {}

        def nm(B):
            key = tuple(B.count(i) for i in range(n))
            if key not in mom:
                mom[key] = number_moment(mu0, cov0, key)[0]
            return mom[key]

        for p in al.multi(n, P, P):
            w, sc = number_moment(mu0, cov0, p)
            ctx.eq((n, name, hb, p, "moment"), lambda: real(qm.photon_number_moment(mu, cov, {i: p[i] for i in range(n)}, hbar=hb)), w, scale=max(1, sc), tol=1e-8)
            ctx.count(states=1, transitions=sum(p), traces=1)
        lists = {
            1: [(0,) * k for k in range(1, 7)],
            2: [(0, 1, 0, 1), (1, 1, 1, 0, 0), (0,) * 6, (0, 1, 1, 1, 1, 1), (1, 0, 0, 1, 1, 0)],
            3: [(2, 0, 1, 2, 0), (1,) * 5, (0, 0, 1, 1, 2, 2)],
            4: [(3, 1, 0, 2), (3, 1, 0, 2, 2), (0, 1, 2, 3, 0, 1)],
        }[n]
        for modes in lists:
            w, parts = cumulant(list(modes), nm)
            sc = max(1.0, sum(math.factorial(len(b) - 1) * float(np.prod([abs(nm([modes[i] for i in B])) for B in b])) for b in set_partitions(range(len(modes)))))
            ctx.eq((n, name, hb, modes, "cumulant"), lambda: real(qm.photon_number_cumulant(mu, cov, modes, hbar=hb)), w, scale=sc, tol=1e-9)
            ctx.count(states=parts, traces=1)


@unit(UNITS, quick=[dict(n=n) for n in (4, 5, 6)])
def clicks_wide(ctx, n):
    """Click cumulants of many modes, in any order and with repetitions."""
    from thewalrus import quantum as qm

    for q, (name, mu0, cov0, _) in enumerate(g.states(n, which=("pure+d", "lossy+d", "mixed"))):
        hb = HB[q % 4]
        mu, cov = g.to_hbar(mu0, cov0, hb)
        mom = {}

        def cm(B):
            key = frozenset(B)
            if key not in mom:
                mom[key] = sum((-1) ** r * g.vac_prob(mu0, cov0, Z) for r in range(len(key) + 1) for Z in itertools.combinations(sorted(key), r))
            return mom[key]

        base = tuple(range(n))
        for modes in [base, base[::-1], base[1:] + base[:1], base[:4] + (0, 0), (n - 1,) * 6, base[:3] + base[1:3] + (2,)]:
            w, parts = cumulant(list(modes), cm)
            ctx.eq((n, name, hb, modes, "click"), lambda: qm.click_cumulant(mu, cov, list(modes), hbar=hb), w, tol=1e-8)
            ctx.count(states=parts, transitions=parts * len(modes), traces=1)
        mean = sum(cm([i]) for i in range(n))
        z = np.zeros(2 * n)
        if not np.any(mu0):
            ctx.eq((n, name, hb, "mean"), lambda: qm.mean_clicks(cov, hbar=hb), mean, tol=1e-9)
        nod = {i: 1 - g.vac_prob(z, cov0, [i]) for i in range(n)}
        ctx.eq((n, name, hb, "mean0"), lambda: qm.mean_clicks(cov, hbar=hb), sum(nod.values()), tol=1e-9)
        var = sum(nod[i] * (1 - nod[i]) for i in range(n)) + sum(
            g.vac_prob(z, cov0, [i, j]) - (1 - nod[i]) * (1 - nod[j]) for i in range(n) for j in range(n) if i != j)
        ctx.eq((n, name, hb, "variance"), lambda: qm.variance_clicks(cov, hbar=hb), var, tol=1e-9)
        ctx.count(traces=2)


@unit(UNITS, quick=[dict(n=n) for n in (1, 2, 3)])
def forms(ctx, n):
    """Every statistic for every layout, dtype and container, and for hot and bright states."""
    from thewalrus import quantum as qm
    from thewalrus import symplectic as sy

    for q, (name, mu0, cov0, _) in enumerate(g.formed(n)):
        hb = HB[q % 4] if "int" not in name else 2
        mu, cov = (mu0, cov0) if hb == 2 else g.to_hbar(mu0, cov0, hb)
        keep = mu.copy(), cov.copy()
        m, V = np.array(mu0, dtype=float), np.array(cov0, dtype=float)
        mean = np.array([number_moment(m, V, [int(i == j) for i in range(n)])[0] for j in range(n)])
        second = np.array([[number_moment(m, V, [int(i == j) + int(i == k) for i in range(n)])[0] for k in range(n)] for j in range(n)])
        cv = second - np.outer(mean, mean)
        sc = 1 + np.abs(second)
        ctx.eq((n, name, hb, "mean"), lambda: np.array([qm.photon_number_mean(mu, cov, j, hbar=hb) for j in range(n)]), mean, scale=1 + mean, tol=1e-9)
        ctx.eq((n, name, hb, "meanvec"), lambda: qm.photon_number_mean_vector(mu, cov, hbar=hb), mean, scale=1 + mean, tol=1e-9)
        ctx.eq((n, name, hb, "covmat"), lambda: qm.photon_number_covmat(mu, cov, hbar=hb), cv, scale=sc, tol=1e-9)
        for j in range(n):
            for k in range(n):
                ctx.eq((n, name, hb, j, k), lambda: qm.photon_number_covar(mu, cov, np.int64(j), k, hbar=hb), cv[j, k], scale=sc[j, k], tol=1e-9)
        if n == 1:
            ctx.eq((n, name, hb, "one-mode"), lambda: sy.mean_photon_number(mu, cov, hbar=hb), np.array([mean[0], cv[0, 0]]), scale=sc[0, 0], tol=1e-9)
        kinds = (list, tuple, np.array, lambda p: np.array(p, dtype=np.int8), lambda p: [np.int32(x) for x in p])
        for r in range(1, n + 1):
            for i, modes in enumerate(itertools.permutations(range(n), r)):
                w, s = number_moment(m, V, [int(i in modes) for i in range(n)])
                f = kinds[(q + i) % 5]
                ctx.eq((n, name, hb, modes, "E"), lambda: qm.photon_number_expectation(mu, cov, f(modes), hbar=hb), w, scale=max(1, s), tol=1e-9)
                w, s = number_moment(m, V, [2 * int(i in modes) for i in range(n)])
                ctx.eq((n, name, hb, modes, "E2"), lambda: qm.photon_number_squared_expectation(mu, cov, list(modes), hbar=hb), w, scale=max(1, s), tol=1e-9)
                ctx.count(traces=2)
        for i, p in enumerate(al.multi(n, 3, 3)):
            w, s = number_moment(m, V, p)
            ctx.eq((n, name, hb, p, "moment"), lambda: qm.photon_number_moment(mu, cov, {np.int64(k): p[k] for k in range(n)}, hbar=hb), w, scale=max(1, s), tol=1e-9)
            modes = [k for k in range(n) for _ in range(p[k])]
            if modes:
                w = number_cumulant(m, V, modes)
                ctx.eq((n, name, hb, p, "cumulant"), lambda: qm.photon_number_cumulant(mu, cov, kinds[(q + i) % 5](modes), hbar=hb), w, scale=max(1, s), tol=1e-9)
        for o in (1, 0, -0.4):
            C, d = wick(m, V, o)
            for i, rpt in enumerate(al.multi(2 * n, 2, 3)):
                w, s = orc.haf_reps(C, tuple(rpt), d), abs(orc.haf_reps(np.abs(C), tuple(rpt), np.abs(d)))
                f = kinds[(q + i) % 5]
                ctx.eq((n, name, hb, o, rpt), lambda: qm.s_ordered_expectation(mu, cov, f(rpt), hbar=hb, s=o), w, scale=max(1, s), tol=1e-9)
                if o == 1:
                    ctx.eq((n, name, hb, "normal", rpt), lambda: qm.normal_ordered_expectation(mu, cov, f(rpt), hbar=hb), w, scale=max(1, s), tol=1e-9)
                ctx.count(states=1, transitions=sum(rpt), traces=1)
        z = np.zeros(2 * n)
        ps = {d: g.click_prob(z, V, d) for d in itertools.product((0, 1), repeat=n)}
        mc = sum(p * sum(d) for d, p in ps.items())
        ctx.eq((n, name, hb, "clicks"), lambda: qm.mean_clicks(cov, hbar=hb), mc, tol=1e-9)
        ctx.eq((n, name, hb, "click var"), lambda: qm.variance_clicks(cov, hbar=hb), sum(p * sum(d) ** 2 for d, p in ps.items()) - mc ** 2, tol=1e-9)
        ps = {d: g.click_prob(m, V, d) for d in itertools.product((0, 1), repeat=n)}
        for modes in itertools.product(range(n), repeat=2):
            w, _ = cumulant(list(modes), lambda B: sum(p for d, p in ps.items() if all(d[b] for b in B)))
            ctx.eq((n, name, hb, modes, "click"), lambda: qm.click_cumulant(mu, cov, kinds[q % 5](modes), hbar=hb), w, tol=1e-9)
        ctx.true((n, name, hb, "inputs"), lambda: np.array_equal(mu, keep[0]) and np.array_equal(cov, keep[1]))


@unit(UNITS, quick=[dict(n=n) for n in (5, 6, 8, 11)])
def wide(ctx, n):
    """Low-order statistics of every pair and of distant triples of modes of a large state."""
    from thewalrus import quantum as qm

    for q, (name, mu0, cov0, _) in enumerate(g.states(n, which=("pure+d", "lossy+d", "mixed", "tms", "coh-last", "pure+c"))):
        hb = HB[q % 4]
        mu, cov = g.to_hbar(mu0, cov0, hb)
        e = lambda *js: [js.count(i) for i in range(n)]
        mean = np.array([number_moment(mu0, cov0, e(j))[0] for j in range(n)])
        second = np.array([[number_moment(mu0, cov0, e(j, k))[0] for k in range(n)] for j in range(n)])
        cv = second - np.outer(mean, mean)
        ctx.eq((n, name, hb, "meanvec"), lambda: qm.photon_number_mean_vector(mu, cov, hbar=hb), mean, tol=1e-9)
        ctx.eq((n, name, hb, "covmat"), lambda: qm.photon_number_covmat(mu, cov, hbar=hb), cv, tol=1e-9)
        sel = [(j, k) for j in range(n) for k in range(n) if j != k] if n < 8 else [(j, (3 * j + 2) % n) for j in range(n) if j != (3 * j + 2) % n]
        for j, k in sel:
            ctx.eq((n, name, hb, j, k, "E"), lambda: qm.photon_number_expectation(mu, cov, [j, k], hbar=hb), second[j, k], tol=1e-9)
            w, s = number_moment(mu0, cov0, e(j, j, k))
            ctx.eq((n, name, hb, j, k, "moment"), lambda: qm.photon_number_moment(mu, cov, {j: 2, k: 1}, hbar=hb), w, scale=max(1, s), tol=1e-9)
            w = number_cumulant(mu0, cov0, [j, k, j])
            ctx.eq((n, name, hb, j, k, "cumulant"), lambda: qm.photon_number_cumulant(mu, cov, [j, k, j], hbar=hb), w, scale=max(1, s), tol=1e-9)
            w, s = number_moment(mu0, cov0, e(j, j, k, k))
            ctx.eq((n, name, hb, j, k, "E2"), lambda: qm.photon_number_squared_expectation(mu, cov, [j, k], hbar=hb), w, scale=max(1, s), tol=1e-9)
            ctx.count(traces=4)
            for o in (1, 0):
                C, d = wick(mu0, cov0, o)
                for ops in ((j, n + k), (j, k), (n + j, n + k, j), (j, j, n + k, n + k)):
                    rpt = [ops.count(i) for i in range(2 * n)]
                    w, s = orc.haf_reps(C, tuple(rpt), d), abs(orc.haf_reps(np.abs(C), tuple(rpt), np.abs(d)))
                    ctx.eq((n, name, hb, o, ops), lambda: qm.s_ordered_expectation(mu, cov, rpt, hbar=hb, s=o), w, scale=max(1, s), tol=1e-9)
                    ctx.count(states=1, transitions=sum(rpt), traces=1)
        for j in range(n - 2):
            t = (n - 1, j, (j + n // 2) % (n - 1))
            if len(set(t)) == 3:
                w, s = number_moment(mu0, cov0, e(*t))
                ctx.eq((n, name, hb, t, "E"), lambda: qm.photon_number_expectation(mu, cov, t, hbar=hb), w, scale=max(1, s), tol=1e-9)
                ctx.eq((n, name, hb, t, "cumulant"), lambda: qm.photon_number_cumulant(mu, cov, t, hbar=hb), number_cumulant(mu0, cov0, list(t)), scale=max(1, s), tol=1e-9)
