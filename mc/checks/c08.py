"""C08: torontonians and threshold detection probabilities."""
import itertools
import math

import numpy as np

from mc import alphabet as al
from mc import gauss as g
from mc.core import unit

PROPERTY = "C08"
LEVEL = "model_checking"
RULE = (
    "states are subsets of detectors, transitions the inclusion of one detector; every matrix, displacement, "
    "algorithm and click pattern in the bounds is compared with the full inclusion-exclusion sum over subsets "
    "(one trace per compared call)"
)
ASSUMPTIONS = ["agreement up to 1e-8 relative to the sum of absolute values of the inclusion-exclusion terms"]
UNITS = []


def incl_excl(O, gamma=None):
    """(value, sum of |terms|) of sum_S (-1)^(n-|S|) exp(1/2 g_S (I-O_S)^-1 g_S^*) / sqrt(det(I-O_S))."""
    n = len(O) // 2
    tot, sc = 0.0, 0.0
    for r in range(n + 1):
        for S in itertools.combinations(range(n), r):
            ix = list(S) + [s + n for s in S]
            K = np.eye(2 * r) - O[np.ix_(ix, ix)]
            t = 1 / np.sqrt(np.linalg.det(K).real) if r else 1.0
            if gamma is not None and r:
                gs = gamma[ix]
                t = t * np.exp(0.5 * gs @ np.linalg.solve(K, gs.conj()))
            tot += (-1) ** (n - r) * t
            sc += abs(t)
    return tot, sc, 2 ** n


def O_of(cov):
    """I - Q^-1 in the (a, a^*) ordering; hbar=2."""
    n = len(cov) // 2
    _, N, M = g.cplx(np.zeros(2 * n), cov)
    I = np.eye(n)
    S = np.block([[N.T + I, M], [M.conj(), N + I]])
    return np.eye(2 * n) - np.linalg.inv(S)


def mats(n):
    for name, mu, cov, _ in g.states(n):
        yield name, mu, cov
    if n > 1:
        # lossy GBS with every detector identical, and a block product
        S = g.sq([0.5] * n)
        mu, cov = g.lossy(np.zeros(2 * n), S @ S.T, [0.7] * n)
        yield "same", mu, cov
    k = 2
    while k < 4:
        S = g.symplectic(n, 10 + k, 0.9)
        yield "gen%d" % k, np.array([0.3 * g.frac(4, k, i) for i in range(2 * n)]), S @ S.T
        k += 1


@unit(UNITS, quick=[dict(n=n) for n in range(0, 7)], thorough=[dict(n=n) for n in range(0, 9)])
def torontonian(ctx, n):
    """tor, ltor and the exported kernels on every matrix of the alphabet, real and complex, every layout."""
    import thewalrus as tw

    if n == 0:
        Z = np.zeros((0, 0))
        for rec in (True, False):
            ctx.eq((0, rec), lambda: tw.tor(Z, recursive=rec), 1.0)
            ctx.eq((0, "l", rec), lambda: tw.ltor(Z, np.zeros(0), recursive=rec), 1.0)
            ctx.eq((0, "c", rec), lambda: tw.tor(Z.astype(complex), recursive=rec), 1.0)
        return
    for q, (name, mu, cov) in enumerate(mats(n)):
        O = O_of(cov)
        O = O_l = (O + O.conj().T) / 2
        alts = [(name, O)]
        if np.allclose(O.imag, 0, atol=1e-12):
            alts.append((name + "-real", O.real.copy()))
        for nm, X in alts:
            want, sc, st = incl_excl(X)
            ctx.count(states=st, transitions=n * st)
            for lay in (al.LAYOUTS if n < 5 else al.LAYOUTS[:1]):
                Y = al.layout(X, lay)
                for rec in (True, False):
                    ctx.eq((n, nm, lay, rec), lambda: tw.tor(Y, recursive=rec), want, scale=sc, tol=1e-8, data=X)
                ctx.count(traces=2)
            ctx.eq((n, nm, "default"), lambda: tw.tor(X), want, scale=sc, tol=1e-8)
            ctx.eq((n, nm, "numba_tor"), lambda: tw.numba_tor(X), want, scale=sc, tol=1e-8)
            ctx.eq((n, nm, "rec_tor"), lambda: tw.rec_torontonian(X), want, scale=sc, tol=1e-8)
        # displaced versions: gamma = (c, c*) as for physical displacements
        gammas = [("zero", np.zeros(2 * n)), ("real", np.tile(al.vec_int(n, q) * 0.3, 2))]
        c = al.vec_gauss(n, q + 3) * 0.25
        gammas.append(("cplx", np.concatenate([c, c.conj()])))
        e = np.zeros(n, dtype=complex)
        e[n - 1] = 0.5 - 0.25j
        gammas.append(("one", np.concatenate([e, e.conj()])))
        for gn, gamma in gammas:
            want, sc, st = incl_excl(O, gamma)
            ctx.count(states=st, transitions=n * st, traces=1)
            Os = [("", O)] if "-real" not in alts[-1][0] else [("", O), ("-real", O.real.copy())]
            for on, X in Os:
                for rec in (True, False):
                    ctx.eq((n, name + on, gn, "ltor", rec), lambda: tw.ltor(X, gamma, recursive=rec), want, scale=sc, tol=1e-8, data=(X, gamma))
                ctx.eq((n, name + on, gn, "numba_ltor"), lambda: tw.numba_ltor(X, gamma), want, scale=sc, tol=1e-8)
                ctx.eq((n, name + on, gn, "rec_ltor"), lambda: tw.rec_ltorontonian(X, gamma), want, scale=sc, tol=1e-8)
            if n < 4:
                for lay in al.LAYOUTS[1:]:
                    for rec in (True, False):
                        ctx.eq((n, name, gn, lay, rec), lambda: tw.ltor(al.layout(O, lay), al.layout(gamma, lay), recursive=rec),
                               want, scale=sc, tol=1e-8)
            if gn == "zero":
                ctx.eq((n, name, "lt=t"), lambda: tw.ltor(O, gamma), incl_excl(O)[0], scale=sc, tol=1e-8)


@unit(UNITS, quick=[dict(n=1), dict(n=2), dict(n=3), dict(n=4), dict(n=5)], thorough=[dict(n=n) for n in range(1, 8)])
def detection(ctx, n):
    """threshold_detection_prob for every state, click pattern, hbar and container; patterns add up to one."""
    import thewalrus as tw
    from thewalrus.samples import threshold_detection_prob as tdp2

    for q, (name, mu0, cov0) in enumerate(mats(n)):
        for hbar in (2, 1, 0.5, 1.7):
            if n > 3 and hbar not in (2, 1.7):
                continue
            mu, cov = g.to_hbar(mu0, cov0, hbar)
            tot = 0.0
            for r, pat in enumerate(itertools.product((0, 1), repeat=n)):
                want = g.click_prob(mu0, cov0, pat)
                ctx.count(states=2 ** sum(pat), transitions=sum(pat) * 2 ** sum(pat), traces=1)
                p = (np.array(pat), list(pat), tuple(pat), np.array(pat, dtype=np.int8))[(q + r) % 4]
                if hbar == 2 and r % 2:
                    got = ctx.eq((n, name, hbar, pat), lambda: tw.threshold_detection_prob(mu, cov, p), want, tol=1e-9, data=(mu, cov))
                else:
                    got = ctx.eq((n, name, hbar, pat), lambda: tw.threshold_detection_prob(mu, cov, p, hbar=hbar), want, tol=1e-9, data=(mu, cov))
                tot += float(np.real(got)) if got is not None else 0
            if ctx.only is None:
                ctx.eq((n, name, hbar, "sum"), lambda: tot, 1.0, tol=1e-8)
        # tiny displacements on either side of the zero-displacement branch
        for eps in (1e-11, 1e-9, 1e-6, 1e-4):
            v = np.zeros(2 * n)
            v[n - 1] = eps
            for pat in itertools.product((0, 1), repeat=n):
                ctx.eq((n, name, "tiny", eps, pat), lambda: tw.threshold_detection_prob(v, cov0, list(pat)),
                       g.click_prob(v, cov0, pat), tol=1e-9)
        pat = (1,) * n
        ctx.eq((n, name, "samples"), lambda: tdp2(mu0, cov0, list(pat)), g.click_prob(mu0, cov0, pat), tol=1e-9)
        # relabelling the modes relabels the pattern
        if n > 1:
            rot = list(range(1, n)) + [0]
            ix = rot + [i + n for i in rot]
            for pat in itertools.product((0, 1), repeat=n):
                ctx.eq((n, name, "relabel", pat), lambda: tw.threshold_detection_prob(mu0[ix], cov0[np.ix_(ix, ix)], [pat[i] for i in rot]),
                       g.click_prob(mu0, cov0, pat), tol=1e-9)


@unit(UNITS, quick=[dict(n=7), dict(n=8), dict(n=9)], thorough=[dict(n=n) for n in (7, 8, 9, 10, 11)])
def wide(ctx, n):
    """More modes: every algorithm on a few states and the patterns with few, nearly all and all clicks."""
    import thewalrus as tw

    for name, mu, cov, _ in g.states(n, which=("coh", "thermal", "pure+d", "mixed+d", "lossy", "tms", "part-vac")):
        O = O_of(cov)
        O = (O + O.conj().T) / 2
        c = al.vec_gauss(n, 3) * 0.2
        gamma = np.concatenate([c, c.conj()])
        want, sc, st = incl_excl(O)
        ctx.count(states=st, transitions=n * st, traces=4)
        for rec in (True, False):
            ctx.eq((n, name, "tor", rec), lambda: tw.tor(O, recursive=rec), want, scale=sc, tol=1e-9, data=O)
        want, sc, st = incl_excl(O, gamma)
        for rec in (True, False):
            ctx.eq((n, name, "ltor", rec), lambda: tw.ltor(O, gamma, recursive=rec), want, scale=sc, tol=1e-9, data=(O, gamma))
        pats = {(1,) * n, (0,) * n, tuple(i % 2 for i in range(n)), tuple((i + 1) % 2 for i in range(n))}
        for i in range(n):
            pats |= {tuple(int(j == i) for j in range(n)), tuple(int(j != i) for j in range(n)), tuple(int(j < i) for j in range(n))}
        for hb in (2, 1.7):
            m, V = g.to_hbar(mu, cov, hb)
            for pat in sorted(pats):
                want = g.click_prob(mu, cov, pat)
                ctx.count(states=2 ** sum(pat), transitions=sum(pat) * 2 ** sum(pat), traces=1)
                ctx.eq((n, name, hb, pat), lambda: tw.threshold_detection_prob(m, V, pat, hbar=hb), want, tol=1e-9, data=(m, V))


@unit(UNITS, quick=[dict(n=n) for n in (1, 2, 3, 4)], thorough=[dict(n=n) for n in (1, 2, 3, 4, 5)])
def forms(ctx, n):
    """Every layout and dtype of means, covariance and pattern; hot, bright and strongly squeezed states."""
    import thewalrus as tw

    kinds = (list, tuple, np.array, lambda p: np.array(p, dtype=bool), lambda p: np.array(p, dtype=np.uint8),
             lambda p: [bool(x) for x in p], lambda p: al.layout(np.array(p), "neg"), lambda p: [np.int64(x) for x in p])
    for q, (name, mu0, cov0, _) in enumerate(g.formed(n)):
        for hb in (2, 1.7) if "int" not in name else (2,):
            mu, cov = (mu0, cov0) if hb == 2 else g.to_hbar(mu0, cov0, hb)
            keep = mu.copy(), cov.copy()
            for r, pat in enumerate(itertools.product((0, 1), repeat=n)):
                want = g.click_prob(np.asarray(mu0, dtype=float), np.asarray(cov0, dtype=float), pat)
                ctx.count(states=2 ** sum(pat), transitions=sum(pat) * 2 ** sum(pat), traces=1)
                for k in range(len(kinds)) if n < 3 else ((q + r) % len(kinds),):
                    ctx.eq((n, name, hb, pat, k), lambda: tw.threshold_detection_prob(mu, cov, kinds[k](pat), hbar=hb), want, tol=1e-9, data=(mu, cov))
            ctx.true((n, name, hb, "inputs"), lambda: np.array_equal(mu, keep[0]) and np.array_equal(cov, keep[1]))
