"""C33: bounds on the total variation distance due to a Fock cutoff."""
import itertools

import numpy as np

from mc import gauss as g
from mc.core import unit

PROPERTY = "C33"
LEVEL = "model_checking"
RULE = (
    "states are the photon patterns inside the cutoff box, transitions the lowering steps of the reference recursion; for "
    "every state, hbar, displacement and cutoff the bound is compared with the sum of the single-mode tails and with the "
    "mass outside the box (one trace per bound)"
)
ASSUMPTIONS = ["agreement up to 1e-9; a bound may lie below the true mass by at most 1e-10 (rounding)"]
UNITS = []
HB = (2, 1, 0.5, 1.7)


def reduce(mu, cov, modes):
    n = len(mu) // 2
    ix = list(modes) + [m + n for m in modes]
    return mu[ix], cov[np.ix_(ix, ix)]


@unit(UNITS, quick=[dict(n=n) for n in (1, 2, 3, 4, 5)], thorough=[dict(n=n) for n in (1, 2, 3, 4, 5, 6)])
def bounds(ctx, n):
    from thewalrus.quantum import tvd_cutoff_bounds

    T = {1: 14, 2: 9, 3: 7, 4: 5, 5: 4, 6: 4}[n] + (3 if ctx.thorough and n < 5 else 0)
    box = {1: T, 2: 7, 3: 4, 4: 3, 5: 2, 6: 2}[n] + (1 if ctx.thorough and n < 4 else 0)
    for name, mu0, cov0, _ in g.states(n):
        tails = np.zeros(T)
        for i in range(n):
            m1, c1 = reduce(mu0, cov0, [i])
            rho, tr = g.dm_lattice(m1, c1, T)
            tails += 1 - np.cumsum(np.real(np.diag(rho)))
            ctx.count(states=rho.size, transitions=tr)
        P = np.zeros((box,) * n)
        for idx in itertools.product(range(box), repeat=n):
            P[idx] = np.real(g.dm_element(mu0, cov0, idx, idx))
        ctx.count(states=P.size, transitions=P.size * n)
        out = np.array([1 - P[(slice(0, c + 1),) * n].sum() for c in range(box)])
        for hb in HB:
            mu, cov = g.to_hbar(mu0, cov0, hb)
            cuts = range(1, T + 1) if hb in (2, 1.7) else (1, T)
            for c in cuts:
                got = ctx.eq((n, name, hb, c), lambda: tvd_cutoff_bounds(mu, cov, c, hbar=hb), tails[:c], tol=1e-9, data=(mu, cov))
                ctx.count(traces=1)
                if got is not None:
                    m = min(c, box)
                    ctx.true((n, name, hb, c, "upper"), lambda: None if np.all(np.asarray(got)[:m] >= out[:m] - 1e-10) else "bound %s below the mass outside the box %s" % (got[:m], out[:m]), data=(mu, cov))
            ctx.eq((n, name, hb, "unchecked"), lambda: tvd_cutoff_bounds(mu, cov, T, hbar=hb, check_is_valid_cov=False), tails, tol=1e-9)
            bad = cov * 0.3 if name in ("vac", "coh") else cov - 1.05 * hb / 2 * np.eye(2 * n) * np.min(np.linalg.eigvalsh(cov0))
            ctx.raises((n, name, hb, "unphysical"), lambda: tvd_cutoff_bounds(mu, bad, 3, hbar=hb), ValueError)
        ctx.eq((n, name, "default"), lambda: tvd_cutoff_bounds(mu0, cov0, 4), tails[:4], tol=1e-9)
        # a state that is physical in hbar=1 units only is rejected in hbar=2 units
        if name in ("vac", "coh", "pure", "sq"):
            ctx.raises((n, name, "units"), lambda: tvd_cutoff_bounds(mu0, cov0 / 2, 3), ValueError)
        ctx.true((n, name, "monotone"), lambda: bool(np.all(np.diff(tvd_cutoff_bounds(mu0, cov0, T)) <= 1e-12)))


@unit(UNITS, quick=[dict(n=n) for n in (1, 2, 3, 4)])
def forms(ctx, n):
    """Other layouts and types, hot, bright and strongly squeezed states."""
    from thewalrus.quantum import tvd_cutoff_bounds

    T = 12
    for name, mu, cov, _ in g.formed(n):
        mu0, cov0 = np.array(mu, dtype=float), np.array(cov, dtype=float)
        tails = np.zeros(T)
        for i in range(n):
            m1, c1 = reduce(mu0, cov0, [i])
            rho, tr = g.dm_lattice(m1, c1, T)
            tails += 1 - np.cumsum(np.real(np.diag(rho)))
            ctx.count(states=rho.size, transitions=tr)
        ctx.eq((n, name), lambda: tvd_cutoff_bounds(mu, cov, T), tails, tol=1e-8, data=(mu, cov))
        ctx.count(traces=1)


@unit(UNITS, quick=[dict(n=n) for n in (6, 9, 12)])
def wide(ctx, n):
    """Many modes: every mode contributes its own tail."""
    from thewalrus.quantum import tvd_cutoff_bounds

    T = 6
    for k in range(4):
        rs = np.array([0.1 * ((k + 2 * i) % 5) * (-1) ** i for i in range(n)])
        S = g.passive(g.unitary(n, k)) @ g.sq(rs) if k % 2 else g.sq(rs, 0.3 * np.arange(n))
        V = S @ np.diag(np.tile(1 + 0.1 * ((np.arange(n) + k) % 3), 2)) @ S.T
        V = (V + V.T) / 2
        for d in [np.zeros(2 * n)] + [np.eye(2 * n)[j] * 0.9 for j in range(2 * n)] + [np.array([0.3 * (-1) ** i for i in range(2 * n)])]:
            tails = np.zeros(T)
            for i in range(n):
                rho, tr = g.dm_lattice(*reduce(d, V, [i]), T)
                tails += 1 - np.cumsum(np.real(np.diag(rho)))
                ctx.count(states=rho.size, transitions=tr)
            hb = HB[k]
            mu, cov = g.to_hbar(d, V, hb)
            ctx.eq((n, k, d, hb), lambda: tvd_cutoff_bounds(mu, cov, T, hbar=hb), tails, tol=1e-9, data=(mu, cov))
            ctx.count(traces=1)
