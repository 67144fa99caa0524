"""C13: loss and noise acting on photon-number probabilities."""
import itertools
import math

import numpy as np

from mc import alphabet as al
from mc import gauss as g
from mc.core import unit

PROPERTY = "C13"
LEVEL = "model_checking"
RULE = (
    "states are probability tensors reached from basis tensors (Fock states), transitions loss or noise updates; updates "
    "are linear, so all basis tensors decide every tensor of that shape; every update history in the bounds is compared "
    "with the explicit channel (one trace per history)"
)
ASSUMPTIONS = ["transmissions and noise laws come from fixed grids"]
UNITS = []
ETAS = (0.0, 1.0, 0.5, 0.3, 0.9, 1e-6, 1 - 1e-7, 0.999)


def binom_mat(eta, c):
    M = np.zeros((c, c))
    for i in range(c):
        for j in range(i + 1):
            M[i, j] = math.comb(i, j) * (eta ** j) * ((1 - eta) ** (i - j))
    return M


def lossy(P, etas):
    for ax, eta in enumerate(etas):
        P = np.moveaxis(np.tensordot(binom_mat(eta, P.shape[ax]), P, axes=(0, ax)), 0, ax)
    return P


def noisy(P, laws):
    for ax, q in enumerate(laws):
        c = P.shape[ax]
        T = np.zeros((c, c))
        for i in range(c):
            for k, v in enumerate(q):
                if i + k < c:
                    T[i, i + k] = v
        P = np.moveaxis(np.tensordot(T, P, axes=(0, ax)), 0, ax)
    return P


@unit(UNITS)
def matrices(ctx):
    """loss_mat for every cutoff and transmission; rows are binomial laws, losses compose, bad values are rejected."""
    from thewalrus.quantum import loss_mat

    cuts = list(range(0, 13)) + [30, 50, 64, 170, 171, 200]
    for eta in ETAS + (0, 1, 0.25, 0.75, 1e-12, 1 - 1e-12):
        for c in cuts:
            ctx.eq((eta, c), lambda: loss_mat(eta, c), binom_mat(eta, c), tol=1e-10)
            ctx.count(states=c * c, transitions=c * c, traces=1)
    for a, b in itertools.product(ETAS, repeat=2):
        ctx.eq(("compose", a, b), lambda: loss_mat(a, 12) @ loss_mat(b, 12), binom_mat(a * b, 12), tol=1e-10)
    for bad in (-0.1, 1.1, -1e-9, 1 + 1e-9, 2, -1):
        ctx.raises(("bad", bad), lambda: loss_mat(bad, 4), ValueError)


def shapes(n):
    out = [(c,) * n for c in {1: (1, 2, 5, 9), 2: (1, 2, 4, 5), 3: (2, 3), 4: (2,)}[n]]
    if n > 1:
        out += [tuple(2 + i for i in range(n)), tuple(4 - i for i in range(n)) if n < 4 else (3, 2, 1, 2), (1,) * (n - 1) + (3,), (4,) + (2,) * (n - 1)]
    return out


def laws(n, k):
    base = [[1.0], [0.5, 0.5], [0.2, 0.3, 0.1, 0.25, 0.1, 0.05], [0.0, 1.0], [0.9, 0.0, 0.1], [0.7]]
    return [np.array(base[(k + 2 * i) % len(base)]) for i in range(n)]


@unit(UNITS, quick=[dict(n=n) for n in (1, 2, 3, 4)])
def updates(ctx, n):
    """Every basis tensor of every shape under single updates with every transmission tuple and noise law."""
    from thewalrus.quantum import update_probabilities_with_loss as L, update_probabilities_with_noise as N

    es = ETAS if n == 1 else (0.0, 1.0, 0.4, 0.85) if n == 2 else (1.0, 0.4) if n == 3 else (0.7, 0.2)
    for box in shapes(n):
        basis = list(np.ndindex(*box))
        for b, idx in enumerate(basis):
            P = np.zeros(box)
            P[idx] = 1
            for t, etas in enumerate(itertools.product(es, repeat=n)):
                f = (list, tuple, np.array)[(b + t) % 3]
                want = lossy(P, etas)
                ctx.eq((box, idx, etas), lambda: L(f(etas), P), want, tol=1e-10)
                ctx.count(states=1, transitions=n, traces=1)
            for k in range(6):
                q = laws(n, k)
                ctx.eq((box, idx, "noise", k), lambda: N(q, P), noisy(P, q), tol=1e-10)
                ctx.count(states=1, transitions=n, traces=1)
                # the same laws as views of longer arrays: entries behind the end of the law must not matter
                big = [np.concatenate([x, np.full(6, 7.0)])[: len(x)] for x in q]
                ctx.eq((box, idx, "noise view", k), lambda: N(big, P), noisy(P, q), tol=1e-10)
            Pi = P.astype(int)
            ctx.eq((box, idx, "int loss"), lambda: L([0.4] * n, Pi), lossy(P, [0.4] * n), tol=1e-10)
            ctx.eq((box, idx, "int noise"), lambda: N(laws(n, 2), Pi), noisy(P, laws(n, 2)), tol=1e-10)
        # a dense tensor in every memory layout, left unchanged
        for lay in ("C", "F", "T", "slice"):
            D = np.fromfunction(lambda *ix: sum((k + 1) * (x + 1) for k, x in enumerate(ix)) % 7 + 0.5, box)
            D = D / D.sum()
            X = np.asfortranarray(D) if lay == "F" else np.repeat(D, 2, axis=0)[::2] if lay == "slice" else D if lay == "C" else np.ascontiguousarray(D.T).T
            etas = [0.3 + 0.15 * i for i in range(n)]
            ctx.eq((box, lay, "dense loss"), lambda: L(etas, X), lossy(D, etas), tol=1e-10)
            ctx.eq((box, lay, "dense noise"), lambda: N(laws(n, 2), X), noisy(D, laws(n, 2)), tol=1e-10)
            ctx.true((box, lay, "unchanged"), lambda: bool(np.array_equal(X, D)))
        ctx.raises((box, "len"), lambda: L([0.5] * (n + 1), np.ones(box)), ValueError)
        ctx.raises((box, "len0"), lambda: N([np.array([1.0])] * (n + 1), np.ones(box)), ValueError)
        ctx.raises((box, "bad eta"), lambda: L([0.5] * (n - 1) + [1.5], np.ones(box)), ValueError)


@unit(UNITS, quick=[dict(n=1, depth=4), dict(n=2, depth=3), dict(n=3, depth=2)], thorough=[dict(n=1, depth=6), dict(n=2, depth=4), dict(n=3, depth=3)])
def histories(ctx, n, depth):
    """Every sequence of updates up to the depth; total probability never grows and is kept by losses."""
    from thewalrus.quantum import update_probabilities_with_loss as L, update_probabilities_with_noise as N

    ops = [("L", [0.6 - 0.1 * i for i in range(n)]), ("L", [1.0] * n), ("L", [1.0] * (n - 1) + [0.5]), ("N", laws(n, 1)), ("N", laws(n, 2))]
    box = {1: (6,), 2: (4, 3), 3: (3, 2, 3)}[n]
    D = np.fromfunction(lambda *ix: sum((k + 1) * (x + 1) for k, x in enumerate(ix)) % 5 + 1.0, box)
    D = D / D.sum()
    for d in range(1, depth + 1):
        for prog in itertools.product(range(len(ops)), repeat=d):
            def run():
                P = D
                for o in prog:
                    P = (L if ops[o][0] == "L" else N)(ops[o][1], P)
                return P

            W = D
            for o in prog:
                W = (lossy if ops[o][0] == "L" else noisy)(W, ops[o][1])
            ctx.eq((n, prog), run, W, tol=1e-10)
            ctx.count(states=1, transitions=d, traces=1)


@unit(UNITS, quick=[dict(n=1), dict(n=2)])
def states(ctx, n):
    """Loss on the probabilities of a Gaussian state equals the probabilities of the lossy Gaussian state."""
    from thewalrus import quantum as qm

    D = 36 if n == 1 else 16
    B = 5 if n == 1 else 4
    for name, mu, cov, _ in g.states(n):
        if n == 2 and name not in ("pure+d", "lossy", "tms", "coh", "sq", "classical+d"):
            continue
        P = None
        for etas in ([0.5, 0.8][:n], [1.0, 0.3][:n], [0.0, 1.0][:n]):
            m2, c2 = g.lossy(mu, cov, etas)
            want = np.zeros((B,) * n)
            for idx in np.ndindex(*want.shape):
                want[idx] = np.real(g.dm_element(m2, c2, idx, idx))
            ctx.count(states=want.size, transitions=want.size, traces=1)

            def run():
                rho, _ = (None, None)
                Pr = probs(name, mu, cov, D, n)
                return qm.update_probabilities_with_loss(etas, Pr)[(slice(0, B),) * n]

            ctx.eq((n, name, etas), run, want, tol=1e-4 if n == 2 else 1e-6)


_P = {}


def probs(name, mu, cov, D, n):
    if (name, n) not in _P:
        from mc import oracles as orc

        pref, A, ga = g.husimi(mu, cov)
        # diagonal only: scaled lattice by the real recursion over the diagonal box via dm_lattice for one mode
        if n == 1:
            rho, _ = g.dm_lattice(mu, cov, D)
            _P[name, n] = np.real(np.diagonal(rho)).copy()
        else:
            P = np.zeros((D, D))
            for idx in np.ndindex(D, D):
                P[idx] = np.real(g.dm_element(mu, cov, idx, idx)) if sum(idx) < D else 0.0
            _P[name, n] = P
    return _P[name, n]


@unit(UNITS, quick=[dict(n=n) for n in (5, 8, 9, 10, 11, 12, 13)])
def wide(ctx, n):
    """Tensors on many modes: each mode alone, all modes at once, and noise, on a dense tensor and on basis tensors."""
    from thewalrus.quantum import update_probabilities_with_loss as L, update_probabilities_with_noise as N

    for box in ((2,) * n, (1,) * (n - 3) + (3, 1, 2), (2, 3) + (1,) * (n - 3) + (4,)):
        D = np.fromfunction(lambda *ix: sum((k + 1) * x for k, x in enumerate(ix)) % 7 + 0.5, box)
        D = D / D.sum()
        etas = [0.95 - 0.06 * i for i in range(n)]
        q = laws(n, 1)
        ctx.eq((box, "all"), lambda: L(etas, D), lossy(D, etas), tol=1e-10)
        ctx.eq((box, "noise"), lambda: N(q, D), noisy(D, q), tol=1e-10)
        ctx.eq((box, "both"), lambda: N(q, L(etas, D)), noisy(lossy(D, etas), q), tol=1e-10)
        ctx.eq((box, "both'"), lambda: L(etas, N(q, D)), lossy(noisy(D, q), etas), tol=1e-10)
        for m in range(n):
            one = [0.35 if i == m else 1.0 for i in range(n)]
            law = [np.array([0.6, 0.3, 0.1]) if i == m else np.array([1.0]) for i in range(n)]
            ctx.eq((box, m, "one"), lambda: L(one, D), lossy(D, one), tol=1e-10)
            ctx.eq((box, m, "one noise"), lambda: N(law, D), noisy(D, law), tol=1e-10)
            B = np.zeros(box)
            B[tuple(s - 1 if i <= m else 0 for i, s in enumerate(box))] = 1
            ctx.eq((box, m, "basis"), lambda: L(etas, B), lossy(B, etas), tol=1e-10)
            ctx.count(states=D.size, transitions=3 * n, traces=3)
