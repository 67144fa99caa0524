"""C09: montrealers: sums over the matchings that close a single cycle (or open a single path) through all modes."""
import itertools

import numpy as np

from mc import alphabet as al
from mc import gauss as g
from mc.core import unit

PROPERTY = "C09"
LEVEL = "model_checking"
RULE = (
    "states are (set of modes already visited, current endpoint), transitions one more matched pair; the weight of all "
    "Hamiltonian cycles (mtl) and paths (lmtl) is accumulated over every state and compared with the implementation "
    "(one trace per compared call)"
)
ASSUMPTIONS = ["loop vectors have the physical form (c, conj(c)) and the loop weights are their conjugates, as in the reference implementation"]
UNITS = []


def cyc(A, L=None):
    """(cycle sum [+ path sum with loop weights L], states, transitions).  Nodes i and i+n belong to mode i."""
    n = len(A) // 2
    full = (1 << n) - 1
    mate = lambda v: v + n if v < n else v - n
    trans = 0
    # cycles: start at mode 0, leave through node n, come back to node 0
    cur = {(1, n): 1.0}
    states = 1
    for _ in range(n - 1):
        new = {}
        for (mask, v), w in cur.items():
            for u in range(2 * n):
                b = 1 << (u % n)
                if mask & b:
                    continue
                key = (mask | b, mate(u))
                new[key] = new.get(key, 0) + w * A[v, u]
                trans += 1
        cur = new
        states += len(cur)
    tot = sum(w * A[v, 0] for (mask, v), w in cur.items())
    if L is None:
        return tot, states, trans
    # paths: a loop on some node s, out of its mate, ..., a loop on the last node; each undirected path found twice
    cur = {}
    for s in range(2 * n):
        key = (1 << (s % n), mate(s))
        cur[key] = cur.get(key, 0) + L[s]
    for _ in range(n - 1):
        new = {}
        for (mask, v), w in cur.items():
            for u in range(2 * n):
                b = 1 << (u % n)
                if mask & b:
                    continue
                key = (mask | b, mate(u))
                new[key] = new.get(key, 0) + w * A[v, u]
                trans += 1
        cur = new
        states += len(cur)
    p = sum(w * L[v] for (mask, v), w in cur.items())
    return tot + p / 2, states, trans


def cases(n):
    N = 2 * n
    for name, A in al.sym_families(N):
        yield name, np.asarray(A, dtype=complex if np.iscomplexobj(A) else float)
    for name, mu, cov, _ in g.states(n, disp=False):
        _, Nn, M = g.cplx(mu, cov)
        yield "state-" + name, np.block([[M.conj(), Nn], [Nn.T, M]])


@unit(UNITS, quick=[dict(n=1), dict(n=2), dict(n=3), dict(n=4), dict(n=5), dict(n=6), dict(n=7)], thorough=[dict(n=n) for n in range(1, 10)])
def montrealers(ctx, n):
    import thewalrus as tw
    from thewalrus.reference import mtl as ref_mtl

    zs = [("0", np.zeros(n, dtype=complex)), ("1", np.ones(n, dtype=complex)), ("c", al.vec_gauss(n, 1) * 0.5),
          ("e", np.eye(n)[n - 1] * (1 - 2j)), ("r", al.vec_int(n, 3) + 0j)]
    for q, (name, A) in enumerate(cases(n)):
        B, _, _ = cyc(np.abs(A), np.zeros(2 * n))
        want, st, tr = cyc(A)
        ctx.count(states=st, transitions=tr, traces=1)
        big = max(np.linalg.norm(A, 2), 1e-12) ** n
        lays = al.LAYOUTS if n in (2, 3) else ("C",)
        for lay in lays:
            ctx.eq((n, name, lay, "mtl"), lambda: tw.mtl(al.layout(A, lay)), want, scale=B + 1e-2 * big, data=A)
        if n <= 4:
            ctx.eq((n, name, "ref"), lambda: ref_mtl(A), want, scale=B + 1e-9, data=A)
        if n <= 4 and q % 3 == 0:
            c = al.vec_gauss(2 * n, 5) * 0.5
            Ad = A.astype(complex).copy()
            np.fill_diagonal(Ad, c)
            w, st, tr = cyc(Ad, c)
            b, _, _ = cyc(np.abs(Ad), np.abs(c))
            ctx.eq((n, name, "refloop"), lambda: ref_mtl(Ad, loop=True), w, scale=b + 1e-9, data=Ad)
        for zn, c in zs:
            zeta = np.concatenate([c, c.conj()])
            L = zeta.conj()
            w, st, tr = cyc(A, L)
            b, _, _ = cyc(np.abs(A), np.abs(L))
            ctx.count(states=st, transitions=tr, traces=1)
            bg = (np.linalg.norm(A, 2) + 1e-12) ** (n - 1) * (np.linalg.norm(c) ** 2 + np.linalg.norm(A, 2))
            Ac = A.astype(complex)
            for lay in lays:
                ctx.eq((n, name, zn, lay, "lmtl"), lambda: tw.lmtl(al.layout(Ac, lay), al.layout(zeta, lay)), w, scale=b + 1e-2 * bg, data=(Ac, zeta))
            if zn in ("1", "r") and np.isrealobj(A):
                ctx.eq((n, name, zn, "real"), lambda: tw.lmtl(A, zeta.real.copy()), w, scale=b + 1e-2 * bg, data=(A, zeta))
            if n >= 6 and zn not in ("c", "1"):
                continue


@unit(UNITS, quick=[dict(n=n) for n in (1, 2, 3, 4)], thorough=[dict(n=n) for n in (1, 2, 3, 4, 5, 6)])
def cumulants(ctx, n):
    """The montrealer of the normally ordered covariances is the photon-number cumulant of all modes."""
    import thewalrus as tw
    from mc.checks.c14 import number_cumulant

    for name, mu, cov, _ in g.states(n):
        a, N, M = g.cplx(mu, cov)
        A = np.block([[M.conj(), N], [N.T, M]])
        want = number_cumulant(mu, cov, list(range(n)))
        # <n_1 ... n_N> cumulant: normal ordering only matters for repeated modes
        zeta = np.concatenate([a, a.conj()])
        ctx.eq((n, name), lambda: tw.lmtl(A.astype(complex), zeta.astype(complex)), want, tol=1e-8, data=(mu, cov))
        ctx.count(traces=1)


@unit(UNITS, quick=[dict(n=8), dict(n=9)], thorough=[dict(n=10), dict(n=11)])
def wide(ctx, n):
    """Eight and more modes on a few matrices."""
    import thewalrus as tw

    c = al.vec_gauss(n, 1) * 0.5
    zeta = np.concatenate([c, c.conj()])
    for name, A in cases(n):
        if name not in ("ones", "cycle", "antidiag+loops", "real1", "gauss1", "state-mixed", "state-tms", "bipartite"):
            continue
        want, st, tr = cyc(A)
        sc = cyc(np.abs(A))[0] + 1e-2 * max(np.linalg.norm(A, 2), 1e-12) ** n
        ctx.count(states=st, transitions=tr, traces=2)
        ctx.eq((n, name, "mtl"), lambda: tw.mtl(A), want, scale=sc, data=A)
        want, st, tr = cyc(A, zeta.conj())
        sc = cyc(np.abs(A), np.abs(zeta))[0] + 1e-2 * (np.linalg.norm(A, 2) + 1e-12) ** (n - 1) * (np.linalg.norm(c) ** 2 + np.linalg.norm(A, 2))
        ctx.count(states=st, transitions=tr)
        ctx.eq((n, name, "lmtl"), lambda: tw.lmtl(A.astype(complex), zeta), want, scale=sc, data=A)


@unit(UNITS, quick=[dict(n=n) for n in (1, 2, 3, 4)])
def scales(ctx, n):
    """Tiny and huge matrices and loop vectors: both sums rescale with them."""
    import thewalrus as tw

    zs = [("c", al.vec_gauss(n, 1) * 0.5), ("e", np.eye(n)[n - 1] * (1 - 2j)), ("r", al.vec_int(n, 3, 1, 3) + 0j)]
    for name, A0 in cases(n):
        nA = max(np.linalg.norm(A0, 2), 1e-2)
        for s in (1e-12, 1e-9, 1e-6, 1e-3, 1e6):
            A = A0 * s
            want, st, tr = cyc(A0)
            ctx.count(states=st, transitions=tr, traces=1)
            ctx.eq((n, name, s, "mtl"), lambda: tw.mtl(A), want * s**n, scale=(cyc(np.abs(A0))[0] + nA**n) * s**n, tol=1e-8, data=A)
            for zn, c0 in zs:
                for r in (s**0.5, 1e-9, 1e-5, 1e3):
                    zeta = np.concatenate([c0, c0.conj()]) * r
                    L = zeta.conj()
                    w, st, tr = cyc(A, L)
                    ctx.count(states=st, transitions=tr, traces=1)
                    bg = (nA * s) ** (n - 1) * ((np.linalg.norm(c0) * r) ** 2 + nA * s)
                    ctx.eq((n, name, s, zn, r, "lmtl"), lambda: tw.lmtl(A.astype(complex), zeta), w,
                           scale=cyc(np.abs(A), np.abs(L))[0] + bg, tol=1e-8, data=(A, zeta))
