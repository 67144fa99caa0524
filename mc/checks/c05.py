"""C05: loop_hafnian_batch and loop_hafnian_batch_gamma are the vectors of loop hafnians they stand for."""
import itertools

import numpy as np

from mc import alphabet as al
from mc import oracles as orc
from mc.checks.c02 import big
from mc.core import unit

PROPERTY = "C05"
LEVEL = "model_checking"
RULE = (
    "states are multiplicity vectors (fixed part, batched mode), transitions the lowering steps of the defining "
    "recursion; for every fixed vector in the box and every cutoff the returned batch is compared entry by entry "
    "(one trace per returned batch)"
)
ASSUMPTIONS = ["agreement up to 1e-7 relative to the same quantity with entrywise absolute values"]
UNITS = []

BOX = {0: 0, 1: 6, 2: 4, 3: 3, 4: 2, 5: 1}
CUT = {0: 9, 1: 8, 2: 7, 3: 5, 4: 4, 5: 3}


def mats(m, k):
    A = [al.sym_gauss(m, 2), al.sym_real(m, 1), al.sym_int(m, 5), np.ones((m, m))][k]
    return A


def configs(tier):
    fs = ((0, 1, 2), (3, 4, 5)) if tier == "quick" else ((0, 1, 2), (3,), (4,), (5,), (6,))
    return [dict(fs=f, gamma=g, odd=o) for g in (True, False) for o in (1, 0) for f in fs]


@unit(UNITS, quick=configs("quick"), thorough=configs("thorough"))
def batch(ctx, fs, gamma, odd):
    for f in fs:
        if f or not odd:
            batch_f(ctx, f, gamma, odd)


def batch_f(ctx, f, gamma, odd):
    from thewalrus.loop_hafnian_batch import loop_hafnian_batch
    from thewalrus.loop_hafnian_batch_gamma import loop_hafnian_batch_gamma

    m = f + 1
    b = BOX.get(f, 1) + (1 if ctx.thorough else 0)
    cmax = CUT.get(f, 2) + (2 if ctx.thorough else 0)
    q = 0
    for k in range(4 if f < 4 else 2):
        A = mats(m, k)
        Ds = [al.vec_gauss(m, 1), al.vec_int(m, 2, -4, 4) / 4.0, np.zeros(m), al.vec_gauss(m, 7) * np.eye(m)[m - 1]]
        lat = []
        for D in Ds:
            H, tr = orc.lhaf_lattice(A, D, (b + 1,) * f + (cmax + 1,))
            B, _ = orc.lhaf_lattice(np.abs(A), np.abs(D), (b + 1,) * f + (cmax + 1,))
            ctx.count(states=H.size, transitions=tr)
            bigs = np.array([big(A, D, N) for N in range(f * b + cmax + 1)])
            lat.append((H, np.abs(B), bigs))
        for reps in itertools.product(range(b + 1), repeat=f):
            N = sum(reps)
            if N % 2 != odd:
                continue
            for c in range(cmax + 1):
                glynns = (True, False) if (f < 4 or ctx.thorough) else ((q % 2 == 0),)
                for glynn in glynns:
                    q += 1
                    r = (list, tuple, np.array)[q % 3](reps) if f else []
                    if gamma:
                        sets = [(0,), (0, 1), (0, 1, 2, 3), (2,)]
                        js = sets[q % 4]
                        D = np.array([Ds[j] for j in js], dtype=complex)
                        want = np.array([lat[j][0][reps + (slice(0, c + 1),)] for j in js])
                        sc = np.array([lat[j][1][reps + (slice(0, c + 1),)] + 1e-3 * lat[j][2][N:N + c + 1] for j in js])
                        ctx.eq((f, k, reps, c, glynn, js), lambda: loop_hafnian_batch_gamma(A, D, r, c, glynn=glynn), want,
                               scale=sc, data=(A, D))
                        ctx.count(traces=1)
                    else:
                        js = range(4) if f < 3 else (q % 4, (q + 1) % 4)
                        for j in js:
                            H, B, bg = lat[j]
                            ctx.eq((f, k, reps, c, glynn, j), lambda: loop_hafnian_batch(A, Ds[j], r, c, glynn=glynn),
                                   H[reps + (slice(0, c + 1),)],
                                   scale=B[reps + (slice(0, c + 1),)] + 1e-3 * bg[N:N + c + 1], data=(A, Ds[j]))
                            ctx.count(traces=1)


@unit(UNITS, quick=[dict(gamma=False), dict(gamma=True)])
def high(ctx, gamma):
    """Large fixed repetitions and long batches."""
    from thewalrus.loop_hafnian_batch import loop_hafnian_batch
    from thewalrus.loop_hafnian_batch_gamma import loop_hafnian_batch_gamma

    for reps, c in [((9,), 10), ((10,), 11), ((0, 7), 9), ((5, 6), 8), ((8, 1), 7), ((3, 0, 4), 6), ((0, 0, 5), 8),
                    ((2, 0, 0, 3), 5), ((0, 0), 14), ((), 18), ((1, 1, 1, 1, 1), 4), ((1, 1, 1, 1, 1, 1), 3)]:
        m = len(reps) + 1
        A = al.sym_gauss(m, 3) * 0.3
        Ds = np.array([al.vec_gauss(m, 4) * 0.5, al.vec_gauss(m, 5) * 0.25])
        for glynn in (True, False):
            want, sc = [], []
            for D in Ds:
                want.append([orc.haf_reps(A, reps + (j,), D) for j in range(c + 1)])
                sc.append([abs(orc.haf_reps(np.abs(A), reps + (j,), np.abs(D))) + 1e-3 * big(A, D, sum(reps) + j)
                           for j in range(c + 1)])
            want, sc = np.array(want, dtype=complex), np.array(sc)
            if gamma:
                ctx.eq((reps, c, glynn), lambda: loop_hafnian_batch_gamma(A, Ds, list(reps), c, glynn=glynn), want, scale=sc)
            else:
                ctx.eq((reps, c, glynn), lambda: loop_hafnian_batch(A, Ds[0], list(reps), c, glynn=glynn), want[0], scale=sc[0])
            ctx.count(traces=1)


@unit(UNITS, quick=[dict(gamma=False), dict(gamma=True)])
def scales(ctx, gamma):
    """Tiny and huge matrices and loop vectors: the batch rescales with them, entry by entry."""
    from thewalrus.loop_hafnian_batch import loop_hafnian_batch
    from thewalrus.loop_hafnian_batch_gamma import loop_hafnian_batch_gamma

    for f, b, c in ((0, 0, 6), (1, 3, 5), (2, 2, 4), (3, 1, 3)):
        m = f + 1
        for k in range(4):
            for s in (1e-12, 1e-9, 1e-6, 1e-3, 1e5):
                A = mats(m, k) * s
                D0 = np.array([al.vec_gauss(m, 1), al.vec_int(m, 2, 1, 4) / 4.0, np.eye(m)[m - 1] * 1j])
                for r in (s**0.5, min(s, 1.0)):
                    D = D0 * r
                    box = (b + 1,) * f + (c + 1,)
                    lat = [orc.lhaf_lattice(A, d, box)[0] for d in D]
                    ab = [np.abs(orc.lhaf_lattice(np.abs(A) / s, np.abs(d) / s**0.5, box)[0]) for d in D]
                    ctx.count(states=3 * lat[0].size, transitions=3 * lat[0].size)
                    x = max(np.max(np.abs(A)) / s, np.max(np.abs(D)) ** 2 / s, 1)
                    for reps in itertools.product(range(b + 1), repeat=f):
                        N = sum(reps) + np.arange(c + 1)
                        want = np.array([h[reps] for h in lat])
                        sc = np.array([(h[reps] + 1e-3 * x ** (N / 2)) * s ** (N / 2) for h in ab])
                        for glynn in (True, False):
                            if gamma:
                                ctx.eq((f, k, s, r, reps, glynn),
                                       lambda: loop_hafnian_batch_gamma(A, D.astype(complex), list(reps), c, glynn=glynn), want,
                                       scale=sc, tol=1e-6, data=(A, D))
                                ctx.count(traces=1)
                            else:
                                for j in range(3):
                                    ctx.eq((f, k, s, r, reps, glynn, j),
                                           lambda: loop_hafnian_batch(A, D[j], list(reps), c, glynn=glynn), want[j],
                                           scale=sc[j], tol=1e-6, data=(A, D[j]))
                                    ctx.count(traces=1)


def structures(m):
    """Matrices in which edges, vertices or the diagonal are missing."""
    X = al.sym_gauss(m, 4)
    yield "zero", np.zeros((m, m))
    yield "ident", np.eye(m)
    yield "nodiag", X - np.diag(np.diag(X))
    yield "anti", np.eye(m)[::-1].copy()
    for i in range(m):
        Y = X.copy()
        Y[i, :] = Y[:, i] = 0
        yield "hole%d" % i, Y
        Z = np.zeros((m, m))
        Z[i, m - 1] = Z[m - 1, i] = -0.8
        yield "one%d" % i, Z


@unit(UNITS, quick=[dict(fs=f, gamma=g) for g in (False, True) for f in ((0, 1, 2, 3, 5), (7, 9))])
def patterns(ctx, fs, gamma):
    """Missing edges and loops, cancelling loops, every memory layout, few photons in many modes."""
    for f in fs:
        patterns_f(ctx, f, gamma)


def patterns_f(ctx, f, gamma):
    from thewalrus.loop_hafnian_batch import loop_hafnian_batch
    from thewalrus.loop_hafnian_batch_gamma import loop_hafnian_batch_gamma

    m = f + 1
    b, c = {0: (0, 7), 1: (4, 5), 2: (2, 4), 3: (2, 3)}.get(f, (1, 3))
    cancel = np.array([0.5 * (-1) ** i for i in range(m - m % 2)] + [0.0] * (m % 2))
    Ds = np.array([np.zeros(m), cancel, 0.6j * np.arange(1, m + 1), np.eye(m)[0] * 0.7, np.eye(m)[m - 1] * -0.9, np.full(m, -0.5)])
    q = 0
    for name, A in structures(m):
        lat = []
        for D in Ds:
            H, tr = orc.lhaf_lattice(A, D, (b + 1,) * f + (c + 1,))
            B, _ = orc.lhaf_lattice(np.abs(A), np.abs(D), (b + 1,) * f + (c + 1,))
            lat.append((H, np.abs(B), np.array([big(A, D, N) for N in range(f * b + c + 1)])))
            ctx.count(states=H.size, transitions=tr)
        for reps in itertools.product(range(b + 1), repeat=f):
            N = sum(reps)
            if f > 3 and N > 4 and N < f - 1:
                continue
            q += 1
            if f > 6 and q % 3:
                continue
            lay = al.LAYOUTS[q % len(al.LAYOUTS)]
            M = al.layout(A, lay)
            glynn = bool(q // 6 % 2)
            cut = c - q % 2
            want = np.array([h[0][reps + (slice(0, cut + 1),)] for h in lat])
            sc = np.array([h[1][reps + (slice(0, cut + 1),)] + 1e-3 * h[2][N:N + cut + 1] for h in lat])
            if gamma:
                ctx.eq((f, name, reps, lay, glynn, cut), lambda: loop_hafnian_batch_gamma(M, al.layout(Ds, lay), list(reps), cut, glynn=glynn),
                       want, scale=sc, data=A)
                ctx.count(traces=len(Ds))
            else:
                for j in range(len(Ds)) if f < 4 else (q % 6, (q + 1) % 6):
                    D = Ds[j].real.copy() if j != 2 and q % 2 else Ds[j]
                    ctx.eq((f, name, reps, lay, glynn, cut, j),
                           lambda: loop_hafnian_batch(M, al.layout(D, lay), list(reps), cut, glynn=glynn), want[j], scale=sc[j], data=(A, D))
                    ctx.count(traces=1)


@unit(UNITS)
def rows(ctx):
    """loop_hafnian_batch_gamma with any number of rows, also repeated ones, equals the row-by-row result."""
    from thewalrus.loop_hafnian_batch_gamma import loop_hafnian_batch_gamma

    for m in (1, 2, 3, 4):
        A = al.sym_gauss(m, 1) * 0.5
        base = np.array([al.vec_gauss(m, k) * 0.5 for k in range(4)] + [np.zeros(m)])
        for count in (1, 2, 3, 5, 8, 13):
            D = np.array([base[(3 * i) % 5] for i in range(count)])
            for reps in itertools.product(range(3), repeat=m - 1):
                want = np.array([[orc.haf_reps(A, reps + (j,), d) for j in range(4)] for d in D], dtype=complex)
                ctx.eq((m, count, reps), lambda: loop_hafnian_batch_gamma(A, D, reps, 3), want, scale=1 + np.abs(want))
                ctx.count(traces=count)
