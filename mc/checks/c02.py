"""C02: (loop) hafnians with multiplicities equal the hafnian of the explicitly expanded matrix."""
import itertools

import numpy as np

from mc import alphabet as al
from mc import oracles as orc
from mc.core import unit

PROPERTY = "C02"
LEVEL = "model_checking"
RULE = (
    "states are multiplicity vectors, transitions the lowering steps k -> k-e_i, k-e_i-e_j of the defining recursion; "
    "the whole lattice up to the stated bound is built by the recursion for every matrix of the alphabet and every "
    "state is compared with hafnian_repeated / loop_hafnian (each comparison is one trace validated against the "
    "implementation); non-trivial: the expected value is not zero"
)
ASSUMPTIONS = ["agreement up to 1e-7 relative to the same quantity with entrywise absolute values"]
UNITS = []

BOX = {1: 9, 2: 6, 3: 4, 4: 3, 5: 2, 6: 2}
BOX_T = {1: 14, 2: 9, 3: 6, 4: 4, 5: 3, 6: 2, 7: 2}


def tw():
    import thewalrus

    return thewalrus


def mats(n, thorough=False):
    out = [("int0", al.sym_int(n, 0)), ("real1", al.sym_real(n, 1)), ("gauss2", al.sym_gauss(n, 2)),
           ("ones", np.ones((n, n), dtype=np.int64))]
    if n > 1:
        out += [("antidiag", np.eye(n, dtype=np.int64)[::-1].copy()), ("diag", np.diag(al.vec_int(n, 3, 1, 3)))]
    if n > 2:
        out.append(("zero-row", np.where(np.add.outer(np.arange(n) == 1, np.arange(n) == 1), 0, al.sym_int(n, 9, 1, 2))))
    out.append(("zero", np.zeros((n, n))))
    if thorough:
        out += [("g%d" % k, al.sym_gauss(n, k)) for k in range(3, 7)]
    return out


def big(A, mu, N):
    """Magnitude at which a sum of this order is rounded."""
    x = float(max(np.max(np.abs(A), initial=0), np.max(np.abs(mu), initial=0), 1e-150))
    h = [1.0, x]
    for k in range(2, N + 1):
        h.append(x * h[k - 1] + (k - 1) * x * h[k - 2])
    return h[N]


def conv(kind, k):
    if kind == "list":
        return list(k)
    if kind == "tuple":
        return tuple(k)
    if kind == "float":
        return [float(x) for x in k]
    return np.array(k, dtype=kind)


KINDS = ("list", "tuple", "int64", "int32", "uint8", "float")


@unit(
    UNITS,
    quick=[dict(n=n, loop=l) for n in range(1, 7) for l in (False, True)],
    thorough=[dict(n=n, loop=l) for n in range(1, 8) for l in (False, True)],
)
def lattice(ctx, n, loop):
    """The whole multiplicity lattice, hafnian_repeated and loop_hafnian, both formulas."""
    t = tw()
    b = (BOX_T if ctx.thorough else BOX)[n]
    q = 0
    for name, A in mats(n, ctx.thorough):
        if loop:
            mus = [("gauss", al.vec_gauss(n, 1)), ("real", al.vec_int(n, 2, -3, 3) / 2.0), ("zero", np.zeros(n)),
                   ("diag", None)]
        else:
            mus = [("none", None)]
        for mn, mu in mus:
            m = np.zeros(n) if not loop else (A.diagonal() if mu is None else mu)
            box = (b + 1,) * n
            H, trans = orc.lhaf_lattice(A, m, box)
            Habs, _ = orc.lhaf_lattice(np.abs(A), np.abs(m), box)
            ctx.count(states=H.size, transitions=trans)
            bigs = [big(A, m, N) for N in range(n * b + 1)]
            for k in itertools.product(range(b + 1), repeat=n):
                N = sum(k)
                sc = abs(Habs[k]) + 1e-3 * bigs[N]
                kind = KINDS[q % len(KINDS)]
                q += 1
                r = conv(kind, k)
                for glynn in (True, False):
                    ctx.eq((n, name, mn, k, kind, glynn, "rep"),
                           lambda: t.hafnian_repeated(A, r, mu=mu, loop=loop, glynn=glynn), H[k], scale=sc, data=(A, mu))
                    if loop and kind != "float":
                        ctx.eq((n, name, mn, k, kind, glynn, "lhaf"),
                               lambda: t.loop_hafnian(A, D=mu, reps=r, glynn=glynn), H[k], scale=sc, data=(A, mu))
                ctx.count(traces=1)


@unit(UNITS, quick=[dict(loop=False), dict(loop=True)])
def high(ctx, loop):
    """Few modes, many repetitions: every vector with one mode up to 24 and two/three modes on a coarse lattice."""
    t = tw()
    vecs = [(k,) for k in range(0, 25)] + [(a, c) for a in range(0, 15, 2) for c in range(1, 12, 3)]
    vecs += [(a, c, d) for a in (0, 1, 7, 9) for c in (0, 2, 5) for d in (1, 3, 8)]
    for v in vecs:
        n = len(v)
        for name, A in (("int", al.sym_int(n, 3, 1, 2)), ("gauss", al.sym_gauss(n, 4) + 1)):
            A = A * 0.25
            mu = al.vec_gauss(n, 3) * 0.5 + 0.5
            m = mu if loop else None
            want = orc.haf_reps(A, v, m)
            sc = orc.haf_reps(np.abs(A), v, None if m is None else np.abs(m)).real + 1e-3 * big(A, mu if loop else [0], sum(v))
            for glynn in (True, False):
                ctx.eq((name, v, glynn), lambda: t.hafnian_repeated(A, list(v), mu=m, loop=loop, glynn=glynn), want,
                       scale=sc, data=(A, m))


@unit(UNITS, quick=[dict(n=n) for n in (6, 7, 8)], thorough=[dict(n=n, total=16) for n in (6, 7, 8)])
def many(ctx, n, total=12):
    """Many modes: every multiset of multiplicities up to 4 with the given total, in two arrangements."""
    t = tw()
    A = al.sym_int(n, 5, 1, 3) * 0.25
    mu = al.vec_int(n, 4, 1, 3) * 0.5
    for ms in itertools.combinations_with_replacement(range(5), n):
        if sum(ms) > total:
            continue
        for k in {ms, ms[::-2] + ms[-2::-2], ms[::2] + ms[1::2]}:
            for loop in (False, True):
                if not loop and sum(k) % 2:
                    continue
                m = mu if loop else None
                want = orc.haf_reps(A, k, m)  # non-negative entries: the value is its own scale
                for glynn in (True, False):
                    ctx.eq((n, k, loop, glynn), lambda: t.hafnian_repeated(A, list(k), mu=m, loop=loop, glynn=glynn), want,
                           scale=abs(want) + 1e-3 * big(A, mu if loop else [0], sum(k)), data=(A, m))
                ctx.count(states=1)


@unit(UNITS)
def expansion(ctx):
    """hafnian_repeated(A, k) = hafnian(reduction(A, k)) on the implementation itself, and relabelling invariance."""
    t = tw()
    for n in (2, 3, 4):
        for name, A in (("int", al.sym_int(n, 7)), ("gauss", al.sym_gauss(n, 8))):
            mu = al.vec_gauss(n, 5)
            for k in al.multi(n, 3, 6):
                base = orc.haf_reps(A, k, mu)
                sc = orc.haf_reps(np.abs(A), k, np.abs(mu)).real + 1e-3 * big(A, mu, sum(k))
                for p in itertools.permutations(range(n)):
                    p = list(p)
                    ctx.eq((n, name, k, tuple(p)),
                           lambda: t.loop_hafnian(A[np.ix_(p, p)], D=mu[p], reps=[k[i] for i in p]), base, scale=sc)
                B = t.reduction(A, k).copy()
                if len(B):
                    np.fill_diagonal(B, t.reduction(mu, k).astype(B.dtype) if np.iscomplexobj(B) else 0)
                    want = orc.haf_reps(A, k, mu if np.iscomplexobj(B) else None)
                    ctx.eq((n, name, k, "expand"), lambda: t.hafnian(B, loop=True), want, scale=sc)


@unit(UNITS)
def pairing(ctx):
    """matched_reps: the pairs, with their multiplicities and the odd mode, use every mode exactly as often as asked."""
    t = tw()

    def good(k):
        x, er, odd = t.matched_reps(list(k))
        x, er = list(map(int, x)), list(map(int, er))
        use = [0] * len(k)
        h = len(x) // 2
        if len(x) != 2 * len(er):
            return "edges %s multiplicities %s" % (x, er)
        for a, b, r in zip(x[:h], x[h:], er):
            use[a] += r
            use[b] += r
        if odd is not None:
            use[odd] += 1
        return use == list(k) or "edges %s reps %s odd %s use %s" % (x, er, odd, use)

    bounds = {0: 0, 1: 40, 2: 20, 3: 12, 4: 8, 5: 6, 6: 4, 7: 3, 8: 2}
    for n, b in bounds.items():
        for k in itertools.product(range(b + 1), repeat=n):
            ctx.true(("pairing", k), lambda: good(k), nontrivial=sum(k) > 0)


@unit(UNITS, quick=[dict(loop=False), dict(loop=True)])
def scales(ctx, loop):
    """Tiny and huge matrices and loop vectors, on the whole lattice of small multiplicities."""
    t = tw()
    for n, b in ((1, 6), (2, 4), (3, 2), (4, 2)):
        box = (b + 1,) * n
        for name, A0 in mats(n):
            A0 = A0 * 1.0
            for s in (1e-12, 1e-9, 1e-6, 1e-3, 1e5):
                for r, vec in ((s, 1), (s**0.5, 0), (s**0.5, 2)) if loop else ((0, 0),):
                    A = A0 * s
                    m0 = [al.vec_int(n, 2, 1, 3) / 2.0, al.vec_gauss(n, 1), np.eye(n)[n - 1] * 1j][vec]
                    mu = m0 * r if loop else np.zeros(n)
                    H, trans = orc.lhaf_lattice(A, mu, box)
                    Habs, _ = orc.lhaf_lattice(np.abs(A0), np.abs(m0) * (r / s**0.5 if loop else 0), box)
                    ctx.count(states=H.size, transitions=trans)
                    x = max(np.max(np.abs(A0)), np.max(np.abs(mu)) ** 2 / s)
                    for k in itertools.product(range(b + 1), repeat=n):
                        N = sum(k)
                        sc = (abs(Habs[k]) + 1e-3 * max(x, 1) ** (N / 2)) * s ** (N / 2)
                        for glynn in (True, False):
                            ctx.eq((n, name, s, r, vec, k, glynn, "rep"),
                                   lambda: t.hafnian_repeated(A, list(k), mu=mu if loop else None, loop=loop, glynn=glynn),
                                   H[k], scale=sc, tol=1e-6, data=(A, mu))
                            if loop:
                                ctx.eq((n, name, s, r, vec, k, glynn, "lhaf"),
                                       lambda: t.loop_hafnian(A, D=mu, reps=list(k), glynn=glynn), H[k], scale=sc, tol=1e-6,
                                       data=(A, mu))
                        ctx.count(traces=1)


@unit(UNITS, quick=[dict(n=n) for n in (1, 2, 3, 4, 5)])
def loops(ctx, n):
    """Means that cancel, vanish, repeat or sit on one mode, and every memory layout of the matrix and of the means."""
    t = tw()
    b = {1: 7, 2: 4, 3: 3, 4: 2, 5: 1}[n]
    box = (b + 1,) * n
    mus = [("neg", -0.5 * np.ones(n)), ("first", 1.5 * np.eye(n)[0]), ("last", 0.5j * np.eye(n)[n - 1]), ("imag", 1j * np.arange(1, n + 1)),
           ("cancel", np.array([(-1.0) ** i for i in range(n - n % 2)] + [0.0] * (n % 2))),
           ("roots", np.exp(2j * np.pi * np.arange(n) / n)), ("unit", np.full(n, 1.0))]
    for name, A in list(mats(n))[:6]:
        A = A * 1.0
        for mn, mu in mus:
            H, trans = orc.lhaf_lattice(A, mu, box)
            Habs, _ = orc.lhaf_lattice(np.abs(A), np.abs(mu), box)
            ctx.count(states=H.size, transitions=trans)
            for q, k in enumerate(itertools.product(range(b + 1), repeat=n)):
                lay = al.LAYOUTS[q % len(al.LAYOUTS)]
                M, v = al.layout(A, lay), al.layout(mu, lay)
                sc = abs(Habs[k]) + 1e-3 * big(A, mu, sum(k))
                for glynn in (True, False):
                    ctx.eq((n, name, mn, k, lay, glynn, "rep"),
                           lambda: t.hafnian_repeated(M, conv(KINDS[q % 5], k), mu=v, loop=True, glynn=glynn), H[k], scale=sc, data=(A, mu))
                    ctx.eq((n, name, mn, k, lay, glynn, "lhaf"),
                           lambda: t.loop_hafnian(M, D=v, reps=conv(KINDS[q % 5], k), glynn=glynn), H[k], scale=sc, data=(A, mu))
                ctx.count(traces=1)
