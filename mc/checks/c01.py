"""C01: every hafnian algorithm computes the sum over perfect (single-pair) matchings."""
import itertools
import warnings

import numpy as np

from mc import alphabet as al
from mc import oracles as orc
from mc.core import unit

PROPERTY = "C01"
LEVEL = "exploration"
RULE = (
    "one case per (algorithm, flags, dtype, memory layout, matrix) over complete 0/1 (and small integer) grids of "
    "matrices up to the stated size and a fixed list of structured matrices above it, against dynamic programming "
    "over vertex subsets; non-trivial: the expected value is not zero"
)
ASSUMPTIONS = [
    "agreement is required up to 1e-7 relative to the hafnian of the entrywise absolute values",
    "matrices above the complete grids come from a fixed finite alphabet",
]
UNITS = []
METHODS = ("banded", "sparse", "loop-glynn", "loop-incl", "glynn", "inclexcl", "recursive")
DTYPES = ("int64", "float64", "complex128")


def tw():
    import thewalrus

    return thewalrus


def scale(A, loop=False, D=None):
    A = np.abs(np.asarray(A))
    n = len(A)
    base = float(orc.haf(A, loop, None if D is None else np.abs(D)))
    # structurally zero hafnians are still computed with rounding relative to the matrix entries
    big = float(max(np.max(A, initial=0), np.max(np.abs(D), initial=0) if D is not None else 0, 1e-150))
    return base + 1e-3 * count(n, loop, big)


def count(n, loop, x):
    """(Loop) hafnian of the n x n matrix with every entry equal to x."""
    h = [1.0, x if loop else 0.0]
    for k in range(2, n + 1):
        h.append((x * h[k - 1] if loop else 0.0) + (k - 1) * x * h[k - 2])
    return h[n]


def casts(A):
    """The matrix in every dtype that represents it exactly."""
    out = []
    if np.iscomplexobj(A):
        return [("complex128", A), ("complex64", A.astype(np.complex64))]
    if np.issubdtype(A.dtype, np.integer):
        out += [("int64", A), ("int32", A.astype(np.int32))]
        out += [("float64", A.astype(float)), ("complex128", A.astype(complex)), ("float32", A.astype(np.float32))]
        return out
    return [("float64", A), ("complex128", A.astype(complex))]


def tol_of(dt):
    return 2e-4 if dt in ("float32", "complex64") else 1e-7


@unit(UNITS, quick=[dict(loop=False), dict(loop=True)])
def tiny_grids(ctx, loop):
    """All symmetric matrices of size <= 4 over small alphabets: the closed-form shortcuts."""
    t = tw()
    alph = {0: [0], 1: [-1, 0, 1, 2, 1j], 2: [-1, 0, 1, 2, 1j], 3: [0, 1, 2], 4: [0, 1]}
    for n in range(5):
        iu = [(i, j) for i in range(n) for j in range(i, n)]
        for vals in itertools.product(alph[n], repeat=len(iu)):
            cplx = any(isinstance(v, complex) for v in vals)
            A = np.zeros((n, n), dtype=complex if cplx else np.int64)
            for (i, j), v in zip(iu, vals):
                A[i, j] = A[j, i] = v
            want = orc.haf(A, loop)
            ctx.eq(("hafnian", n, loop, vals), lambda: t.hafnian(A, loop=loop), want, data=A)
            if n == 4 or (n == 3 and loop):
                # multilinear identity: decided by 0/1 grids, but not its mixing with float input
                ctx.eq(("hafnian-f", n, loop, vals), lambda: t.hafnian(A * (1.0 + 0j), loop=loop), want, data=A)


@unit(UNITS, quick=[dict(method=m, part=p) for m in ("glynn", "inclexcl", "recursive") for p in range(2)])
def grid6(ctx, method, part):
    """All 2^15 graphs on six vertices for each even-size method (a multilinear identity)."""
    t = tw()
    ms = np.array([[p[0] * 6 + p[1] for p in m] for m in orc.matchings(6)])
    for q, (bits, A) in enumerate(al.graphs(6)):
        if q % 2 != part:
            continue
        if method == "recursive":
            A = A.astype(float)
        want = A.reshape(-1)[ms].prod(axis=1).sum()
        ctx.eq((method, bits), lambda: t.hafnian(A, method=method), want, scale=15.0)


@unit(UNITS, quick=[dict(n=5), dict(n=6)], thorough=[dict(n=5), dict(n=6), dict(n=7)])
def loop_grid(ctx, n):
    """Loop hafnians: every graph class on n vertices times every 0/1 loop vector (n=5: every labelled graph)."""
    t = tw()
    ms = orc.loop_matchings(n)
    K = max(len(m) for m in ms)
    idx = np.full((len(ms), K), n * n)
    for r, m in enumerate(ms):
        for c, (i, j) in enumerate(m):
            idx[r, c] = i * n + j
    gs = list(al.graphs(5)) if n == 5 else al.graph_classes(n)
    for code, A in gs:
        for d in itertools.product((0, 1), repeat=n):
            B = A.copy()
            np.fill_diagonal(B, d)
            want = np.append(B.reshape(-1), 1)[idx].prod(axis=1).sum()
            ctx.eq(("loop", n, code, d), lambda: t.hafnian(B, loop=True), want, scale=float(len(ms)))


@unit(
    UNITS,
    quick=[dict(method=m, nmax=12) for m in ("glynn", "inclexcl", "recursive", "loop", "loop-inclexcl")],
    thorough=[dict(method=m, nmax=16) for m in ("glynn", "inclexcl", "recursive", "loop", "loop-inclexcl")],
)
def families(ctx, method, nmax):
    """Structured matrices of every size 0..nmax in every dtype and memory layout."""
    t = tw()
    for n in range(nmax + 1):
        if method == "recursive" and n > 10:
            continue
        for name, A in al.sym_families(n):
            loop = method.startswith("loop")
            want = orc.haf(A, loop)
            sc = scale(A, loop)
            for dt, B in casts(A) if n <= 8 else casts(A)[:1]:
                if method == "recursive" and dt not in ("int64", "float64", "complex128"):
                    continue
                lays = al.LAYOUTS if (n in (5, 6) and dt in ("float64", "complex128") and method != "recursive") else ("C",)
                if method == "recursive" and n == 6 and dt == "float64":
                    lays = ("C", "F", "slice")
                for lay in lays:
                    M = al.layout(B, lay)
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        if method == "loop":
                            fn = lambda: t.hafnian(M, loop=True)
                        elif method == "loop-inclexcl":
                            fn = lambda: t.loop_hafnian(M, glynn=False)
                        else:
                            fn = lambda: t.hafnian(M, method=method)
                        ctx.eq((method, n, name, dt, lay), fn, want, scale=sc, tol=tol_of(dt), data=M)


@unit(UNITS, quick=[dict(nmax=10)], thorough=[dict(nmax=13)])
def loop_vector(ctx, nmax):
    """loop_hafnian with an explicit loop vector that differs from the diagonal, both formulas."""
    t = tw()
    for n in range(1, nmax + 1):
        for name, A in al.sym_families(n):
            vecs = [("zero", np.zeros(n)), ("int", al.vec_int(n, 1)), ("gauss", al.vec_gauss(n, 2)),
                    ("unit", np.eye(n)[n - 1]), ("real", al.vec_int(n, 4, -4, 4) / 4.0)]
            for vn, D in vecs:
                want = orc.haf(A, True, D)
                sc = scale(A, True, D)
                for glynn in (True, False):
                    ctx.eq((n, name, vn, glynn), lambda: t.loop_hafnian(A, D=D, glynn=glynn), want, scale=sc, data=(A, D))
                if vn == "gauss" and n in (3, 4, 5, 6):
                    for lay in al.LAYOUTS[1:]:
                        ctx.eq((n, name, vn, lay),
                               lambda: t.loop_hafnian(al.layout(A, lay), D=al.layout(D, lay)), want, scale=sc, data=(A, D))


@unit(UNITS, quick=[dict(loop=False), dict(loop=True)])
def banded(ctx, loop):
    """hafnian_banded: every graph on <= 5 vertices (every bandwidth) with loops, families to size 10."""
    t = tw()
    for n in range(0, 6):
        for bits, A in al.graphs(n):
            if n == 5 and sum(bits) > 6 and not ctx.thorough:
                continue
            for d in ([(0,) * n, (1,) * n, tuple(i % 2 for i in range(n))]):
                B = A.copy()
                np.fill_diagonal(B, d)
                ctx.eq(("banded", n, bits, d), lambda: t.hafnian_banded(B, loop=loop), orc.haf(B, loop),
                       scale=scale(np.ones((n, n)), True))
    for n in range(1, 11 if not ctx.thorough else 14):
        for name, A in al.sym_families(n):
            w = max([abs(i - j) for i in range(n) for j in range(n) if A[i, j] != 0] or [0])
            if w > 5 and n > 8:
                continue
            want, sc = orc.haf(A, loop), scale(A, loop)
            for dt, B in casts(A):
                ctx.eq(("banded", n, name, dt, loop), lambda: t.hafnian_banded(B, loop=loop), want, scale=sc,
                       tol=tol_of(dt), data=B)


def patterns(n, k):
    """Values along one (sub)diagonal of length n: zero, constant, cancelling, first only, last only."""
    out = [np.zeros(n, dtype=np.int64), np.ones(n, dtype=np.int64)]
    if n > 1:
        out += [np.array([(-1) ** i for i in range(n)]) if n % 2 == 0 else np.array([(-1) ** i for i in range(n - 1)] + [0]),
                np.eye(n, dtype=np.int64)[0], 2 * np.eye(n, dtype=np.int64)[n - 1]]
    return out[:k]


@unit(UNITS, quick=[dict(n=4, method=m) for m in METHODS] + [dict(n=5, method=m) for m in METHODS[:4]] + [dict(n=6, method="banded")],
      thorough=[dict(n=n, method=m) for n in (4, 5, 6) for m in METHODS if n != 5 or m in METHODS[:4]])
def diagonals(ctx, n, method):
    """Every combination of value patterns along the diagonals (each zero, constant, cancelling, one end only)."""
    t = tw()
    fns = {"banded": lambda M, lp: t.hafnian_banded(M, loop=lp), "sparse": lambda M, lp: t.hafnian_sparse(M, loop=lp),
           "loop-glynn": lambda M, lp: t.loop_hafnian(M), "loop-incl": lambda M, lp: t.loop_hafnian(M, glynn=False),
           "glynn": lambda M, lp: t.hafnian(M, method="glynn"), "inclexcl": lambda M, lp: t.hafnian(M, method="inclexcl"),
           "recursive": lambda M, lp: t.hafnian(M.astype(float), method="recursive")}
    loops = {"banded": (False, True), "sparse": (False, True)}.get(method, (method.startswith("loop"),))
    for pats in itertools.product(*[list(enumerate(patterns(n - d, 5))) for d in range(n)]):
        A = np.zeros((n, n), dtype=np.int64)
        for d, (_, v) in enumerate(pats):
            A += np.diag(v, d) + (np.diag(v, -d) if d else 0)
        code = tuple(p[0] for p in pats)
        if method not in ("banded", "sparse") and n == 6 and sum(c != 0 for c in code) > 4:
            continue
        for lp in loops:
            ctx.eq((method, n, code, lp), lambda: fns[method](A, lp), orc.haf(A, lp), scale=count(n, True, 2.0), data=A)


@unit(UNITS, quick=[dict(loop=False), dict(loop=True)])
def sparse(ctx, loop):
    """hafnian_sparse: every graph on <= 5 vertices, every vertex subset D, and families to size 10."""
    t = tw()
    for n in range(0, 6):
        gs = al.graphs(n) if n < 5 or ctx.thorough else al.graph_classes(5)
        for bits, A in gs:
            for d in {(0,) * n, tuple(i % 2 for i in range(n)), (1,) * n}:
                B = A.copy()
                np.fill_diagonal(B, d)
                ctx.eq(("sparse", n, bits, d, "all"), lambda: t.hafnian_sparse(B, loop=loop), orc.haf(B, loop),
                       scale=scale(np.ones((n, n)), True))
    conts = (list, tuple, set, frozenset, np.array)
    q = 0
    for n in (3, 4, 5, 6):
        for name, A in al.sym_families(n):
            for r in range(n + 1):
                for D in itertools.combinations(range(n), r):
                    sub = A[np.ix_(D, D)]
                    want, sc = orc.haf(sub, loop), scale(sub, loop)
                    cont = conts[q % len(conts)]
                    q += 1
                    ctx.eq(("sparse", n, name, D, cont.__name__),
                           lambda: t.hafnian_sparse(A, D=cont(list(D)) if D or cont is not np.array else cont([], dtype=int), loop=loop), want,
                           scale=max(sc, 1.0), data=A)
    for n in range(1, 11):
        for name, A in al.sym_families(n):
            want, sc = orc.haf(A, loop), scale(A, loop)
            for dt, B in casts(A):
                ctx.eq(("sparse", n, name, dt, loop), lambda: t.hafnian_sparse(B, loop=loop), want, scale=sc,
                       tol=tol_of(dt), data=B)


@unit(UNITS, quick=[dict(r=r) for r in (1, 2, 3, 4)])
def low_rank(ctx, r):
    """low_rank_hafnian(G) = haf(G G^T): all 0/1 factors of tiny size, integer/real/complex alphabets above."""
    t = tw()
    for n in range(0, 9 if r < 3 else 7):
        if n * r <= 8:
            gs = [(b, np.array(b, dtype=np.int64).reshape(n, r)) for b in itertools.product((0, 1), repeat=n * r)]
        else:
            gs = []
        for k in range(3):
            gs += [("int%d" % k, al.mat_int(n, r, k)), ("real%d" % k, al.mat_int(n, r, k, -6, 6) / 4.0),
                   ("gauss%d" % k, al.mat_gauss(n, r, k)), ("cols%d" % k, al.mat_int(n, r, k) * (np.arange(r) != k))]
        for name, G in gs:
            A = G @ G.T
            absA = np.abs(G) @ np.abs(G).T
            ctx.eq((n, r, name), lambda: t.low_rank_hafnian(G), orc.haf(A), scale=max(float(orc.haf(absA)), 1.0), data=G)


@unit(UNITS)
def helpers(ctx):
    """reduction() builds the matrix with repeated rows and columns; hafnian of it is consistent."""
    t = tw()
    for n in (1, 2, 3):
        A = al.sym_gauss(n, 4)
        v = al.vec_gauss(n, 4)
        for rpt in al.multi(n, 3):
            rows = [i for i, k in enumerate(rpt) for _ in range(k)]
            want = np.array([[A[i, j] for j in rows] for i in rows], dtype=complex).reshape(len(rows), len(rows))
            ctx.eq(("reduction", n, rpt), lambda: t.reduction(A, rpt), want)
            ctx.eq(("reduction-v", n, rpt), lambda: t.reduction(v, rpt), np.array([v[i] for i in rows], dtype=complex))


INTS = ("bool", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64")


def integer_matrices(n, dt):
    """Integer matrices whose entries, or whose products of entries, leave the range of the type."""
    J = np.ones((n, n), dtype=np.int64)
    if dt == "bool":
        return [("J", J)] + [(k, (np.asarray(A) != 0).astype(np.int64)) for k, A in al.sym_families(n) if k in ("path+loops", "cycle", "int0", "bipartite")]
    top = {"int64": 10**6, "int32": 10**6, "uint32": 10**6}.get(dt, int(np.iinfo(dt).max))
    out = [("J*%d" % v, v * J) for v in (1, 10, 100, 1000, 10**5, 10**6) if v <= top]
    out += [("top", top * J), ("mixed", np.where(al.sym_int(n, 8, 0, 1) == 0, top, 1)), ("diag", J + np.diag([top - 1] * n))]
    if dt[0] == "i":
        out += [("signs", np.where(al.sym_int(n, 9, 0, 1) == 0, -top, top)), ("neg", -top * J)]
    return out


@unit(UNITS, quick=[dict(part=p) for p in range(4)])
def integers(ctx, part):
    """Every algorithm on matrices of every integer type, with products far outside the range of the type."""
    t = tw()
    for n in (1, 2, 3, 4, 5, 6, 8, 10):
        for dt in INTS[2 * part:2 * part + 2]:
            for name, A in integer_matrices(n, dt):
                M = A.astype(dt)
                mu = M.diagonal()[::-1].copy()
                for loop in (False, True):
                    want, sc = orc.haf(A, loop), scale(A, loop)
                    fs = [("banded", lambda: t.hafnian_banded(M, loop=loop)), ("sparse", lambda: t.hafnian_sparse(M, loop=loop)),
                          ("repeated", lambda: t.hafnian_repeated(M, [1] * n, loop=loop)),
                          ("hafnian", lambda: t.hafnian(M, loop=loop))]
                    if loop:
                        fs += [("loop", lambda: t.loop_hafnian(M)), ("loop-incl", lambda: t.loop_hafnian(M, glynn=False))]
                    else:
                        fs += [(m, lambda m=m: t.hafnian(M, method=m)) for m in ("glynn", "inclexcl", "recursive")]
                    for fn, f in fs:
                        if fn == "banded" and n > 8:
                            continue
                        ctx.eq((fn, n, dt, name, loop), f, want, scale=sc, data=M)
                D = A.diagonal()[::-1]
                want, sc = orc.haf(A, True, D), scale(A, True, D)
                for glynn in (True, False):
                    ctx.eq(("vector", n, dt, name, glynn), lambda: t.loop_hafnian(M, D=mu, glynn=glynn), want, scale=sc, data=M)
                ctx.eq(("repeated-mu", n, dt, name), lambda: t.hafnian_repeated(M, [1] * n, mu=mu, loop=True), want, scale=sc, data=M)
                Z = np.zeros((n, n))
                ctx.eq(("repeated-zero", n, dt, name), lambda: t.hafnian_repeated(Z.astype(dt), [1] * n, mu=mu, loop=True),
                       orc.haf(Z, True, D), scale=scale(Z, True, D), data=M)
                if n <= 8 and dt != "bool":
                    for r in (1, 2):
                        G = A[:, :r]
                        P = (G.astype(object) @ G.astype(object).T)
                        aP = np.abs(G).astype(object) @ np.abs(G).astype(object).T
                        ctx.eq(("low_rank", n, r, dt, name), lambda: t.low_rank_hafnian(M[:, :r].copy()), orc.haf(P),
                               scale=max(float(orc.haf(aP)), 1.0), data=M[:, :r])


def scramble(n, q):
    """A fixed permutation of range(n) without order."""
    p = sorted(range(n), key=lambda i: (al.h(71, q, n, i), i))
    return np.array(p)


def closed_forms(n):
    """(name, matrix, hafnian, loop hafnian) with values known in closed form for every n."""
    inv, dbl = [1, 1], [1, 0]
    for k in range(2, n + 1):
        inv.append(inv[-1] + (k - 1) * inv[-2])
        dbl.append((k - 1) * dbl[-2])
    J = np.ones((n, n), dtype=np.int64)
    out = [("ones", J, dbl[n], inv[n])]
    u = np.array([(-1) ** (i // 3) * (1 + i % 2) for i in range(n)])
    c = int(np.prod(u))
    v = np.array([(-1) ** (i // 3) * (1.0 + i % 2) * np.exp(0.7j * i) for i in range(n)])
    out.append(("rank1 without loops", np.outer(u, u) - np.diag(u * u), c * dbl[n], c * dbl[n]))
    w = np.outer(v, v)
    np.fill_diagonal(w, v)
    out.append(("rank1 phases", w, np.prod(v) * dbl[n], np.prod(v) * inv[n]))
    # pairs
    B, hf, lp = np.zeros((n, n)), 1.0, 1.0
    for i in range(0, n - 1, 2):
        a, b, d = 1.5 - i % 4, 0.5 + i % 3, (-1) ** (i // 2)
        B[i, i], B[i + 1, i + 1], B[i, i + 1], B[i + 1, i] = a, d, b, b
        hf, lp = hf * b, lp * (b + a * d)
    if n % 2:
        B[n - 1, n - 1] = 2.0
        hf, lp = 0.0, lp * 2.0
    out.append(("pairs", B, hf, lp))
    # path with loops: transfer recursion
    P, f = np.zeros((n, n), dtype=complex), [1.0, 1.0]
    for i in range(n):
        P[i, i] = 1.0
    for i in range(n - 1):
        P[i, i + 1] = P[i + 1, i] = 0.5 + 0.25j * (i % 3)
        f.append(f[-1] + P[i, i + 1] * f[-2])
    hp = np.prod([P[i, i + 1] for i in range(0, n - 1, 2)]) if n % 2 == 0 else 0.0
    out.append(("path", P, hp, f[n] if n else 1.0))
    # complete bipartite, and a direct sum of two complete graphs
    k = n // 2
    K = np.zeros((n, n))
    K[:k, k:] = K[k:, :k] = 1
    out.append(("bipartite", K, float(orc_fact(k)) if n % 2 == 0 else 0.0, float(orc_fact(k)) if n % 2 == 0 else 0.0))
    k = n // 3
    S = np.zeros((n, n), dtype=np.int64)
    S[:k, :k] = S[k:, k:] = 1
    out.append(("two parts", S, dbl[k] * dbl[n - k], inv[k] * inv[n - k]))
    return out


def orc_fact(k):
    return int(np.prod(np.arange(1, k + 1, dtype=object))) if k else 1


@unit(UNITS, quick=[dict(sizes=s) for s in ((13, 14, 15), (16, 17), (18, 19), (20,))],
      thorough=[dict(sizes=s) for s in ((13, 14, 15), (16, 17), (18, 19), (20, 21), (22,), (23,), (24,), (26,))])
def large(ctx, sizes):
    """Matrices with closed-form values above the reach of the subset oracle, in natural and in scrambled order."""
    t = tw()
    for n in sizes:
        for name, A, hf, lp in closed_forms(n):
            for q in (0, 1):
                p = scramble(n, q) if q else np.arange(n)
                M = A[np.ix_(p, p)]
                fs = [("loop-glynn", lambda: t.loop_hafnian(M), True), ("loop-incl", lambda: t.loop_hafnian(M, glynn=False), True),
                      ("loop", lambda: t.hafnian(M, loop=True), True)]
                if n % 2 == 0:
                    fs += [(m, lambda m=m: t.hafnian(M, method=m), False) for m in ("glynn", "inclexcl")]
                if n <= 16:
                    fs += [("repeated", lambda: t.hafnian_repeated(M, [1] * n), False),
                           ("repeated-loop", lambda: t.hafnian_repeated(M, [1] * n, loop=True), True)]
                if name in ("path", "pairs"):
                    fs += [("sparse", lambda: t.hafnian_sparse(M, loop=False), False), ("sparse-loop", lambda: t.hafnian_sparse(M, loop=True), True)]
                    if q == 0:
                        fs += [("banded", lambda: t.hafnian_banded(M, loop=False), False), ("banded-loop", lambda: t.hafnian_banded(M, loop=True), True)]
                sc = max(abs(hf), abs(lp), 1e-3 * count(n, True, 1.0))
                if name == "rank1 without loops" or name == "rank1 phases":
                    sc = max(sc, count(n, True, 1.5))
                for fn, f, loop in fs:
                    ctx.eq((fn, n, name, q), f, lp if loop else hf, scale=sc, tol=1e-7, data=M)
        u = np.array([(-1) ** (i // 3) * (1 + i % 2) for i in range(n)])
        ctx.eq(("low_rank", n), lambda: t.low_rank_hafnian(u.reshape(n, 1) * 1.0), float(np.prod(u)) * count(n, False, 1.0), tol=1e-7)


@unit(UNITS, quick=[dict(loop=False), dict(loop=True)])
def scales(ctx, loop):
    """haf(s A) for tiny and huge s with every algorithm; rescaled rows for the division-free ones."""
    t = tw()
    for n in (1, 2, 3, 4, 5, 6, 7, 8):
        for name, A0 in al.sym_families(n):
            A0 = A0 * 1.0
            for s in (1e-12, 1e-9, 1e-7, 1e-5, 1e-3, 1e4, 1e9):
                # loops scale with s as well, or with sqrt(s) as in a consistently rescaled state
                for r in ((s, s**0.5) if loop else (s,)):
                    A = A0 * s
                    np.fill_diagonal(A, np.diag(A0) * r)
                    want = orc.haf(A, loop)
                    sc = float(orc.haf(np.abs(A), loop)) + 1e-3 * (s if not loop else max(s, r * r)) ** (n / 2) + 1e-300
                    if loop and r == s and s > 1:
                        sc = scale(A, loop)
                    D = np.diag(A).copy()
                    Z = A - np.diag(D)
                    fs = [("banded", lambda: t.hafnian_banded(A, loop=loop)), ("sparse", lambda: t.hafnian_sparse(A, loop=loop))]
                    if loop:
                        fs += [("loop-D", lambda: t.loop_hafnian(Z, D=D)), ("loop-D-incl", lambda: t.loop_hafnian(Z, D=D, glynn=False)),
                               ("repeated", lambda: t.hafnian_repeated(Z, [1] * n, mu=D, loop=True, atol=0)),
                               ("batched", lambda: np.ravel(t.hafnian_batched(A, 2, mu=D))[-1])]
                    if loop and r == s:
                        fs += [("loop", lambda: t.loop_hafnian(A)), ("loop-incl", lambda: t.loop_hafnian(A, glynn=False)),
                               ("hafnian", lambda: t.hafnian(A, loop=True, atol=0))]
                    if not loop:
                        fs += [("hafnian", lambda: t.hafnian(A, atol=0)), ("inclexcl", lambda: t.hafnian(A, method="inclexcl", atol=0)),
                               ("repeated", lambda: t.hafnian_repeated(A, [1] * n, atol=0)),
                               ("batched", lambda: np.ravel(t.hafnian_batched(A, 2))[-1] if n < 8 else want)]
                        if n < 8 and s > 1e-9:
                            fs += [("recursive", lambda: t.hafnian(A, method="recursive", atol=0))]
                    if r == s:
                        fs += [("default", lambda: t.hafnian(A, loop=loop)),
                               ("default-repeated", lambda: t.hafnian_repeated(A, [1] * n, loop=loop))]
                    for fn, f in fs:
                        ctx.eq((fn, n, name, s, r, loop), f, want, scale=sc, tol=1e-6, data=A)
            if n < 2:
                continue
            for q, e in enumerate(([0, -5] * n, [2, -2, 1] * n, [-7, -2, -3] * n, [4, 8, 6] * n)):
                v = 10.0 ** np.array(e[:n])
                A = A0 * np.outer(v, v)
                np.fill_diagonal(A, np.diag(A0) * v)
                want = orc.haf(A0, loop) * np.prod(v)
                sc = (float(orc.haf(np.abs(A0), loop)) + 1e-3) * np.prod(v)
                for fn, f in (("sparse", lambda: t.hafnian_sparse(A, loop=loop)),
                              ("banded", lambda: t.hafnian_banded(A, loop=loop))):
                    ctx.eq((fn, n, name, "rows", q, loop), f, want, scale=sc, tol=1e-7, data=A)


@unit(UNITS)
def layouts(ctx):
    """The remaining algorithms on every memory layout, on subsets given as frozen sets, and low-rank factors of any size."""
    t = tw()
    for n in (2, 3, 4, 5, 6, 7):
        for name, A in al.sym_families(n):
            A = A * 1.0
            D = al.vec_int(n, 1, 1, 4) * 0.5
            hf, sc = orc.haf(A), scale(A)
            lp, ls = orc.haf(A, True), scale(A, True)
            lD, sD = orc.haf(A, True, D), scale(A, True, D)
            for lay in al.LAYOUTS:
                M = al.layout(A, lay)
                V = al.layout(D, lay)
                for fn, f, want, s in (
                    ("banded", lambda: t.hafnian_banded(M), hf, sc), ("banded-loop", lambda: t.hafnian_banded(M, loop=True), lp, ls),
                    ("sparse", lambda: t.hafnian_sparse(M), hf, sc), ("sparse-loop", lambda: t.hafnian_sparse(M, loop=True), lp, ls),
                    ("repeated", lambda: t.hafnian_repeated(M, [1] * n), hf, sc),
                    ("repeated-loop", lambda: t.hafnian_repeated(M, (1,) * n, mu=V, loop=True), lD, sD),
                    ("recursive", lambda: t.hafnian(M, method="recursive"), hf, sc),
                    ("inclexcl", lambda: t.hafnian(M, method="inclexcl"), hf, sc),
                ):
                    ctx.eq((fn, n, name, lay), f, want, scale=s, data=A)
    for n, r in ((2, 2), (4, 1), (4, 3), (5, 2), (6, 2), (6, 3), (8, 2), (10, 2)):
        for q, G0 in enumerate((al.mat_int(n, r, 1) * 1.0, al.mat_int(n, r, 2, -6, 6) / 4.0, al.mat_gauss(n, r, 1))):
            want = orc.haf(G0 @ G0.T)
            sc = float(orc.haf(np.abs(G0) @ np.abs(G0).T))
            for lay in al.LAYOUTS:
                ctx.eq(("low rank", n, r, q, lay), lambda: t.low_rank_hafnian(al.layout(G0, lay)), want, scale=sc, data=G0)
            for s in (1e-9, 1e-4, 1e5):
                ctx.eq(("low rank", n, r, q, s), lambda: t.low_rank_hafnian(G0 * s), want * s ** n, scale=sc * s ** n, data=G0)
            f4 = G0.astype(np.complex64 if q == 2 else np.float32)
            ctx.eq(("low rank", n, r, q, "single"), lambda: t.low_rank_hafnian(f4), want, scale=sc, tol=1e-4, data=G0)
