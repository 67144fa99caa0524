"""C06: permanents, repeated permanents, Bristolians."""
import itertools
import math

import numpy as np

from mc import alphabet as al
from mc import oracles as orc
from mc.core import unit

PROPERTY = "C06"
LEVEL = "exploration"
RULE = (
    "every 0/1 matrix up to 4x4 (a multilinear identity is decided there), every pair of adjacent sizes above on a "
    "fixed matrix alphabet, each method, dtype and memory layout, against the sum over permutations; Bristolians "
    "against the subset sum of those permanents; non-trivial: the expected value is not zero"
)
ASSUMPTIONS = ["agreement up to 1e-8 relative to the permanent of the entrywise absolute values"]
UNITS = []


def tw():
    import thewalrus

    return thewalrus


def scale(M):
    M = np.abs(np.asarray(M))
    n = len(M)
    return float(orc.permanent(M)) + 1e-3 * math.factorial(n) * float(np.max(M, initial=1e-150)) ** n


def families(n):
    I = np.eye(n, dtype=np.int64)
    out = [("zero", 0 * I), ("ident", I), ("ones", 0 * I + 1), ("anti", I[::-1].copy()), ("cyc", np.roll(I, 1, axis=0)),
           ("upper", np.triu(0 * I + 1)), ("lower", np.tril(0 * I + 2)), ("neg", 0 * I - 1)]
    for k in range(3):
        out += [("int%d" % k, al.mat_int(n, n, k)), ("real%d" % k, al.mat_int(n, n, k, -8, 8) / 8.0),
                ("gauss%d" % k, al.mat_gauss(n, n, k))]
    if n:
        Z = al.mat_int(n, n, 9, 1, 3)
        Z[n - 1, :] = 0
        out.append(("zero-row", Z))
        out.append(("zero-col", Z.T.copy()))
        w = np.exp(2j * np.pi / n)
        out.append(("dft", np.array([[w ** (i * j) for j in range(n)] for i in range(n)]).reshape(n, n)))
        out.append(("rank1", np.outer(al.vec_int(n, 1, 1, 3), al.vec_int(n, 2, 1, 2))))
        out.append(("imag", 1j * al.mat_int(n, n, 4)))
    return out


@unit(UNITS, quick=[dict(method=m, dt=d) for m in ("bbfg", "ryser") for d in ("int64", "float64", "complex128")])
def grid(ctx, method, dt):
    """All 0/1 matrices up to 4x4 (65536), tiny matrices over {-1, 0, 2, i}."""
    t = tw()
    for n in range(4):
        alph = {0: (0,), 1: (-1, 0, 1, 2), 2: (-1, 0, 1, 2), 3: (0, 1)}[n]
        for v in itertools.product(alph, repeat=n * n):
            A = np.array(v, dtype=dt).reshape(n, n)
            if dt == "complex128":
                A = A * 1j
            ctx.eq((n, v), lambda: t.perm(A, method=method), orc.permanent(A))
    P = np.array(list(itertools.permutations(range(4))))
    for code in range(1 << 16):
        A = ((code >> np.arange(16)) & 1).reshape(4, 4)
        want = A[np.arange(4), P].prod(axis=1).sum()
        A = A.astype(dt)
        ctx.eq((4, code), lambda: t.perm(A, method=method), want, scale=24.0)


@unit(UNITS, quick=[dict(method=m, nmax=10) for m in ("bbfg", "ryser")], thorough=[dict(method=m, nmax=14) for m in ("bbfg", "ryser")])
def sizes(ctx, method, nmax):
    t = tw()
    for n in range(nmax + 1):
        for name, A in families(n):
            want, sc = orc.permanent(A), scale(A)
            dts = ["complex128"] if np.iscomplexobj(A) else (["int64", "float64", "complex128"] if A.dtype.kind == "i" else ["float64", "complex128"])
            for dt in dts:
                for lay in al.LAYOUTS if (n in (2, 3, 4, 5) and name in ("int0", "gauss1")) else ("C",):
                    M = al.layout(A.astype(dt), lay)
                    ctx.eq((method, n, name, dt, lay), lambda: t.perm(M, method=method), want, scale=sc, tol=1e-8, data=M)


@unit(UNITS)
def repeated(ctx):
    """permanent_repeated(A, k) = per of A with row and column i repeated k_i times."""
    t = tw()
    for n, b in ((1, 7), (2, 4), (3, 3), (4, 2)):
        for name, A in (("int", al.mat_int(n, n, 1)), ("real", al.mat_int(n, n, 2, -5, 5) / 4.0), ("gauss", al.mat_gauss(n, n, 3)),
                        ("ones", np.ones((n, n)))):
            for k in itertools.product(range(b + 1), repeat=n):
                if sum(k) > 8:
                    continue
                rows = [i for i, r in enumerate(k) for _ in range(r)]
                E = A[np.ix_(rows, rows)] if rows else np.zeros((0, 0))
                want, sc = orc.permanent(E), scale(E)
                r = list(k) if sum(k) % 2 else tuple(k)
                ctx.eq((n, name, k), lambda: t.permanent_repeated(A, r), want, scale=sc, data=A)


def bristol(A, E):
    m, n = A.shape
    tot, sc = 0, 0
    for r in range(m + 1):
        for S in itertools.combinations(range(m), r):
            Ay = A[list(S), :]
            M = Ay.conj().T @ Ay + E
            tot += (-1) ** (m - r) * orc.permanent(M)
            sc += scale(M)
    return tot, sc


@unit(UNITS)
def bristolian(ctx):
    """brs and ubrs on every shape m <= 4, n <= 5."""
    t = tw()
    for m in range(0, 5):
        for n in range(0, 6):
            for k in range(3):
                for kind in ("real", "gauss"):
                    A = (al.mat_gauss(m, n, k) if kind == "gauss" else al.mat_int(m, n, k).astype(float)) * 0.5
                    B = al.mat_gauss(n, n, k + 20) if kind == "gauss" else al.mat_int(n, n, k + 20).astype(float)
                    E = 0.25 * B.conj().T @ B
                    want, sc = bristol(A, E)
                    ctx.eq(("brs", m, n, k, kind), lambda: t.brs(A, E), want, scale=sc, data=(A, E))
                    want, sc = bristol(A, 0 * E)
                    ctx.eq(("ubrs", m, n, k, kind), lambda: t.ubrs(A), want, scale=sc, data=A)
                    ctx.eq(("brs0", m, n, k, kind), lambda: t.brs(A, 0 * E), want, scale=sc, data=A)


INTS = ("bool", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64")


def integer_matrices(n, dt):
    """Integer matrices whose products of entries leave the range of the type."""
    J = np.ones((n, n), dtype=np.int64)
    if dt == "bool":
        return [("J", J), ("mix", al.mat_int(n, n, 3, 0, 1)), ("upper", np.triu(J))]
    top = {"int64": 10**6, "int32": 10**6, "uint32": 10**6}.get(dt, int(np.iinfo(dt).max))
    out = [("J*%d" % v, v * J) for v in (1, 10, 100, 1000, 10**5, 10**6) if v <= top]
    out += [("top", top * J), ("mixed", np.where(al.mat_int(n, n, 8, 0, 1) == 0, top, 1)), ("row", np.vstack([top * J[:1], J[1:]]))]
    if dt[0] == "i":
        out += [("signs", np.where(al.mat_int(n, n, 9, 0, 1) == 0, -top, top)), ("neg", -top * J)]
    return out


@unit(UNITS, quick=[dict(method=m) for m in ("bbfg", "ryser")])
def integers(ctx, method):
    """Matrices of every integer type with products outside the range of the type; ones up to 18 x 18."""
    t = tw()
    for n in range(1, 8):
        for dt in INTS:
            for name, A in integer_matrices(n, dt):
                M = A.astype(dt)
                want, sc = orc.permanent(A.astype(object)), scale(A.astype(object))
                ctx.eq((n, dt, name), lambda: t.perm(M, method=method), want, scale=sc, tol=1e-8, data=M)
                if n < 6 and method == "bbfg":
                    ctx.eq((n, dt, name, "repeated"), lambda: t.permanent_repeated(M, [1] * n), want, scale=sc, tol=1e-8, data=M)
    for n in range(8, 19):
        for dt in ("bool", "int8", "int64", "float64"):
            ctx.eq((n, dt, "ones"), lambda: t.perm(np.ones((n, n), dtype=dt), method=method), math.factorial(n), tol=1e-5)


def closed_forms(n):
    """(name, matrix, permanent) known in closed form for every n."""
    u = np.array([(-1) ** (i // 2) * (1 + i % 2) for i in range(n)])
    v = np.exp(0.9j * np.arange(n)) * (1.0 + np.arange(n) % 2)
    f = math.factorial
    out = [("ones", np.ones((n, n)), f(n)), ("rank1", np.outer(u, u[::-1]), f(n) * int(np.prod(u)) ** 2),
           ("rank1c", np.outer(v, u), f(n) * np.prod(v) * np.prod(u)),
           ("upper", np.triu(np.ones((n, n))) + np.diag(np.arange(n) % 2), 2.0 ** (n // 2))]
    I, C = np.eye(n), np.roll(np.eye(n), 1, axis=1)
    out.append(("cycle", 1j * I + C, 1j ** n + 1))
    der = [1, 0]
    for k in range(2, n + 1):
        der.append((k - 1) * (der[-1] + der[-2]))
    out.append(("derangements", np.ones((n, n), dtype=np.int64) - np.eye(n, dtype=np.int64), der[n]))
    k = n // 3
    S = np.zeros((n, n))
    S[:k, :k] = S[k:, k:] = 1
    out.append(("two parts", S, f(k) * f(n - k)))
    fib = [1.0, 1.0]
    for i in range(n - 1):
        fib.append(fib[-1] + 0.5 * fib[-2])
    out.append(("tridiagonal", I + np.diag([0.5] * (n - 1), 1) + np.diag([1.0] * (n - 1), -1), fib[n]))
    return out


@unit(UNITS, quick=[dict(method=m, top=18) for m in ("bbfg", "ryser")], thorough=[dict(method=m, top=22) for m in ("bbfg", "ryser")])
def large(ctx, method, top):
    """Matrices with closed-form permanents above the reach of the subset oracle, with rows and columns scrambled."""
    t = tw()
    for n in range(11, top + 1):
        for name, A, want in closed_forms(n):
            for q in (0, 1):
                p = sorted(range(n), key=lambda i: (al.h(5, n, i), i)) if q else list(range(n))
                r = sorted(range(n), key=lambda i: (al.h(6, n, i), i)) if q else list(range(n))
                M = A[np.ix_(p, r)]
                # Ryser's formula cancels: terms are of the size of the product of the row sums
                tol = 1e-10 if method == "bbfg" else 1e-14 * 4.0 ** n
                sc = max(abs(want), 1e-4 * math.factorial(n) * np.mean(np.abs(A)) ** n)
                ctx.eq((n, name, q), lambda: t.perm(M, method=method), want * 1.0, scale=float(sc), tol=max(tol, 1e-8), data=M)
    for n in (1, 2, 3):
        for tot in range(9, 15):
            k = [tot // n + (1 if i < tot % n else 0) for i in range(n)]
            ctx.eq((n, tuple(k), "repeated"), lambda: t.permanent_repeated(np.ones((n, n)), k), float(math.factorial(tot)), tol=1e-7)
    if method == "bbfg":
        for n in (6, 7, 8, 9):
            a = np.array([0.5 + 0.25 * (i % 3) for i in range(n)]) * np.exp(0.4j * np.arange(n))
            e = 0.25 * (np.arange(n) % 2)
            p = sorted(range(n), key=lambda i: (al.h(5, n, i), i))
            A, E = np.diag(a)[np.ix_(p, range(n))], np.diag(e) + 0j
            want = np.prod(np.abs(a) ** 2)
            ctx.eq((n, "brs"), lambda: t.brs(A, E), want, scale=max(want, np.prod(np.abs(a) ** 2 + e)), tol=1e-7)
            ctx.eq((n, "ubrs"), lambda: t.ubrs(A), want, tol=1e-7)


@unit(UNITS)
def scales(ctx):
    """per(s A) = s^n per(A), and the Bristolians likewise, for tiny and huge s (real, complex and imaginary)."""
    t = tw()
    for n in range(1, 8):
        for name, A in families(n):
            w0, sc0 = orc.permanent(A), scale(A)
            for s in (1e-30, 1e-12, 1e-9, 1e-6, 1e-3, 1e7, 1e-9j, 1e-4j, (1 + 1j) * 1e-8):
                M = A * s
                for method in ("bbfg", "ryser"):
                    ctx.eq((n, name, s, method), lambda: t.perm(M, method=method), w0 * s**n, scale=(sc0 + 1e-3) * abs(s) ** n,
                           tol=1e-7, data=M)
                if n < 5 and abs(s) > 1e-7:
                    for k in ([1] * n, [2] + [0] * (n - 1), [0] * (n - 1) + [3]):
                        rows = [i for i, r in enumerate(k) for _ in range(r)]
                        E = A[np.ix_(rows, rows)]
                        ctx.eq((n, name, s, k), lambda: t.permanent_repeated(M, k), orc.permanent(E) * s ** len(rows),
                               scale=(scale(E) + 1e-3) * abs(s) ** len(rows), tol=1e-7, data=M)
    for m in range(1, 4):
        for n in range(1, 5):
            A = al.mat_gauss(m, n, 1)
            B = al.mat_gauss(n, n, 21)
            E = 0.25 * B.conj().T @ B
            for s in (1e-12, 1e-9, 1e-5, 1e4):
                want, sc = bristol(A, E)
                ctx.eq(("brs", m, n, s), lambda: t.brs(A * s, E * s * s), want * s ** (2 * n), scale=sc * s ** (2 * n), data=(A, s))
                want, sc = bristol(A, 0 * E)
                ctx.eq(("ubrs", m, n, s), lambda: t.ubrs(A * s), want * s ** (2 * n), scale=sc * s ** (2 * n), data=(A, s))


@unit(UNITS)
def forms(ctx):
    """Every memory layout and precision of the Bristolians and repeated permanents, many repetitions, many rows."""
    t = tw()
    for m, n in ((1, 1), (2, 1), (1, 3), (2, 2), (3, 2), (3, 3), (4, 3), (6, 2), (8, 3)):
        for k in range(2):
            A = (al.mat_gauss(m, n, k) if k else al.mat_int(m, n, k) * 1.0) * 0.5
            B = al.mat_gauss(n, n, k + 20) if k else al.mat_int(n, n, k + 20) * 1.0
            for kind, E in (("psd", 0.25 * B.conj().T @ B), ("diag", np.diag(np.arange(1.0, n + 1)) + 0 * B), ("gen", 0.25 * B)):
                want, sc = bristol(A, E)
                for lay in al.LAYOUTS:
                    ctx.eq(("brs", m, n, k, kind, lay), lambda: t.brs(al.layout(A, lay), al.layout(E, lay)), want, scale=sc, data=(A, E))
                s = (lambda x: x.astype(np.complex64)) if k else (lambda x: x.astype(np.float32))
                ctx.eq(("brs", m, n, k, kind, "single"), lambda: t.brs(s(A), s(E)), want, scale=sc, tol=1e-4, data=(A, E))
                ctx.eq(("brs", m, n, k, kind, "mixed"), lambda: t.brs(A.astype(complex), E), want, scale=sc, data=(A, E))
            want, sc = bristol(A, np.zeros((n, n)))
            for lay in al.LAYOUTS:
                ctx.eq(("ubrs", m, n, k, lay), lambda: t.ubrs(al.layout(A, lay)), want, scale=sc, data=A)
    for n in (1, 2, 3, 4, 6):
        for name, A in families(n):
            A = A * 1.0
            tops = {1: (7, 12), 2: (3, 5), 3: (2, 3), 4: (1, 2), 6: (1,)}[n]
            for top in tops:
                for rpt in ([top] * n, [top] + [0] * (n - 1), [0] * (n - 1) + [top], [(top + i) % (top + 1) for i in range(n)]):
                    ind = [i for i, r in enumerate(rpt) for _ in range(r)]
                    if len(ind) > 12:
                        continue
                    M = A[np.ix_(ind, ind)]
                    want, sc = orc.permanent(M), scale(M)
                    for lay in al.LAYOUTS[:: 1 if n < 4 else 2]:
                        ctx.eq(("repeated", n, name, tuple(rpt), lay), lambda: t.permanent_repeated(al.layout(A, lay), rpt), want, scale=sc, data=A)
    for n in range(1, 8):
        for name, A in families(n):
            want, sc = orc.permanent(A), scale(A)
            A = A.astype(np.complex64 if np.iscomplexobj(A) else np.float32)
            for method in ("bbfg", "ryser"):
                ctx.eq(("single", n, name, method), lambda: t.perm(A, method=method), want, scale=sc, tol=1e-3, data=A)
