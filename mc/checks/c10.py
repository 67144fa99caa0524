"""C10: characteristic polynomial and power traces of any square matrix."""
import itertools

import numpy as np

from mc import alphabet as al
from mc.core import unit

PROPERTY = "C10"
LEVEL = "exploration"
RULE = (
    "every 0/1 matrix up to 3x3, every 4x4 matrix over a structured 0/1 subset, a fixed alphabet up to size 10, every "
    "order up to twice the size, against exact integer (Faddeev-LeVerrier) arithmetic; non-trivial: some coefficient "
    "or trace is not zero"
)
ASSUMPTIONS = ["agreement up to 1e-7 relative to the coefficients of the entrywise absolute matrix"]
UNITS = []


def traces(A, n):
    M = [[complex(x) for x in r] for r in np.asarray(A).tolist()]
    m = len(M)
    out = [m]
    P = [[complex(i == j) for j in range(m)] for i in range(m)]
    for _ in range(1, n):
        P = [[sum(P[i][k] * M[k][j] for k in range(m)) for j in range(m)] for i in range(m)]
        out.append(sum(P[i][i] for i in range(m)))
    return np.array(out[:n], dtype=complex)


def coeffs(A):
    """Coefficients c_1..c_m of det(x - A) = x^m + c_1 x^(m-1) + ..., by Newton's identities on exact traces."""
    m = len(A)
    p = traces(A, m + 1)
    c = [1.0 + 0j]
    for k in range(1, m + 1):
        c.append(-sum(c[k - j] * p[j] for j in range(1, k + 1)) / k)
    return np.array(c[1:], dtype=complex)


def elem(A):
    """Scale of the k-th coefficient: binom-like bound from the spectral norm."""
    from math import comb

    m = len(A)
    s = float(np.linalg.norm(np.asarray(A, dtype=complex), 2)) if m else 0.0
    return np.array([comb(m, k) * max(s, 1e-3) ** k for k in range(1, m + 1)])


def tscale(A, n):
    m = len(A)
    s = float(np.linalg.norm(np.asarray(A, dtype=complex), 2)) if m else 0.0
    return np.array([max(m, 1) * max(s, 1e-3) ** k for k in range(n)])


def families(n):
    I = np.eye(n)
    out = [("zero", 0 * I), ("ident", I), ("ones", 0 * I + 1), ("anti", I[::-1].copy()), ("cyc", np.roll(I, 1, axis=0)),
           ("nilp", np.diag(np.ones(max(n - 1, 0)), 1) if n else I), ("nilpT", np.diag(np.ones(max(n - 1, 0)), -1) if n else I),
           ("upper", np.triu(al.mat_int(n, n, 2).astype(float))), ("diag", np.diag(al.vec_int(n, 3).astype(float)))]
    if n:
        C = np.diag(np.ones(n - 1), -1)
        C[:, -1] = al.vec_int(n, 6)
        out.append(("companion", C))
        out.append(("hess", np.triu(al.mat_int(n, n, 5).astype(float), -1)))
        out.append(("rank1", np.outer(al.vec_int(n, 4), al.vec_int(n, 7)).astype(float)))
        Z = al.mat_int(n, n, 8).astype(float)
        Z[1:, 0] = 0
        out.append(("zero-first-col", Z))
        S = al.mat_int(n, n, 9).astype(float)
        if n > 2:
            S[1, 0] = 0
        out.append(("zero-subdiag", S))
    for k in range(4):
        out += [("int%d" % k, al.mat_int(n, n, k).astype(float)), ("gauss%d" % k, al.mat_gauss(n, n, k) * 0.5),
                ("sym%d" % k, al.sym_real(n, k)), ("units%d" % k, np.array([0, 1, -1, 1j])[np.mod(al.mat_int(n, n, 50 + k, 0, 3), 4)])]
    return out


@unit(UNITS, quick=[dict(cplx=False), dict(cplx=True)])
def grid(ctx, cplx):
    """Complete 0/1 grids: n <= 3, and every 4x4 matrix with a 0/1 lower Hessenberg pattern."""
    from thewalrus.charpoly import charpoly, powertrace

    for n in (0, 1, 2, 3):
        for v in itertools.product((0, 1) if n == 3 else (-1, 0, 1, 2), repeat=n * n):
            A = np.array(v, dtype=complex if cplx else float).reshape(n, n)
            if cplx:
                A = A * (1 + 1j)
            ctx.eq(("cp", n, v), lambda: np.array(charpoly(A.copy()), dtype=complex), coeffs(A), scale=elem(A) + 1)
            N = 2 * n + 2
            ctx.eq(("pt", n, v), lambda: powertrace(A.copy(), N), traces(A, N), scale=tscale(A, N) + 1)
    free = [(i, j) for i in range(4) for j in range(4) if not (i == 0 and j > 0)][: 11 if not ctx.thorough else 13]
    for v in itertools.product((0, 1), repeat=len(free)):
        A = np.eye(4, dtype=complex if cplx else float)[::-1].copy()
        for (i, j), x in zip(free, v):
            A[i, j] = x
        ctx.eq(("cp4", v), lambda: np.array(charpoly(A.copy()), dtype=complex), coeffs(A), scale=elem(A) + 1)
        ctx.eq(("pt4", v), lambda: powertrace(A.copy(), 7), traces(A, 7), scale=tscale(A, 7) + 1)


@unit(UNITS, quick=[dict(n=3, part=p) for p in range(2)] + [dict(n=4, part=p) for p in range(4)])
def unit_grid(ctx, n, part):
    """Every 3x3 matrix over {0, 1, -1} and {0, 1, i}; every 4x4 matrix whose six entries below the diagonal
    (the ones the Hessenberg reduction eliminates) range over {0, 1, -1, i}."""
    from thewalrus.charpoly import charpoly, powertrace

    if n == 3:
        for v in itertools.product(((0, 1, -1), (0, 1, 1j))[part], repeat=9):
            A = np.array(v, dtype=complex if part else float).reshape(3, 3)
            ctx.eq(("cp", v), lambda: np.array(charpoly(A.copy()), dtype=complex), coeffs(A), scale=elem(A) + 1)
            ctx.eq(("pt", v), lambda: powertrace(A.copy(), 8), traces(A, 8), scale=tscale(A, 8) + 1)
        return
    U = np.triu(al.mat_gauss(4, 4, 31)) * 0.5
    low = [(i, j) for i in range(4) for j in range(i)]
    for q, v in enumerate(itertools.product((0, 1, -1, 1j), repeat=6)):
        if q % 4 != part:
            continue
        A = U.copy()
        for (i, j), x in zip(low, v):
            A[i, j] = x
        ctx.eq(("cp4", v), lambda: np.array(charpoly(A.copy()), dtype=complex), coeffs(A), scale=elem(A) + 1)
        ctx.eq(("pt4", v), lambda: powertrace(A.copy(), 7), traces(A, 7), scale=tscale(A, 7) + 1)
        if not any(isinstance(x, complex) for x in v):
            B = A.real.copy()
            ctx.eq(("cp4r", v), lambda: np.array(charpoly(B.copy()), dtype=complex), coeffs(B), scale=elem(B) + 1)


@unit(UNITS, quick=[dict(nmax=9)], thorough=[dict(nmax=14)])
def sizes(ctx, nmax):
    """Structured matrices, every order n = 1..2m+2, every layout; the argument is left unchanged."""
    from thewalrus.charpoly import charpoly, powertrace

    for n in range(nmax + 1):
        for name, A in families(n):
            for lay in ("C", "F", "slice") if n == 4 else ("C",):
                M = al.layout(A, lay)
                keep = M.copy()
                ctx.eq((n, name, lay, "cp"), lambda: np.array(charpoly(M), dtype=complex), coeffs(A), scale=elem(A), data=A)
                tr = traces(A, 2 * n + 3)
                ts = tscale(A, 2 * n + 3)
                for N in range(1, 2 * n + 3):
                    ctx.eq((n, name, lay, "pt", N), lambda: powertrace(M, N), tr[:N], scale=ts[:N], data=A)
                if ctx.only is None:
                    ctx.true((n, name, lay, "unchanged"), lambda: np.array_equal(M, keep))


def closed_forms(n):
    """(name, matrix, coefficients, traces of powers 0..2n) with exactly known values."""
    K = 2 * n
    out = []
    # permutation with cycles of prescribed lengths, scrambled
    for name, lens in (("cycle", [n]), ("cycles", [3] * (n // 3) + ([n % 3] if n % 3 else []))):
        P, pol, o = np.zeros((n, n)), np.array([1.0]), 0
        tr = np.zeros(K + 1)
        for L in lens:
            for i in range(L):
                P[o + i, o + (i + 1) % L] = 1
            o += L
            pol = np.convolve(pol, np.array([1.0] + [0.0] * (L - 1) + [-1.0]))
            tr += np.array([L if k % L == 0 else 0 for k in range(K + 1)])
        q = sorted(range(n), key=lambda i: (al.h(3, n, i), i))
        out.append((name, P[np.ix_(q, q)], pol[1:], tr))
    # companion matrix of a polynomial with small integer coefficients
    c = np.array([[0, 1, -1, 0, 2][al.h(9, n, i) % 5] for i in range(n)], dtype=object)
    C = np.zeros((n, n))
    C[0, :] = [-float(x) for x in c]
    for i in range(n - 1):
        C[i + 1, i] = 1
    p = [n]
    for k in range(1, K + 1):
        s = -sum(c[j - 1] * p[k - j] for j in range(1, min(k - 1, n) + 1))
        if k <= n:
            s -= k * c[k - 1]
        else:
            s = -sum(c[j - 1] * p[k - j] for j in range(1, n + 1))
        p.append(s)
    for nm, X in (("companion", C), ("companion^T", C.T.copy()), ("companion reversed", C[::-1, ::-1].copy())):
        out.append((nm, X, c.astype(float), np.array(p, dtype=float)))
    # triangular with eigenvalues 1 and -1
    D = np.array([(-1) ** i for i in range(n)], dtype=float)
    T = np.triu(al.mat_int(n, n, 6), 1) * 0.5 + np.diag(D)
    pol = np.array([1.0])
    for d in D:
        pol = np.convolve(pol, [1.0, -d])
    out.append(("triangular", T, pol[1:], np.array([np.sum(D ** k) for k in range(K + 1)])))
    u = np.exp(0.3j * np.arange(n))
    w = np.zeros(n, dtype=complex)
    w[0] = -n
    out.append(("rank one", np.outer(u, u.conj()), w, np.array([n] + [float(n) ** k for k in range(1, K + 1)])))
    w = np.array([float(x) for x in [0] * n])
    out.append(("nilpotent", np.diag([1.0 + i % 3 for i in range(n - 1)], 1), w, np.array([n] + [0.0] * K)))
    return out


@unit(UNITS)
def large(ctx):
    """Sizes 10..26 with exactly known polynomials, real and complex, powers up to twice the size."""
    from thewalrus.charpoly import charpoly, powertrace

    for n in range(10, 27):
        for name, A, c, tr in closed_forms(n):
            for ph in (1.0, 1j):
                M = A * ph
                cc = np.array([x * ph ** (k + 1) for k, x in enumerate(c)])
                tt = np.array([x * ph ** k for k, x in enumerate(tr)])
                sc = np.maximum(np.max(np.abs(cc)), 1.0)
                ctx.eq((n, name, str(ph), "cp"), lambda: np.array(charpoly(M.copy()), dtype=complex), cc, scale=sc, tol=1e-7, data=A)
                for N in (1, 2, n - 1, n, n + 1, n + 2, 2 * n - 1, 2 * n + 1):
                    ctx.eq((n, name, str(ph), "pt", N), lambda: powertrace(M.copy(), N), tt[:N], scale=np.maximum(np.abs(tt[:N]), float(n)), tol=1e-6, data=A)


@unit(UNITS, quick=[dict(nmax=6)], thorough=[dict(nmax=9)])
def scales(ctx, nmax):
    """Tiny and huge multiples, small entries below the diagonal, small and large rows (diagonal similarity)."""
    from thewalrus.charpoly import charpoly, powertrace

    for n in range(1, nmax + 1):
        for name, A0 in families(n):
            N = 2 * n + 1
            c0, t0 = coeffs(A0), traces(A0, N)
            e0, s0 = elem(A0), tscale(A0, N)
            K, J = np.arange(1, n + 1), np.arange(N)
            for s in (1e-30, 1e-12, 1e-9, 1e-5, 1e-2, 1e6):
                M = A0 * s
                ctx.eq((n, name, s, "cp"), lambda: np.array(charpoly(M.copy()), dtype=complex), c0 * s**K, scale=e0 * s**K + 1e-290, tol=1e-8, data=M)
                ctx.eq((n, name, s, "pt"), lambda: powertrace(M.copy(), N), t0 * s**J, scale=s0 * s**J + 1e-290, tol=1e-8, data=M)
            if n < 2:
                continue
            for s in (1e-10, 1e-8, 1e-6, 1e-4, 1e-2):
                M = np.triu(A0) + s * np.tril(A0, -1)
                if name == "nilpT":
                    M = M + np.diag([1.0] * (n - 1), 1)
                # the answer must resolve first-order effects of the small entries
                c, tr = coeffs(M), traces(M, N)
                U = np.triu(M)
                sc = 1e-4 * np.abs(c - coeffs(U)) + 1e-12 * elem(M)
                st = 1e-4 * np.abs(tr - traces(U, N)) + 1e-12 * tscale(M, N)
                ctx.eq((n, name, s, "below", "cp"), lambda: np.array(charpoly(M.copy()), dtype=complex), c, scale=sc, tol=1.0, data=M)
                ctx.eq((n, name, s, "below", "pt"), lambda: powertrace(M.copy(), N), tr, scale=st, tol=1.0, data=M)
            for q, d in enumerate((1e-3, 1e3)):
                D = np.ones(n)
                D[q - 1] = d
                M = A0 * np.outer(D, 1 / D)
                ctx.eq((n, name, d, "similar", "cp"), lambda: np.array(charpoly(M.copy()), dtype=complex), c0, scale=1e-8 * e0 + 1e-13 * elem(M), tol=1.0, data=M)
                ctx.eq((n, name, d, "similar", "pt"), lambda: powertrace(M.copy(), N), t0, scale=1e-8 * s0 + 1e-13 * tscale(M, N), tol=1.0, data=M)
