"""C18: Williamson, Bloch-Messiah, Takagi and Iwasawa decompositions."""
import itertools
import math

import numpy as np

from mc import alphabet as al
from mc import gauss as g
from mc.core import unit

PROPERTY = "C18"
LEVEL = "model_checking"
RULE = (
    "takagi: every symmetric matrix over small sets of Gaussian integers up to 3x3 (4x4 thorough) and every pattern of "
    "equal, zero and distinct singular values in fixed frames; the others: breadth-first search over products of gates "
    "(states = distinct symplectic matrices reached, transitions = gate applications), each decomposed (traces)"
)
ASSUMPTIONS = ["agreement up to 1e-7 relative to the largest entry of the input (square roots of matrices lose half the digits near degeneracies)"]
UNITS = []
TOL = 1e-7


def takagi_ok(A, res, order, tol=TOL):
    vals, U = res
    n = len(A)
    vals, U = np.asarray(vals), np.asarray(U)
    if vals.shape != (n,) or U.shape != (n, n):
        return "shapes %s %s" % (vals.shape, U.shape)
    sc = max(1.0, np.abs(A).max())
    if np.iscomplexobj(vals) and np.abs(vals.imag).max() > tol:
        return "complex values"
    vals = vals.real
    if np.abs(U @ U.conj().T - np.eye(n)).max() > tol:
        return "U is not unitary: deviation %.3g" % np.abs(U @ U.conj().T - np.eye(n)).max()
    e = np.abs((U * vals) @ U.T - A).max()
    if not e <= tol * sc:
        return "U diag(r) U^T differs from A by %.3g" % e
    if vals.min() < -1e-9:
        return "negative value %r" % vals
    d = np.diff(vals)
    if np.any((d > 1e-9) if order else (d < -1e-9)):
        return "values not sorted: %s" % vals
    sv = np.linalg.svd(A, compute_uv=False)
    if np.abs(np.sort(vals)[::-1] - sv).max() > tol * sc:
        return "values %s are not the singular values %s" % (vals, sv)
    return None


SETS = {1: (0, 1, -1, 2, 1j, -1j, 1 + 1j, -2 + 1j, 0.5), 2: (0, 1, -1, 2, 1j, -1j, 1 + 1j, 1 - 1j, -2 + 1j), 3: (0, 1, -1, 1j), 4: (0, 1, 1j)}


@unit(UNITS, quick=[dict(n=1, part=0, of=1), dict(n=2, part=0, of=1), dict(n=3, part=0, of=2), dict(n=3, part=1, of=2), dict(n=4, part=0, of=1)],
      thorough=[dict(n=1, part=0, of=1), dict(n=2, part=0, of=1)] + [dict(n=3, part=i, of=4) for i in range(4)] + [dict(n=4, part=i, of=16) for i in range(16)])
def takagi_small(ctx, n, part, of):
    from thewalrus import decompositions as dc

    pairs = [(i, j) for i in range(n) for j in range(i, n)]
    vals = SETS[n] if not (ctx.thorough and n == 3) else (0, 1, -1, 1j, 1 + 1j)
    if n == 4 and not ctx.thorough:
        vals = (0, 1)
    for q, ent in enumerate(itertools.product(vals, repeat=len(pairs))):
        if q % of != part:
            continue
        A = np.zeros((n, n), dtype=complex)
        for (i, j), v in zip(pairs, ent):
            A[i, j] = A[j, i] = v
        for order in (True, False):
            ctx.true((n, ent, order), lambda: takagi_ok(A, dc.takagi(A, svd_order=order), order), nontrivial=bool(A.any()))
        if np.isrealobj(np.real_if_close(A)):
            ctx.true((n, ent, "real"), lambda: takagi_ok(A.real, dc.takagi(A.real.copy()), True), nontrivial=bool(A.any()))
            if q % 7 == 0 and np.all(A.real == np.round(A.real)):
                ctx.true((n, ent, "int"), lambda: takagi_ok(A.real, dc.takagi(A.real.astype(int)), True), nontrivial=bool(A.any()))


@unit(UNITS, quick=[dict(n=n) for n in (1, 2, 3, 4, 5, 6)], thorough=[dict(n=n) for n in range(1, 8)])
def takagi_spectra(ctx, n):
    """All patterns of equal, distinct and zero singular values in several frames, and structured families."""
    from thewalrus import decompositions as dc

    levels = (0.0, 0.5, 1.0) if n > 3 else (0.0, 0.5, 1.0, 3.0)
    frames = [("id", np.eye(n)), ("dft", g.unitary(n, 1))] + [("u%d" % k, g.unitary(n, k)) for k in (2, 3, 5)]
    frames += [("perm", np.eye(n)[::-1]), ("orth", np.linalg.qr(al.mat_int(n, n, 4) + 3 * np.eye(n))[0])]
    frames += [("phase%d" % k, np.diag(np.exp(0.25j * np.pi * k * np.arange(n)))) for k in (1, 2)]
    for s in itertools.combinations_with_replacement(levels, n):
        if n > 5 and len(set(s)) > 2 and s[0] != 0:
            continue
        for fname, U in frames:
            for ph in (0.0, 0.3, math.pi / 2, math.pi):
                A = np.exp(1j * ph) * (U * np.array(s)) @ U.T
                A = (A + A.T) / 2
                for order in (True, False):
                    ctx.true((n, s, fname, ph, order), lambda: takagi_ok(A, dc.takagi(A, svd_order=order), order), data=A)
                if n < 4 and ph == 0.3:
                    for lay in al.LAYOUTS:
                        B = al.layout(A, lay)
                        ctx.true((n, s, fname, lay), lambda: takagi_ok(A, dc.takagi(B), True), data=A)
                        ctx.true((n, s, fname, lay, "unchanged"), lambda: np.array_equal(B, A))
                for scale in (1e3, 1e-3):
                    ctx.true((n, s, fname, ph, scale), lambda: takagi_ok(A * scale, dc.takagi(A * scale), True), data=A)
    for name, A in al.sym_families(n):
        if name == "small":
            A = A * 1e2
        for order in (True, False):
            ctx.true((n, name, order), lambda: takagi_ok(A, dc.takagi(A, svd_order=order), order), data=A)
        L = np.array(A, dtype=complex if np.iscomplexobj(A) else float)
        L[np.tril_indices(n, -1)] = 9.0
        ctx.true((n, name, "lower triangle ignored"), lambda: takagi_ok(A, dc.takagi(L), True), data=A)
    ctx.raises((n, "nonsquare"), lambda: dc.takagi(np.ones((n, n + 1))), ValueError)


def gate_words(n, depth):
    """(word, S) for every distinct product of gates up to the depth, breadth first."""
    def ex(T, modes):
        E = np.eye(2 * n)
        ix = list(modes) + [m + n for m in modes]
        E[np.ix_(ix, ix)] = T
        return E

    gates = []
    for m in range(n):
        gates.append(("S%d" % m, ex(g.sq([0.5]), [m])))
        gates.append(("s%d" % m, ex(g.sq([0.5], [math.pi / 2]), [m])))
        gates.append(("R%d" % m, ex(g.passive(np.array([[1j]])), [m])))
        if m == 0:
            gates.append(("t%d" % m, ex(g.passive(np.array([[np.exp(0.4j)]])), [m])))
            gates.append(("-%d" % m, ex(-np.eye(2), [m])))
            gates.append(("H%d" % m, ex(np.array([[1, 0], [0.8, 1]]), [m])))  # shear
    h = math.sqrt(0.5)
    for i in range(n - 1):
        gates.append(("B%d" % i, ex(g.passive(np.array([[h, -h], [h, h]])), [i, i + 1])))
    if n > 1:
        gates.append(("X", ex(g.passive(np.array([[0, 1], [1, 0]])), [0, n - 1])))
        gates.append(("b", ex(g.passive(g.bs_unitary(0.4, 0.9)), [0, n - 1])))
        C = np.eye(4)
        C[2, 1] = C[3, 0] = 0.7  # controlled phase
        gates.append(("C", ex(C, [0, n - 1])))
        c, s = math.cosh(0.5), math.sinh(0.5)
        gates.append(("T", ex(np.array([[c, s, 0, 0], [s, c, 0, 0], [0, 0, c, -s], [0, 0, -s, c]]), [0, n - 1])))
    seen = {}
    frontier = [("", np.eye(2 * n))]
    seen[np.round(np.eye(2 * n), 7).tobytes()] = 1
    out = list(frontier)
    trans = 0
    for _ in range(depth):
        new = []
        for w, S in frontier:
            for gname, G in gates:
                T = G @ S
                trans += 1
                key = (np.round(T, 7) + 0.0).tobytes()
                if key not in seen:
                    seen[key] = 1
                    new.append((w + gname, T))
        out += new
        frontier = new
    return out, trans


def is_sp(S, tol=1e-7):
    n = len(S) // 2
    O = g.om(n)
    return np.abs(S.T @ O @ S - O).max() <= tol * max(1, np.abs(S).max() ** 2)


def check_bm(S, res, tol=TOL):
    O, D, Q = (np.asarray(x) for x in res)
    n = len(S) // 2
    sc = np.abs(S).max()
    for nm, M in (("O", O), ("Q", Q)):
        if M.shape != S.shape or np.iscomplexobj(M):
            return "%s has shape %s dtype %s" % (nm, M.shape, M.dtype)
        if np.abs(M @ M.T - np.eye(2 * n)).max() > tol * sc:
            return "%s is not orthogonal (%.3g)" % (nm, np.abs(M @ M.T - np.eye(2 * n)).max())
        if not is_sp(M, tol * sc):
            return "%s is not symplectic" % nm
    if np.abs(O @ D @ Q - S).max() > tol * sc ** 2:
        return "O D Q differs from S by %.3g" % np.abs(O @ D @ Q - S).max()
    d = np.diag(D)
    if np.abs(D - np.diag(d)).max() > 0 or d.min() <= 0 or np.abs(d[:n] * d[n:] - 1).max() > tol * sc:
        return "D is not diag(d, 1/d) with positive d: %s" % D


def check_pre(S, res, tol=TOL):
    E, D, F = (np.asarray(x) for x in res)
    n = len(S) // 2
    I, Z = np.eye(n), np.zeros((n, n))
    sc = np.abs(S).max() ** 2
    if np.abs(E @ D @ F - S).max() > tol * sc:
        return "E D F differs from S by %.3g" % np.abs(E @ D @ F - S).max()
    if np.abs(F @ F.T - np.eye(2 * n)).max() > tol * sc or not is_sp(F, tol * sc):
        return "F is not symplectic orthogonal"
    X = E[n:, :n]
    if np.abs(E - np.block([[I, Z], [X, I]])).max() > 1e-9 or np.abs(X - X.T).max() > tol * sc:
        return "E is not a lower shear with symmetric block"
    if np.abs(D[:n, n:]).max() > 1e-9 or np.abs(D[n:, :n]).max() > 1e-9 or np.abs(D[:n, :n] @ D[n:, n:] - I).max() > tol * sc:
        return "D is not block diagonal with inverse blocks"


def check_iw(S, res, tol=TOL):
    E, D, F = (np.asarray(x) for x in res)
    n = len(S) // 2
    sc = np.abs(S).max() ** 2
    if np.abs(E @ D @ F - S).max() > tol * sc:
        return "E D F differs from S by %.3g" % np.abs(E @ D @ F - S).max()
    if np.abs(F @ F.T - np.eye(2 * n)).max() > tol * sc or not is_sp(F, tol * sc):
        return "F is not symplectic orthogonal"
    d = np.diag(D)
    if np.abs(D - np.diag(d)).max() > 0 or d.min() <= 0 or np.abs(d[:n] * d[n:] - 1).max() > tol * sc:
        return "D is not diagonal, positive and symplectic: %s" % d
    A, C, B, G = E[:n, :n], E[n:, :n], E[:n, n:], E[n:, n:]
    if np.abs(B).max() > 1e-9 or np.abs(np.diag(A) - 1).max() > 1e-9 or np.abs(np.triu(A, 1)).max() > 1e-9:
        return "E does not have a unit triangular first block and zero second block"
    if np.abs(G @ A.T - np.eye(n)).max() > tol * sc or np.abs(A.T @ C - C.T @ A).max() > tol * sc:
        return "E is not symplectic"


def check_wil(V, res, tol=TOL):
    D, S = (np.asarray(x) for x in res)
    n = len(V) // 2
    sc = np.abs(V).max()
    if D.shape != V.shape or S.shape != V.shape or np.iscomplexobj(S) or np.iscomplexobj(D):
        return "shapes or dtypes %s %s %s %s" % (D.shape, S.shape, D.dtype, S.dtype)
    d = np.diag(D)
    if np.abs(D - np.diag(d)).max() > 0 or d.min() <= 0 or np.abs(d[:n] - d[n:]).max() > tol * sc:
        return "Db is not diag(d, d) with positive d: %s" % d
    if not is_sp(S, 10 * tol):
        return "S is not symplectic"
    if np.abs(S @ D @ S.T - V).max() > tol * sc:
        return "S Db S^T differs from V by %.3g" % np.abs(S @ D @ S.T - V).max()
    nu = np.sort(np.abs(np.linalg.eigvals(g.om(n) @ V)))[::2]
    if np.abs(np.sort(d[:n]) - nu).max() > 1e-5 * sc:
        return "Db %s does not hold the symplectic eigenvalues %s" % (d, nu)


@unit(UNITS, quick=[dict(n=1, depth=5, of=1, part=0)] + [dict(n=2, depth=3, of=2, part=i) for i in (0, 1)] + [dict(n=3, depth=2, of=1, part=0), dict(n=4, depth=2, of=1, part=0)],
      thorough=[dict(n=1, depth=7, of=1, part=0)] + [dict(n=2, depth=4, of=8, part=i) for i in range(8)] + [dict(n=3, depth=3, of=8, part=i) for i in range(8)] + [dict(n=4, depth=2, of=1, part=0), dict(n=5, depth=2, of=1, part=0)])
def words(ctx, n, depth, of, part):
    """Every distinct product of gates is decomposed by all four algorithms."""
    from thewalrus import decompositions as dc

    allw, trans = gate_words(n, depth)
    nus = [[1.0] * n, [1.0 + 0.5 * i for i in range(n)], [2.0] * (n - 1) + [1.0]]
    for q, (w, S) in enumerate(allw):
        if q % of != part:
            continue
        ctx.count(states=1, traces=1)
        ctx.true((n, w, "blochmessiah"), lambda: check_bm(S, dc.blochmessiah(S)), data=S)
        ctx.true((n, w, "pre_iwasawa"), lambda: check_pre(S, dc.pre_iwasawa(S)), data=S)
        ctx.true((n, w, "iwasawa"), lambda: check_iw(S, dc.iwasawa(S)), data=S)
        for k, nu in enumerate(nus[: 3 if n > 1 else 2]):
            V = (S * np.tile(nu, 2)) @ S.T
            V = (V + V.T) / 2
            ctx.true((n, w, k, "williamson"), lambda: check_wil(V, dc.williamson(V)), data=V)

            def spec():
                v = np.sort(np.abs(np.asarray(dc.symplectic_eigenvals(V))))
                if v.shape != (n,):
                    return "%d values" % len(v)
                if np.abs(v - np.sort(nu)).max() > 1e-5 * max(1, np.abs(V).max()):
                    return "symplectic eigenvalues %s, expected %s" % (v, nu)

            ctx.true((n, w, k, "eigenvals"), spec, data=V)
            if q % 5 == 0:
                for h in (0.5, 0.05, 20.0):
                    ctx.true((n, w, k, h, "williamson"), lambda: check_wil(V * h, dc.williamson(V * h)), data=V)
    if part == 0:
        ctx.count(transitions=trans)


@unit(UNITS, quick=[dict(n=n) for n in (1, 2, 3, 4, 5, 6, 8)], thorough=[dict(n=n) for n in range(1, 11)])
def structured(ctx, n):
    """Generic symplectic matrices, positive matrices that are not covariance matrices, rejected inputs."""
    from thewalrus import decompositions as dc

    for k in range(12):
        S = g.symplectic(n, k) @ g.symplectic(n, k + 3)
        for scale, T in (("", S), ("F", np.asfortranarray(S))):
            ctx.true((n, k, scale, "blochmessiah"), lambda: check_bm(T, dc.blochmessiah(T)), data=S)
            ctx.true((n, k, scale, "iwasawa"), lambda: check_iw(T, dc.iwasawa(T)), data=S)
            ctx.true((n, k, scale, "pre_iwasawa"), lambda: check_pre(T, dc.pre_iwasawa(T)), data=S)
        B = al.mat_int(2 * n, 2 * n, k)
        V = (B @ B.T + (k % 3 + 1) * np.eye(2 * n)).astype(float)
        ctx.true((n, k, "posdef"), lambda: check_wil(V, dc.williamson(V)), data=V)
        ctx.true((n, k, "posdef int"), lambda: check_wil(V, dc.williamson(V.astype(int))), data=V)
    for r in (1e-3, 1e-6, 2.0, 3.0):
        S = g.passive(g.unitary(n, 1)) @ g.sq([r] * n) @ g.passive(g.unitary(n, 2))
        ctx.true((n, r, "blochmessiah"), lambda: check_bm(S, dc.blochmessiah(S)), data=S)
        ctx.true((n, r, "iwasawa"), lambda: check_iw(S, dc.iwasawa(S)), data=S)
    for d in itertools.product((1.0, 2.0, 5.0), repeat=2 * n) if n < 3 else [tuple(1.0 + i % 3 for i in range(2 * n))]:
        V = np.diag(d)
        ctx.true((n, d, "diag"), lambda: check_wil(V, dc.williamson(V)), data=V)
    for p in itertools.islice(itertools.permutations(range(n)), 24):
        S = np.kron(np.eye(2), np.eye(n)[list(p)])
        ctx.true((n, p, "perm", "bm"), lambda: check_bm(S, dc.blochmessiah(S)))
        ctx.true((n, p, "perm", "iw"), lambda: check_iw(S, dc.iwasawa(S)))
        ctx.true((n, p, "perm int", "bm"), lambda: check_bm(S, dc.blochmessiah(S.astype(int))))
    # matrices that violate exactly one of the block conditions of a symplectic matrix
    one = []
    I, Z = np.eye(n), np.zeros((n, n))
    if n > 1:
        for i, j in itertools.permutations(range(n), 2):
            X = np.zeros((n, n))
            X[i, j] = 0.5
            one += [("B", i, j, np.block([[I, X], [Z, I]])), ("C", i, j, np.block([[I, Z], [X, I]])),
                    ("A", i, j, np.block([[I + X, Z], [Z, I]])), ("D", i, j, np.block([[I, Z], [Z, I + X]])),
                    ("SB", i, j, g.symplectic(n, 1) @ np.block([[I, X], [Z, I]])), ("BS", i, j, np.block([[I, X], [Z, I]]) @ g.symplectic(n, 2)),
                    ("SC", i, j, g.symplectic(n, 1) @ np.block([[I, Z], [X, I]])), ("CS", i, j, np.block([[I, Z], [X, I]]) @ g.symplectic(n, 2))]
    for i in range(n):
        X = np.zeros((n, n))
        X[i, i] = 0.3
        one += [("a", i, i, np.block([[I + X, Z], [Z, I]])), ("bc", i, i, np.block([[I, X], [X, I]]))]
    for kind, i, j, M in one:
        if is_sp(M):
            continue
        for f in (dc.blochmessiah, dc.pre_iwasawa, dc.iwasawa):
            ctx.raises((n, f.__name__, "one condition", kind, i, j), lambda: f(M), ValueError, data=M)
    for f in (dc.blochmessiah, dc.pre_iwasawa, dc.iwasawa):
        for nm, M in (("scaled", 1.1 * np.eye(2 * n)), ("odd", np.eye(2 * n + 1)), ("flip", np.diag([1.0] * n + [-1.0] * n)), ("rect", np.eye(2 * n, 2 * n + 2)), ("zero", np.zeros((2 * n, 2 * n)))):
            ctx.raises((n, f.__name__, nm), lambda: f(M), ValueError)
    V = np.eye(2 * n)
    for nm, M in (("odd", np.eye(2 * n + 1)), ("rect", np.eye(2 * n, 2 * n + 1)), ("indefinite", np.diag([-1.0] + [1.0] * (2 * n - 1))), ("singular", np.diag([0.0] + [1.0] * (2 * n - 1))), ("neg", -V), ("asym", V + np.triu(np.full((2 * n, 2 * n), 0.1), 1))):
        ctx.raises((n, "williamson", nm), lambda: dc.williamson(M), ValueError)
    W = V * 2
    W[0, 1] = 1e-3
    ctx.raises((n, "williamson", "asym tight"), lambda: dc.williamson(W), ValueError)
    ctx.true((n, "williamson", "asym tolerated"), lambda: len(dc.williamson(W, atol=1e-2)) == 2)


@unit(UNITS, quick=[dict(n=n) for n in (1, 2, 3, 4, 6, 9)])
def scales(ctx, n):
    """Takagi and Williamson decompositions of matrices of every magnitude, judged relative to it."""
    from thewalrus import decompositions as dc

    mats = [("int", al.sym_int(n, 1)), ("real", al.sym_real(n, 0)), ("gauss", al.sym_gauss(n, 0)), ("imag", 1j * al.sym_int(n, 3)),
            ("ones", np.ones((n, n))), ("diag", np.diag(al.vec_gauss(n, 1))),
            ("near diag", np.diag(np.arange(1, n + 1) * np.exp(1j * np.arange(n))) + 1e-3j * np.ones((n, n)))]
    mats += [("degenerate", np.diag([1.0] * n) * (0.6 + 0.8j)), ("swap", np.eye(n)[::-1] * (1 + 2j))]
    for name, A in mats:
        for s in (1e-11, 1e-9, 1e-8, 1e-7, 1e-6, 1e-4, 1e-2, 1e3, 1e6):
            M = A * s
            if 0 < np.abs(np.imag(M)).max() < 1e-12:
                continue
            for order in (True, False):
                def check():
                    vals, U = dc.takagi(M.copy(), svd_order=order)
                    return takagi_ok(A, (np.asarray(vals) / s, U), order)

                ctx.true((n, name, s, order, "takagi"), check, nontrivial=bool(A.any()), data=M)
    for k in range(4):
        S = g.symplectic(n, k)
        V = S @ np.diag([1.0 + (i * k) % 3 for i in range(n)] * 2) @ S.T
        nu = np.sort(np.abs(np.linalg.eigvals(g.om(n) @ V)))[::2]
        for s in (1e-12, 1e-9, 1e-6, 1e-3, 1e3, 1e6, 1e9):
            def wil():
                D, T = dc.williamson(V * s)
                return check_wil(V, (np.asarray(D) / s, T))

            ctx.true((n, k, s, "williamson"), wil, data=V * s)

            def eig():
                v = np.sort(np.asarray(dc.symplectic_eigenvals(V * s)).real) / s
                return None if v.shape == nu.shape and np.allclose(v, nu, atol=1e-5) else "%s, expected %s" % (v, nu)

            ctx.true((n, k, s, "eigenvals"), eig, data=V * s)


@unit(UNITS, quick=[dict(n=n) for n in (1, 2, 3, 5)])
def forms(ctx, n):
    """Every layout and dtype of the decomposed matrix, which is left as it was."""
    from thewalrus import decompositions as dc

    shear = np.eye(2 * n, dtype=int)
    shear[n:, :n] = np.diag(np.arange(1, n + 1))
    if n > 1:
        shear[n, 1] = shear[n + 1, 0] = 2
    flip = np.block([[np.zeros((n, n)), np.eye(n)], [-np.eye(n), np.zeros((n, n))]]).astype(int)
    sps = [("shear", shear), ("flip", flip), ("shear flip", shear @ flip), ("gen", g.symplectic(n, 3)), ("32", g.sq([0.4] * n).astype(np.float32))]
    vs = [(nm, V) for nm, _, V, _ in g.formed(n) if nm.split()[-1] not in ("equal", "sum0", "first", "lastx", "lastp", "xp0")]
    for nm, S in sps:
        for lay in al.LAYOUTS:
            X = al.layout(S, lay)
            tol = 1e-4 if nm == "32" else TOL
            for f, ok in ((dc.blochmessiah, check_bm), (dc.pre_iwasawa, check_pre), (dc.iwasawa, check_iw)):
                ctx.true((n, nm, lay, f.__name__), lambda: ok(np.array(S, dtype=float), f(X), tol), data=S)
                ctx.count(states=1, traces=1)
            ctx.true((n, nm, lay, "input"), lambda: np.array_equal(X, S))
            if nm != "32":
                V = S @ np.diag([1, 2, 1, 3, 1][:n] * 2) @ S.T
                vs.append((nm + " " + lay, al.layout((V + V.T) / 2 if V.dtype.kind == "f" else V, lay)))
    for nm, V in vs:
        keep = V.copy()
        W = np.array(V, dtype=float)
        ctx.true((n, nm, "williamson"), lambda: check_wil(W, dc.williamson(V)), data=V)
        nu = np.sort(np.abs(np.linalg.eigvals(g.om(n) @ W)))[::2]
        ctx.true((n, nm, "eigenvals"), lambda: np.abs(np.sort(np.abs(np.asarray(dc.symplectic_eigenvals(V)))) - nu).max() <= 1e-6 * np.abs(W).max(), data=V)
        ctx.true((n, nm, "input"), lambda: np.array_equal(V, keep))
        ctx.count(states=1, traces=2)
