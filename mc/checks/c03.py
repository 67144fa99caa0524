"""C03: batched hafnians, multidimensional Hermite polynomials, interferometer tensors."""
import itertools
import math

import numpy as np

from mc import alphabet as al
from mc import oracles as orc
from mc.core import unit

PROPERTY = "C03"
LEVEL = "model_checking"
RULE = (
    "states are multi-indices, transitions the lowering steps of the three-term recursion; the lattice is built once "
    "per (matrix, vector) by the reference recursion and every returned tensor, for every cutoff shape up to the bound "
    "and every flag combination, is compared entry by entry (one trace per returned tensor)"
)
ASSUMPTIONS = ["agreement up to 1e-8 relative to the same polynomial with entrywise absolute values"]
UNITS = []


def tw():
    import thewalrus

    return thewalrus


SIDE = {1: 12, 2: 6, 3: 4, 4: 3, 5: 2}
SIDE_T = {1: 20, 2: 9, 3: 5, 4: 4, 5: 3, 6: 2}


def sqrtfact(box):
    out = np.ones(box)
    for k in itertools.product(*(range(b) for b in box)):
        out[k] = math.sqrt(orc.factorials(k))
    return out


def cutoff_forms(shape, q):
    """The accepted ways of writing a cutoff."""
    n = len(shape)
    same = len(set(shape)) == 1
    forms = [("list", list(shape)), ("tuple", tuple(shape)), ("array", np.array(shape))]
    if same:
        forms += [("int", int(shape[0])), ("np.int64", np.int64(shape[0])), ("0d", np.array(shape[0])),
                  ("1el", np.array([shape[0]]))]
    if n == 1:
        forms = [f for f in forms if f[0] != "array"]
    return forms[q % len(forms)]


@unit(
    UNITS,
    quick=[dict(n=n, mat=m) for n in (1, 2, 3, 4, 5) for m in ("int", "real", "gauss")],
    thorough=[dict(n=n, mat=m) for n in (1, 2, 3, 4, 5, 6) for m in ("int", "real", "gauss")],
)
def hermite(ctx, n, mat):
    """hermite_multidimensional and hafnian_batched on every cutoff shape."""
    t = tw()
    side = (SIDE_T if ctx.thorough else SIDE)[n]
    box = (side,) * n
    sf = sqrtfact(box)
    q = 0
    for k in (0, 1):
        A = {"int": al.sym_int, "real": al.sym_real, "gauss": al.sym_gauss}[mat](n, k)
        ys = [("none", None), ("int", al.vec_int(n, k, -2, 3)), ("real", al.vec_int(n, k + 3, -4, 4) / 3.0),
              ("gauss", al.vec_gauss(n, k))]
        if k == 1:
            ys.append(("unit", np.eye(n)[n - 1]))
        for yn, y in ys:
            for modified in (True, False):
                yv = np.zeros(n) if y is None else y
                mu = yv if modified else A @ yv
                H, trans = orc.lhaf_lattice(-A, mu, box)
                Habs, _ = orc.lhaf_lattice(np.abs(A), np.abs(mu), box)
                Habs = np.abs(Habs) + 1e-12
                ctx.count(states=H.size, transitions=trans)
                for shape in itertools.product(range(1, side + 1), repeat=n):
                    sl = tuple(slice(0, s) for s in shape)
                    for renorm, C, flat in itertools.product((False, True), (1, 2.5, 1 - 2j, 3), (False, True)):
                        if n >= 4 and flat and C in (2.5, 3) and not ctx.thorough:
                            continue
                        cn, cut = cutoff_forms(shape, q)
                        q += 1
                        want = C * H[sl] / (sf[sl] if renorm else 1)
                        sc = abs(C) * Habs[sl] / (sf[sl] if renorm else 1)
                        if flat:
                            want, sc = want.reshape(-1), sc.reshape(-1)
                        ctx.eq((n, mat, k, yn, modified, shape, renorm, C, flat, cn),
                               lambda: t.hermite_multidimensional(A, cut, y=y, C=C, renorm=renorm, make_tensor=not flat,
                                                                  modified=modified),
                               want, scale=sc, tol=1e-8, data=(A, y))
                        ctx.count(traces=1)
                        if modified and C == 1:
                            ctx.eq((n, mat, k, yn, shape, renorm, flat, cn, "hafnian_batched"),
                                   lambda: t.hafnian_batched(-A, cut, mu=y, renorm=renorm, make_tensor=not flat),
                                   want, scale=sc, tol=1e-8, data=(A, y))
                            ctx.count(traces=1)


@unit(UNITS)
def single_mode_long(ctx):
    """One-mode tensors at every cutoff from 1 to 60 and long ones (260, 1010, 1300), renormalised."""
    t = tw()
    for name, R, y in (("herm", 1.0, 0.7), ("neg", -0.6, 0.4), ("cplx", 0.3 + 0.4j, 0.5 - 0.2j), ("noloop", -0.9, 0.0)):
        L = 1301
        H = np.zeros(L, dtype=complex)
        B = np.zeros(L)
        H[0] = B[0] = 1
        H[1], B[1] = y, abs(y)
        for k in range(2, L):
            H[k] = (y * H[k - 1] - math.sqrt(k - 1) * R * H[k - 2]) / math.sqrt(k)
            B[k] = (abs(y) * B[k - 1] + math.sqrt(k - 1) * abs(R) * B[k - 2]) / math.sqrt(k)
        Rm, yv = np.array([[R]]), np.array([y])
        ctx.count(states=L, transitions=2 * L)
        for c in list(range(1, 61)) + [260, 1000, 1001, 1010, 1300]:
            ctx.eq(("long", name, c), lambda: t.hermite_multidimensional(Rm, c, y=yv, renorm=True, modified=True),
                   H[:c], scale=B[:c] + 1e-250, tol=1e-8)
            ctx.count(traces=1)


def unitaries(m):
    out = [("ident", np.eye(m)), ("cyc-int", np.roll(np.eye(m, dtype=np.int64), 1, axis=0))]
    w = np.exp(2j * np.pi / m)
    out.append(("dft", np.array([[w ** (i * j) for j in range(m)] for i in range(m)]) / math.sqrt(m)))
    q, _ = np.linalg.qr(al.mat_gauss(m, m, 3) + 0.5 * np.eye(m))
    out.append(("qr", q))
    q, _ = np.linalg.qr(al.mat_int(m, m, 5) + 0.25 * np.eye(m))
    out.append(("real", q))
    return out


@unit(UNITS, quick=[dict(m=1), dict(m=2), dict(m=3)])
def interferometers(ctx, m):
    """interferometer(R): every cutoff, all flags, against the expansion of products of creation operators."""
    t = tw()
    side = {1: 6, 2: 5, 3: 3}[m]
    for name, U in unitaries(m):
        O = np.zeros((m, m), dtype=U.dtype)
        R = -np.block([[O, U], [U.T, O]])
        box = (side,) * (2 * m)
        # normalised <k|U|n> amplitudes from the polynomial expansion
        T = np.zeros(box, dtype=complex)
        st = tr = 0
        for n_in in itertools.product(range(side), repeat=m):
            amps, a, b = orc.fock_evolve(U, n_in)
            st, tr = st + a, tr + b
            for k, v in amps.items():
                if max(k) < side:
                    T[k + n_in] = v
        ctx.count(states=st, transitions=tr)
        sf = sqrtfact(box)
        for c in range(1, side + 1):
            sl = (slice(0, c),) * (2 * m)
            for renorm in (True, False):
                for flat in (False, True):
                    for C in (1, 2 - 1j):
                        cuts = [("int", c), ("list", [c] * (2 * m)), ("0d", np.array(c))]
                        cn, cut = cuts[(c + flat) % 3]
                        want = C * T[sl] * (1 if renorm else sf[sl])
                        ctx.eq((m, name, c, renorm, flat, C, cn),
                               lambda: t.interferometer(R, cut, C=C, renorm=renorm, make_tensor=not flat),
                               want.reshape(-1) if flat else want, tol=1e-8, data=R)
                        ctx.count(traces=1)
        for shape in ((1, 2) * m, (2, 1) * m, (3, 2) * m)[: 3 if m < 3 else 2]:
            sl = tuple(slice(0, s) for s in shape)
            ctx.eq((m, name, shape), lambda: t.interferometer(R, list(shape)), T[sl], tol=1e-8, data=R)
            ctx.count(traces=1)


@unit(UNITS, quick=[dict(n=1), dict(n=2), dict(n=3)])
def scales(ctx, n):
    """Small, large and mixed magnitudes of matrix and vector; no absolute threshold is allowed to show."""
    t = tw()
    side = {1: 7, 2: 4, 3: 3}[n]
    box = (side,) * n
    sf = sqrtfact(box)
    mats = [("int", al.sym_int(n, 1).astype(float)), ("gauss", al.sym_gauss(n, 0)),
            ("mixed", al.sym_real(n, 0) * np.outer(10.0 ** -np.arange(n), 10.0 ** -np.arange(n)))]
    base = al.vec_int(n, 3, 1, 4) / 3.0
    vecs = [("real", base), ("imag", 1j * base), ("first-imag", base + 0j), ("gauss", al.vec_gauss(n, 1))]
    vecs[2][1][0] *= 1j
    for mn, A0 in mats:
        for s in (1e-12, 1e-8, 1e-4, 1.0, 1e6):
            for cx in (False, True):
                A = A0 * s * (1j if cx else 1)
                for vn, y0 in vecs:
                    for r in (1e-12, 1e-7, 1e-3, 1.0, 1e5):
                        y = y0 * r
                        for modified in (True, False):
                            mu = y if modified else A @ y
                            # imaginary parts at the level of rounding noise (2e-14) are dropped by design
                            if any(0 < np.max(np.abs(np.imag(z))) < 1e-12 for z in (A, mu)):
                                continue
                            H, trans = orc.lhaf_lattice(-A, mu, box)
                            Habs, _ = orc.lhaf_lattice(np.abs(A), np.abs(mu), box)
                            ctx.count(states=H.size, transitions=trans)
                            for renorm in (False, True):
                                d = sf if renorm else 1
                                ctx.eq((n, mn, s, cx, vn, r, modified, renorm),
                                       lambda: t.hermite_multidimensional(A, side, y=y, renorm=renorm,
                                                                          modified=modified),
                                       H / d, scale=np.abs(Habs) / d + 1e-280, tol=1e-8, data=(A, y))
                                if modified:
                                    ctx.eq((n, mn, s, cx, vn, r, renorm, "hafnian_batched"),
                                           lambda: t.hafnian_batched(-A, side, mu=y, renorm=renorm),
                                           H / d, scale=np.abs(Habs) / d + 1e-280, tol=1e-8, data=(A, y))
                                ctx.count(traces=1)


def patterns(n):
    """Matrices with vanishing, repeated and isolated entries."""
    E = np.zeros((n, n))
    yield "zero", E
    yield "ident", np.eye(n)
    yield "ones", np.ones((n, n)) * 0.5
    for i in range(n):
        for j in range(i, n):
            M = E.copy()
            M[i, j] = M[j, i] = -0.7
            yield "one%d%d" % (i, j), M
    yield "anti", np.eye(n)[::-1] * 0.6
    X = al.sym_real(n, 2)
    for i in range(n):
        M = X.copy()
        M[i, :] = M[:, i] = 0
        yield "hole%d" % i, M
        M = X * (0.8 if i % 2 else 0.8j)
        M[i, i] = 0
        yield "noloop%d" % i, M
    yield "nodiag", X - np.diag(np.diag(X))


@unit(UNITS, quick=[dict(n=n) for n in (1, 2, 3, 4, 6, 9, 12)])
def layouts(ctx, n):
    """Matrices and vectors in every memory layout, with vanishing entries, on few and on many modes."""
    t = tw()
    shapes = {1: [(7,)], 2: [(4, 5), (5, 2)], 3: [(3, 3, 3), (4, 1, 3)], 4: [(2, 3, 2, 3), (3, 3, 1, 2)]}.get(
        n, [(2,) * n, (1,) * (n - 3) + (3, 2, 3), (3, 2) + (1,) * (n - 4) + (2, 3)])
    vecs = [("none", None), ("neg", -0.3 - 0.1 * np.arange(n)), ("first", 0.8 * np.eye(n)[0]), ("last", -0.8j * np.eye(n)[n - 1]),
            ("cancel", np.array([0.5 * (-1) ** i for i in range(n - n % 2)] + [0.0] * (n % 2)))]
    q = 0
    for name, A in patterns(n):
        for yn, y in vecs if n < 5 else vecs[:: 2 + len(name) % 2]:
            yv = np.zeros(n) if y is None else y
            for modified in (True, False):
                mu = yv if modified else A @ yv
                for box in shapes:
                    q += 1
                    if n > 4 and (q % 2 or (n > 9 and q % 4)):
                        continue
                    H, trans = orc.lhaf_lattice(-A, mu, box)
                    Habs, _ = orc.lhaf_lattice(np.abs(A), np.abs(mu), box)
                    sf = sqrtfact(box)
                    for lay in al.LAYOUTS if n < 5 else al.LAYOUTS[q // 2 % 2 :: 2]:
                        B, v = al.layout(A, lay), None if y is None else al.layout(y, lay)
                        for renorm in (False, True):
                            s = sf if renorm else 1
                            ctx.eq((n, name, yn, modified, box, lay, renorm),
                                   lambda: t.hermite_multidimensional(B, list(box), y=v, renorm=renorm, modified=modified),
                                   H / s, scale=(np.abs(Habs) + 1e-12) / s, tol=1e-8, data=(A, y))
                            if modified:
                                ctx.eq((n, name, yn, box, lay, renorm, "batched"),
                                       lambda: t.hafnian_batched(-B, list(box), mu=v, renorm=renorm),
                                       H / s, scale=(np.abs(Habs) + 1e-12) / s, tol=1e-8, data=(A, y))
                        ctx.count(traces=2)
                    ctx.count(states=H.size, transitions=trans)
