"""C04: gradients of Hermite tensors and Fock-basis gates."""
import itertools
import math

import numpy as np

from mc import alphabet as al
from mc import gauss as g
from mc import oracles as orc
from mc.core import unit

PROPERTY = "C04"
LEVEL = "model_checking"
RULE = (
    "states are tensor indices, transitions the lowering steps of the derivative of the generating function; every "
    "gradient entry below the cutoff is compared for every matrix, vector, parameter point and option (one trace per call)"
)
ASSUMPTIONS = [
    "gate derivatives are taken by an eighth-order central difference of exact closed forms (error below 1e-10)",
    "the gradient with respect to a symmetric R is only defined up to how the two equal entries share it: their sum is compared",
]
UNITS = []
PAR = [(0.0, 0.0), (0.3, 0.0), (0.3, 0.7), (-0.4, 0.0), (0.5, math.pi / 2), (0.2, math.pi), (0.45, -2.1), (0.6, 7.0), (0.0, 1.3),
       (math.pi / 2, 0.3), (math.pi, 0.0), (1.1, 4.0)]


def fd(f, x, h=0.02):
    c = (4 / 5, -1 / 5, 4 / 105, -1 / 280)
    return sum(a * (f(x + (k + 1) * h) - f(x - (k + 1) * h)) for k, a in enumerate(c)) / h


def gates():
    import thewalrus.fock_gradients as fg

    D = lambda r, phi, c: g.exact_displacement(r * np.exp(1j * phi), c)
    BS = lambda t, p, c: passive(g.bs_unitary(t, p), c)
    MZ = lambda t, p, c: passive(g.mz_unitary(t, p), c)
    return {
        "displacement": (fg.displacement, fg.grad_displacement, D, 9),
        "squeezing": (fg.squeezing, fg.grad_squeezing, g.exact_squeezing, 9),
        "two_mode_squeezing": (fg.two_mode_squeezing, fg.grad_two_mode_squeezing, g.exact_two_mode_squeezing, 5),
        "beamsplitter": (fg.beamsplitter, fg.grad_beamsplitter, BS, 5),
        "mzgate": (fg.mzgate, fg.grad_mzgate, MZ, 5),
    }


def passive(U, c):
    W = np.zeros((c,) * 4, dtype=complex)
    for p in range(c):
        for q in range(c):
            for (m, n), v in orc.fock_evolve(U, (p, q))[0].items():
                if m < c and n < c:
                    W[m, n, p, q] = v
    return W


@unit(UNITS, quick=[dict(gate=k) for k in ("displacement", "squeezing", "two_mode_squeezing", "beamsplitter", "mzgate")])
def gate(ctx, gate):
    """Both parameter gradients of a gate for every cutoff and parameter point."""
    f, grad, ref, top = gates()[gate]
    if ctx.thorough:
        top += 2
    for a, b in PAR:
        full_a = fd(lambda x: ref(x, b, top), a)
        full_b = fd(lambda x: ref(a, x, top), b)
        full = ref(a, b, top)
        nd = full.ndim
        for c in range(1, top + 1):
            box = (slice(0, c),) * nd
            T = np.ascontiguousarray(full[box])
            ctx.count(states=2 * c ** nd, transitions=8 * c ** nd, traces=2)
            ctx.eq((gate, a, b, c), lambda: np.array(grad(f(a, b, c), a, b)), np.array([full_a[box], full_b[box]]), tol=1e-8)
            ctx.eq((gate, a, b, c, "exact T"), lambda: np.array(grad(T, a, b)), np.array([full_a[box], full_b[box]]), tol=1e-8)
    for a, b in PAR[2:7:2]:
        ctx.eq((gate, a, b, "complex64"), lambda: np.array(grad(f(a, b, 3, np.complex64), a, b)),
               np.array([fd(lambda x: ref(x, b, 3), a), fd(lambda x: ref(a, x, 3), b)]), tol=1e-4)


def cutoffs(n, thorough):
    out = {1: [(1,), (2,), (5,), (9,)], 2: [(1, 1), (2, 2), (4, 4), (2, 5), (5, 1), (1, 3)],
           3: [(2, 2, 2), (3, 3, 3), (1, 2, 4), (4, 2, 1)], 4: [(2, 2, 2, 2), (1, 3, 2, 2), (3, 3, 1, 2)]}[n]
    if thorough:
        out = out + {1: [(25,)], 2: [(7, 8)], 3: [(4, 5, 4)], 4: [(3, 3, 3, 3)]}[n]
    return out


@unit(UNITS, quick=[dict(n=n) for n in (1, 2, 3, 4)])
def hermite(ctx, n):
    """grad_hermite_multidimensional with respect to C, R and y for both normalizations."""
    from thewalrus import hermite_multidimensional, grad_hermite_multidimensional

    k = 0
    mats = [("real%d" % i, al.sym_real(n, i)) for i in range(3)] + [("cplx%d" % i, 0.5 * al.sym_gauss(n, i)) for i in range(3)]
    mats += [("zero", np.zeros((n, n))), ("ident", np.eye(n)), ("diagc", np.diag(al.vec_gauss(n, 2) * 0.5))]
    for mn, R in mats:
        for yn, y in (("zero", np.zeros(n)), ("real", al.vec_int(n, 1) * 0.5), ("cplx", al.vec_gauss(n, 3) * 0.4)):
            for C in (1, 0.5, -0.3 + 0.4j):
                for box in cutoffs(n, ctx.thorough):
                    k += 1
                    if n > 2 and C == 0.5:
                        continue
                    H, tr = orc.lhaf_lattice(-R, y, box)
                    B, _ = orc.lhaf_lattice(np.abs(R), np.abs(y), box)
                    for renorm in (True, False):
                        ctx.count(states=H.size, transitions=tr, traces=1)
                        N = np.ones(box)
                        if renorm:
                            for idx in np.ndindex(*box):
                                N[idx] = 1 / math.sqrt(orc.factorials(idx))
                        G = C * H * N
                        dC = H * N
                        dR = np.zeros(box + (n, n), dtype=complex)
                        dy = np.zeros(box + (n,), dtype=complex)
                        sR, sy = np.zeros(box + (n, n)), np.zeros(box + (n,))
                        for idx in np.ndindex(*box):
                            for i in range(n):
                                lo = list(idx)
                                lo[i] -= 1
                                if lo[i] < 0:
                                    continue
                                dy[idx + (i,)] = idx[i] * C * H[tuple(lo)] * N[idx]
                                sy[idx + (i,)] = idx[i] * abs(C) * B[tuple(lo)].real * N[idx]
                                for j in range(n):
                                    if lo[j] < 1:
                                        continue
                                    lo2 = list(lo)
                                    lo2[j] -= 1
                                    v = idx[i] * lo[j] * N[idx]
                                    dR[idx + (i, j)] = -v * C * H[tuple(lo2)]
                                    sR[idx + (i, j)] = v * abs(C) * B[tuple(lo2)].real

                        def run(what):
                            Gi = G if np.iscomplexobj(R) or np.iscomplexobj(y) or np.iscomplex(C) else G.real
                            if k % 2:
                                Gi = hermite_multidimensional(R, box, y=y, C=C, renorm=renorm, modified=True)
                            out = grad_hermite_multidimensional(Gi, R, y, C=C, renorm=renorm)
                            if what == 0:
                                return out[0]
                            if what == 2:
                                return out[2]
                            r = np.asarray(out[1])
                            # both orders of the same pair: d/dR_ij + d/dR_ji (twice the diagonal)
                            return r + np.swapaxes(r, -1, -2)

                        key = (n, mn, yn, C, box, renorm)
                        ctx.eq(key + ("C",), lambda: run(0), dC, scale=np.abs(B) * N + 1e-3, tol=1e-9)
                        ctx.eq(key + ("R",), lambda: run(1), dR, scale=sR + 1e-3, tol=1e-9)
                        ctx.eq(key + ("y",), lambda: run(2), dy, scale=sy + 1e-3, tol=1e-9)
    ctx.raises((n, "dims"), lambda: grad_hermite_multidimensional(np.ones((2,) * n), np.eye(n), np.ones(n + 1)), ValueError)


@unit(UNITS, quick=[dict(gate=k) for k in ("displacement", "squeezing", "two_mode_squeezing", "beamsplitter", "mzgate")])
def wide(ctx, gate):
    """Large cutoffs, strong parameters, other number types, and tensors in every memory layout."""
    f, grad, ref, top = gates()[gate]
    single = top > 5
    c = (40 if ctx.thorough else 30) if single else (10 if ctx.thorough else 8)
    for a, b in ((0.7, 0.4), (-0.9, 2.0), (1.3, -0.6)):
        full = ref(a, b, c)
        fa, fb = fd(lambda x: ref(x, b, c), a, 0.002), fd(lambda x: ref(a, x, c), b, 0.002)
        want = np.array([fa, fb])
        sc = np.maximum(1.0, np.abs(want))
        ctx.count(states=full.size, transitions=8 * full.size, traces=1)
        ctx.eq((gate, a, b, c), lambda: np.array(grad(f(a, b, c), a, b)), want, scale=sc, tol=1e-7)
        k = 6 if single else 4
        box = (slice(0, k),) * full.ndim
        for lay in al.LAYOUTS:
            T = al.layout(full[box], lay)
            ctx.eq((gate, a, b, k, lay), lambda: np.array(grad(T, a, b)), want[(slice(None),) + box], tol=1e-7)
            ctx.true((gate, a, b, k, lay, "kept"), lambda: bool(np.array_equal(T, full[box])))
        view = full[box]
        ctx.eq((gate, a, b, k, "view"), lambda: np.array(grad(view, a, b)), want[(slice(None),) + box], tol=1e-7)
    for a, b in ((1, 2), (2, 0), (0, 1), (-1, -2)):
        want = np.array([fd(lambda x: ref(x, b, 4), a), fd(lambda x: ref(a, x, 4), b)])
        for kind in (int, float, np.float64, np.float32, np.int64):
            ctx.eq((gate, a, b, kind.__name__), lambda: np.array(grad(f(kind(a), kind(b), 4), kind(a), kind(b))), want,
                   scale=np.maximum(1.0, np.abs(want)), tol=1e-5 if kind is np.float32 else 1e-7)


@unit(UNITS, quick=[dict(n=n) for n in (1, 2, 5, 6, 7)])
def hermite_wide(ctx, n):
    """grad_hermite_multidimensional on long tensors, on many modes and in every memory layout."""
    from thewalrus import hermite_multidimensional, grad_hermite_multidimensional

    boxes = {1: [(30,)], 2: [(9, 8), (1, 12)]}.get(n, [(2,) * n, (1,) * (n - 3) + (3, 1, 2)])
    for q, (R, y) in enumerate(((al.sym_real(n, 1) * 0.5, al.vec_int(n, 2) * 0.25), (al.sym_gauss(n, 2) * 0.25, al.vec_gauss(n, 1) * 0.3))):
        for box in boxes:
            H, tr = orc.lhaf_lattice(-R, y, box)
            B, _ = orc.lhaf_lattice(np.abs(R), np.abs(y), box)
            N = np.ones(box)
            for idx in np.ndindex(*box):
                N[idx] = 1 / math.sqrt(orc.factorials(idx))
            dR, dy = np.zeros(box + (n, n), dtype=complex), np.zeros(box + (n,), dtype=complex)
            sR, sy = np.zeros(box + (n, n)), np.zeros(box + (n,))
            for idx in np.ndindex(*box):
                for i in range(n):
                    if idx[i] < 1:
                        continue
                    lo = list(idx)
                    lo[i] -= 1
                    dy[idx + (i,)] = idx[i] * H[tuple(lo)] * N[idx]
                    sy[idx + (i,)] = idx[i] * B[tuple(lo)].real * N[idx]
                    for j in range(n):
                        if lo[j] < 1:
                            continue
                        lo2 = list(lo)
                        lo2[j] -= 1
                        v = idx[i] * lo[j] * N[idx]
                        dR[idx + (i, j)] = -v * H[tuple(lo2)]
                        sR[idx + (i, j)] = v * B[tuple(lo2)].real
            G = H * N if q else (H * N).real
            for lay in al.LAYOUTS:
                got = {}

                def run(k):
                    if not got:
                        got["r"] = grad_hermite_multidimensional(al.layout(G, lay), al.layout(R, lay), al.layout(y, lay), renorm=True)
                    r = np.asarray(got["r"][k])
                    return r + np.swapaxes(r, -1, -2) if k == 1 else r

                ctx.eq((n, q, box, lay, "C"), lambda: run(0), H * N, scale=np.abs(B) * N + 1e-6, tol=1e-9)
                ctx.eq((n, q, box, lay, "R"), lambda: run(1), dR, scale=sR + 1e-6, tol=1e-9)
                ctx.eq((n, q, box, lay, "y"), lambda: run(2), dy, scale=sy + 1e-6, tol=1e-9)
                ctx.count(states=H.size, transitions=tr, traces=1)
