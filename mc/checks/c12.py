"""C12: gate programs in phase space and in Fock space."""
import itertools
import math

import numpy as np

from mc import alphabet as al
from mc import gauss as g
from mc.core import unit

PROPERTY = "C12"
LEVEL = "model_checking"
RULE = (
    "states are the distinct (rounded) quantum states reached by gate programs, transitions gate applications; the "
    "reference applies exact Fock-space operators to a truncated state vector or density matrix, and every explored "
    "program is replayed through the symplectic API and converted to the Fock basis (one trace per program)"
)
ASSUMPTIONS = [
    "programs start in vacuum; the reference truncation at 22-34 photons per mode is far above the compared block",
    "global phases of state vectors and of generic Gaussian unitaries are not observable and not compared",
]
UNITS = []
PAR = [(0.0, 0.0), (0.3, 0.0), (0.3, 0.7), (-0.4, 0.0), (0.5, math.pi / 2), (0.2, math.pi), (0.45, -2.1), (0.6, 7.0), (1, 0), (0, 2)]


@unit(UNITS, quick=[dict(kind=k) for k in ("one", "two", "mz")])
def fock_gates(ctx, kind):
    """The Fock-space gates for every cutoff and parameter pair against their normal-ordered closed forms."""
    import thewalrus.fock_gradients as fg

    top1, top2 = (14, 7) if ctx.thorough else (10, 5)
    for r, phi in PAR:
        if kind == "one":
            for c in range(1, top1 + 1):
                ctx.eq(("D", r, phi, c), lambda: fg.displacement(r, phi, c), g.exact_displacement(r * np.exp(1j * phi), c), tol=1e-10)
                ctx.eq(("S", r, phi, c), lambda: fg.squeezing(r, phi, c), g.exact_squeezing(r, phi, c), tol=1e-10)
                ctx.count(states=2 * c * c, transitions=4 * c * c, traces=2)
        for c in range(1, top2 + 1):
            ctx.count(states=c ** 4, transitions=2 * c ** 4, traces=1)
            if kind == "two":
                ctx.eq(("TMS", r, phi, c), lambda: fg.two_mode_squeezing(r, phi, c), g.exact_two_mode_squeezing(r, phi, c), tol=1e-10)
                ctx.eq(("BS", r, phi, c), lambda: fg.beamsplitter(r, phi, c), g.fock_passive2(g.bs_unitary(r, phi), c), tol=1e-10)
            elif kind == "mz":
                ctx.eq(("MZ", r, phi, c), lambda: fg.mzgate(r, phi, c), g.fock_passive2(g.mz_unitary(r, phi), c), tol=1e-10)
    if kind == "one":
        for r, phi in ((0.3, 0.7), (-0.6, 0.2)):
            ctx.eq(("D64", r), lambda: fg.displacement(r, phi, 6, np.complex64), g.exact_displacement(r * np.exp(1j * phi), 6), tol=1e-5)
            ctx.eq(("S64", r), lambda: fg.squeezing(r, phi, 6, np.complex64), g.exact_squeezing(r, phi, 6), tol=1e-5)
    for r in (1.7, 2.5):
        if kind == "one":
            ctx.eq(("Dbig", r), lambda: fg.displacement(r, 0.4, 30), g.exact_displacement(r * np.exp(0.4j), 30), tol=1e-7)
            ctx.eq(("Sbig", r), lambda: fg.squeezing(r, 0.4, 20), g.exact_squeezing(r, 0.4, 20), tol=1e-7)


def nophase(got, want):
    got = np.asarray(got)
    ov = np.vdot(got, want)
    return got * (ov / abs(ov)) if abs(ov) > 1e-12 else got


@unit(UNITS, quick=[dict(l=1), dict(l=2), dict(l=3)])
def tensor(ctx, l):
    """fock_tensor of every gate in the alphabet, each cutoff, index order and Choi parameter."""
    from thewalrus import symplectic as sy
    from thewalrus.quantum import fock_tensor

    gates = []  # (name, S, alpha, reference(c) as [outs, ins], exact phase)
    for r, phi in PAR:
        if l == 1:
            al_ = r * np.exp(1j * phi)
            gates.append((("D", r, phi), np.eye(2), np.array([al_]), lambda c, a=al_: g.exact_displacement(a, c)))
            gates.append((("S", r, phi), sy.squeezing(r, phi), np.zeros(1), lambda c, r=r, phi=phi: g.exact_squeezing(r, phi, c)))
            gates.append((("R", phi), sy.rotation(phi), np.zeros(1), lambda c, phi=phi: g.fock_rotation(phi, c)))
            gates.append((("DS", r, phi), sy.squeezing(r, phi), np.array([0.3 - 0.2j]),
                          lambda c, r=r, phi=phi: (g.exact_displacement(0.3 - 0.2j, 70) @ g.exact_squeezing(r, phi, 70))[:c, :c]))
        if l == 2:
            gates.append((("TMS", r, phi), sy.two_mode_squeezing(r, phi), np.zeros(2), lambda c, r=r, phi=phi: g.exact_two_mode_squeezing(r, phi, c)))
            gates.append((("BS", r, phi), sy.beam_splitter(r, phi), np.zeros(2), lambda c, r=r, phi=phi: g.fock_passive2(g.bs_unitary(r, phi), c)))
            gates.append((("SxR", r, phi), sy.expand(sy.squeezing(r, phi), 1, 2) @ sy.expand(sy.rotation(phi), 0, 2), np.zeros(2),
                          lambda c, r=r, phi=phi: np.einsum("ab,cd->acbd", g.fock_rotation(phi, c), g.exact_squeezing(r, phi, c))))
    if l == 2:
        for k in range(3):
            U1, U2 = g.unitary(2, 3 * k + 2), g.unitary(2, 3 * k + 4)
            rs = [0.3, -0.2 - 0.1 * k]

            def ref(c, U1=U1, U2=U2, rs=rs):
                T = 2 * c
                sq = np.einsum("ab,cd->acbd", g.exact_squeezing(rs[0], 0, T), g.exact_squeezing(rs[1], 0, T))
                A = np.einsum("mnab,abcd->mncd", g.fock_passive2(U1, T)[:c, :c], sq)
                return np.einsum("mncd,cdpq->mnpq", A, g.fock_passive2(U2, T)[:, :, :c, :c])

            gates.append((("euler", k), g.passive(U1) @ g.sq(rs) @ g.passive(U2), np.zeros(2), ref))
        a = np.array([0.3 + 0.1j, -0.2j])
        gates.append((("DD",), np.eye(4), a, lambda c: np.einsum("ab,cd->acbd", g.exact_displacement(a[0], c), g.exact_displacement(a[1], c))))
        gates.append((("DBS",), sy.beam_splitter(0.4, 0.9), a, lambda c: np.einsum(
            "ma,nb,abpq->mnpq", g.exact_displacement(a[0], 2 * c), g.exact_displacement(a[1], 2 * c), g.fock_passive2(g.bs_unitary(0.4, 0.9), 2 * c))[:c, :c, :c, :c]))
        # pairs of displacements, including ones whose sum, real or imaginary parts cancel
        vals = (0, 0.3, -0.3, 0.3j, -0.3j)
        for b in itertools.product(vals, repeat=2):
            b = np.array(b, dtype=complex)
            for nm, S, W2 in (("I", np.eye(4), None), ("bs", sy.beam_splitter(0.4, 0.9), g.bs_unitary(0.4, 0.9)), ("swap", g.passive(np.eye(2)[::-1]), np.eye(2)[::-1])):
                def ref(c, a=b, W2=W2):
                    if W2 is None:
                        return np.einsum("ab,cd->acbd", g.exact_displacement(a[0], c), g.exact_displacement(a[1], c))
                    return np.einsum("ma,nb,abpq->mnpq", g.exact_displacement(a[0], 2 * c)[:c], g.exact_displacement(a[1], 2 * c)[:c],
                                     g.fock_passive2(W2, 2 * c)[:, :, :c, :c])

                gates.append((("pair", nm, tuple(b)), S, b, ref))
    if l == 3:
        for a in itertools.product((0, 0.4, -0.4), repeat=3):
            gates.append((("triple", a), np.eye(6), np.array(a, dtype=float), lambda c, a=a: np.einsum(
                "ab,cd,ef->acebdf", *[g.exact_displacement(x, c) for x in a])))
        U = np.eye(3, dtype=complex)
        U[np.ix_([0, 2], [0, 2])] = g.bs_unitary(0.5, 0.8)
        gates.append((("BS02",), sy.expand(sy.beam_splitter(0.5, 0.8), [0, 2], 3), np.zeros(3),
                      lambda c: np.einsum("mnpq,ab->manpbq", g.fock_passive2(g.bs_unitary(0.5, 0.8), c), np.eye(c))))
        gates.append((("TMS20S1",), sy.expand(sy.two_mode_squeezing(0.4, 0.7), [2, 0], 3) @ sy.expand(sy.squeezing(0.3, 0.2), 1, 3), np.zeros(3),
                      lambda c: np.einsum("mnpq,ab->namqbp", g.exact_two_mode_squeezing(0.4, 0.7, c), g.exact_squeezing(0.3, 0.2, c))))
    for name, S, alpha, ref in gates:
        exactphase = name[0] in ("D", "S", "R", "TMS", "BS", "SxR", "DD", "BS02", "TMS20S1")
        for c in range(1, {1: 8, 2: 5, 3: 3}[l]) if name[0] not in ("pair", "triple") else (2, 3)[: 3 if l < 3 else 1]:
            W = ref(c)
            fix = (lambda x, W=W: x) if exactphase else (lambda x, W=W: nophase(x, W))
            ctx.count(states=W.size, transitions=W.size, traces=3)
            ctx.eq(name + (c,), lambda: fix(fock_tensor(S, alpha, c)), W, tol=1e-8, data=(S, alpha))
            order = [x for i in range(l) for x in (i, i + l)]
            inv = np.argsort(order)
            ctx.eq(name + (c, "sf"), lambda: fix(np.transpose(fock_tensor(S, alpha, c, sf_order=True), inv)), W, tol=1e-8)
            ctx.eq(name + (c, "opt"), lambda: fix(fock_tensor(S, list(alpha), c, check_symplectic=False, choi_r=0.6)), W, tol=1e-8)
    bad = np.eye(2 * l)
    bad[0, 0] = 1.2
    ctx.raises((l, "nonsymplectic"), lambda: fock_tensor(bad, np.zeros(l), 2), ValueError)
    ctx.raises((l, "lengths"), lambda: fock_tensor(np.eye(2 * l), np.zeros(l + 1), 2), ValueError)


def alphabet(n, thorough=False):
    """(name, phase-space action(mu, cov, hb), Fock action on a state vector, Kraus mode or None)."""
    from thewalrus import symplectic as sy

    def uni(S):
        return lambda mu, cov, hb: (S @ mu, S @ cov @ S.T)

    out = []
    for m in range(n):
        for a in (0.3, 0.25j) + ((-0.2 + 0.2j,) if m else ()):
            def act(mu, cov, hb, a=a, m=m):
                return mu + sy.expand_vector(complex(a), m, n, hbar=hb), cov
            out.append((("D", m, a), act, lambda psi, D, a=a, m=m: g.apply1(psi, g.fock_displacement(a, D), m)))
        for r, phi in ((0.3, 0.0), (0.25, 0.9)):
            out.append((("S", m, r, phi), uni(sy.expand(sy.squeezing(r, phi), m, n)),
                        lambda psi, D, r=r, phi=phi, m=m: g.apply1(psi, g.fock_squeezing(r, phi, D), m)))
        out.append((("R", m), uni(sy.expand(sy.rotation(0.6), [m], n)), lambda psi, D, m=m: g.apply1(psi, g.fock_rotation(0.6, D), m)))
    for i, j in itertools.permutations(range(n), 2):
        for th, phi in ((0.5, 0.0), (0.7, 1.1)):
            out.append((("BS", i, j, th, phi), uni(sy.expand(sy.beam_splitter(th, phi), [i, j], n)),
                        lambda psi, D, i=i, j=j, th=th, phi=phi: g.apply2(psi, g.fock_passive2(g.bs_unitary(th, phi), D), i, j)))
        out.append((("TMS", i, j), uni(sy.expand(sy.two_mode_squeezing(0.3, 0.8), [i, j], n)),
                    lambda psi, D, i=i, j=j: g.apply2(psi, tms(0.3, 0.8, D), i, j)))
    return out


_tms = {}


def tms(r, t, D):
    if (r, t, D) not in _tms:
        _tms[r, t, D] = g.exact_two_mode_squeezing(r, t, D)
    return _tms[r, t, D]


@unit(UNITS, quick=[dict(n=1, depth=4), dict(n=2, depth=2)], thorough=[dict(n=1, depth=5), dict(n=2, depth=3)], timeout=900)
def programs(ctx, n, depth):
    """Breadth-first over unitary gate programs."""
    from thewalrus.quantum import state_vector, density_matrix, probabilities

    D = {1: 36, 2: 16}[n]
    B = {1: 6, 2: 4}[n]
    A = alphabet(n)
    start = np.zeros((D,) * n, dtype=complex)
    start[(0,) * n] = 1
    HB = (2, 1, 0.5, 1.7)
    frontier = [((), start)]
    seen = {state_key(start, B)}
    count = 0
    for d in range(1, depth + 1):
        new = []
        for prog, psi in frontier:
            for a, (name, _, fock) in enumerate(A):
                phi = fock(psi, D)
                ctx.count(transitions=1)
                key = state_key(phi, B)
                if key in seen:
                    continue
                seen.add(key)
                ctx.count(states=1)
                p = prog + (a,)
                new.append((p, phi))
                hb = HB[count % 4]
                count += 1

                def run(p=p, hb=hb):
                    mu, cov = np.zeros(2 * n), np.eye(2 * n) * hb / 2
                    for x in p:
                        mu, cov = A[x][1](mu, cov, hb)
                    return mu, cov

                want = phi[(slice(0, B),) * n]
                names = [A[x][0] for x in p]
                ctx.eq((n, hb, names), lambda: nophase(state_vector(*run(), cutoff=B, hbar=hb), want), want, tol=1e-6)
                ctx.count(traces=1)
                if count % 7 == 0:
                    P = np.abs(phi[(slice(0, 3),) * n]) ** 2
                    ctx.eq((n, hb, names, "p"), lambda: probabilities(*run(), 3, hbar=hb), P, tol=1e-6)
                    rho = np.multiply.outer(want, want.conj())
                    rho = rho.transpose([x for i in range(n) for x in (i, i + n)])
                    ctx.eq((n, hb, names, "dm"), lambda: density_matrix(*run(), cutoff=B, hbar=hb), rho, tol=1e-6)
        # the last level is explored from a representative subset only when the frontier is large
        frontier = new


def state_key(psi, B):
    v = psi[(slice(0, B),) * psi.ndim].ravel()
    if abs(v[0]) > 1e-9:
        v = v * (abs(v[0]) / v[0])
    return np.round(np.concatenate([v.real, v.imag]), 6).tobytes()


@unit(UNITS, quick=[dict(n=1, depth=3), dict(n=2, depth=2)], thorough=[dict(n=1, depth=4), dict(n=2, depth=2)], timeout=900)
def channels(ctx, n, depth):
    """Programs of gates followed by and interleaved with losses, against Kraus operators on density matrices."""
    from thewalrus import symplectic as sy
    from thewalrus.quantum import density_matrix

    D = {1: 26, 2: 9}[n]
    B = {1: 5, 2: 3}[n]
    base = alphabet(n)
    if n == 2:
        # the density matrix of two modes is large: one gate of each kind
        base = [b for b in base if b[0][0] in ("D", "S") and b[0][1] == 0 and b[0][2] in (0.25j, 0.25)] + [b for b in base if b[0][0] == "BS" and b[0][1] == 1][:1]
    A = []
    for name, act, fock in base:
        def dm(rho, fock=fock):
            # act on kets, then on bras by conjugation
            sh = rho.shape
            out = np.stack([fock(rho.reshape((D,) * n + (-1,))[..., c], D) for c in range(D ** n)], axis=-1).reshape(sh)
            out = out.reshape(D ** n, D ** n).conj().T.reshape(sh)
            out = np.stack([fock(out.reshape((D,) * n + (-1,))[..., c], D) for c in range(D ** n)], axis=-1).reshape(sh)
            return out.reshape(D ** n, D ** n).conj().T.reshape(sh)

        A.append((name, act, dm))
    for m in range(n):
        for T in (0.7, 0.0, 1.0) if n == 1 else (0.6,):
            def dm(rho, m=m, T=T):
                out = np.zeros_like(rho)
                for K in g.fock_loss_kraus(T, D):
                    out += g.apply1(g.apply1(rho, K, m), K.conj(), m + n)
                return out

            A.append((("L", m, T), lambda mu, cov, hb, m=m, T=T: sy.loss(mu, cov, T, m, hbar=hb), dm))
            if n == 1 or m:
                def pact(mu, cov, hb, m=m, T=T):
                    t = np.ones(n)
                    t[m] = math.sqrt(T)
                    return sy.passive_transformation(mu, cov, np.diag(t).astype(complex), hbar=hb)

                A.append((("P", m, T), pact, dm))
    HB = (2, 1, 0.5, 1.7)
    rho0 = np.zeros((D,) * (2 * n), dtype=complex)
    rho0[(0,) * (2 * n)] = 1
    frontier = [((), rho0)]
    count = 0
    for d in range(depth):
        new = []
        for prog, rho in frontier:
            for a in range(len(A)):
                if prog and A[a][0][0] in ("L", "P") and A[prog[-1]][0][0] in ("L", "P") and n == 2:
                    continue
                if not prog and A[a][0][0] in ("L", "P", "BS"):
                    continue
                r = A[a][2](rho)
                p = prog + (a,)
                ctx.count(states=1, transitions=1, traces=1)
                if d + 1 < depth:
                    new.append((p, r))
                hb = HB[count % 4]
                count += 1

                def run(p=p, hb=hb):
                    mu, cov = np.zeros(2 * n), np.eye(2 * n) * hb / 2
                    for x in p:
                        mu, cov = A[x][1](mu, cov, hb)
                    return mu, cov

                want = r[(slice(0, B),) * (2 * n)].transpose([x for i in range(n) for x in (i, i + n)])
                ctx.eq((n, hb, [A[x][0] for x in p]), lambda: density_matrix(*run(), cutoff=B, hbar=hb), want, tol=1e-5)
        frontier = new


LAYOUTS = {
    4: [
        (("TMS", (0, 3), 0.4, 0.7), ("BS", (2, 1), 0.5, 0.9)),
        (("S", (2,), 0.5, 0.3), ("TMS", (3, 1), -0.3, 2.0), ("R", (0,), 0.8, 0)),
        (("S", (0,), 0.3, 0.1), ("S", (1,), -0.4, 1.0), ("D", (2,), 0.3, 0.5), ("DS", (3,), 0.2, 0.4)),
        (("BS", (3, 0), 0.4, 0.2), ("BS", (1, 2), -0.7, 1.1)),
        (("D", (3,), 0.4, 0.5), ("BS", (0, 2), 0.4, 0.2), ("R", (1,), -0.3, 0)),
    ],
    5: [
        (("TMS", (4, 0), 0.3, 0.2), ("BS", (1, 3), 0.5, 0.9), ("S", (2,), 0.4, -0.3)),
        (("BS", (4, 2), 0.3, 0.2), ("BS", (0, 3), 0.5, 0.9), ("R", (1,), 0.4, 0)),
        (("DS", (4,), 0.3, 0.2), ("TMS", (1, 2), 0.5, 0.9), ("D", (0,), 0.4, 0.6), ("R", (3,), 0.5, 0)),
    ],
    6: [
        (("TMS", (4, 0), 0.3, 0.2), ("BS", (1, 5), 0.5, 0.9), ("TMS", (2, 3), 0.4, -0.3)),
        (("BS", (4, 2), 0.3, 0.2), ("BS", (0, 3), 0.5, 0.9), ("BS", (5, 1), 0.4, 0)),
    ],
}


def local(kind, r, phi, c):
    """(symplectic matrix, displacements, exact tensor with outs first) of one gate."""
    from thewalrus import symplectic as sy

    if kind == "D":
        return np.eye(2), [r * np.exp(1j * phi)], g.exact_displacement(r * np.exp(1j * phi), c)
    if kind == "S":
        return sy.squeezing(r, phi), [0], g.exact_squeezing(r, phi, c)
    if kind == "DS":
        return sy.squeezing(r, phi), [0.3 - 0.2j], (g.exact_displacement(0.3 - 0.2j, 70) @ g.exact_squeezing(r, phi, 70))[:c, :c]
    if kind == "R":
        return sy.rotation(r), [0], g.fock_rotation(r, c)
    if kind == "TMS":
        return sy.two_mode_squeezing(r, phi), [0, 0], g.exact_two_mode_squeezing(r, phi, c)
    return sy.beam_splitter(r, phi), [0, 0], g.fock_passive2(g.bs_unitary(r, phi), c)


@unit(UNITS, quick=[dict(l=4), dict(l=5), dict(l=6)])
def wide(ctx, l):
    """fock_tensor of gates acting side by side on many modes, in any order of the modes."""
    from thewalrus.quantum import fock_tensor

    for q, layout in enumerate(LAYOUTS[l]):
        for c in (1, 2, 3) if l == 4 else (1, 2):
            S, alpha, W = np.eye(2 * l), np.zeros(l, dtype=complex), np.ones(())
            axes = []
            for kind, ms, r, phi in layout:
                s, a, t = local(kind, r, phi, c)
                ix = list(ms) + [m + l for m in ms]
                S[np.ix_(ix, ix)] = s
                alpha[list(ms)] = a
                W = np.multiply.outer(W, t)
                axes += list(ms) + [m + l for m in ms]
            W = np.transpose(W, np.argsort(axes))
            ctx.count(states=W.size, transitions=W.size, traces=3)
            ctx.eq((l, q, c), lambda: nophase(fock_tensor(S, alpha, c), W), W, tol=1e-8)
            inv = np.argsort([x for i in range(l) for x in (i, i + l)])
            ctx.eq((l, q, c, "sf"), lambda: nophase(np.transpose(fock_tensor(S, alpha, c, sf_order=True), inv), W), W, tol=1e-8)
            ctx.eq((l, q, c, "choi"), lambda: nophase(fock_tensor(S, alpha, c, choi_r=0.5), W), W, tol=1e-8)
            # without a free phase, up to one phase common to every entry
            ctx.eq((l, q, c, "norm"), lambda: np.abs(fock_tensor(S, alpha, c)), np.abs(W), tol=1e-8)


@unit(UNITS, quick=[dict(kind=k) for k in ("one", "two")])
def strong(ctx, kind):
    """Fock-space gates outside the weak range: large, negative and tiny parameters, special angles, single precision."""
    import thewalrus.fock_gradients as fg

    pars = [(r, p) for r in (1e-6, 1e-3, 1.2, -1.4, 2.0, math.pi / 2) for p in (0, math.pi, -math.pi / 2, 4.5, -6.1, 100.0)]
    if kind == "one":
        for r, phi in pars:
            a = r * np.exp(1j * phi)
            for c in (1, 2, 3, 6, 13, 22):
                for nm, fn, W in (("D", fg.displacement, g.exact_displacement(a, c)), ("S", fg.squeezing, g.exact_squeezing(r, phi, c))):
                    ctx.count(states=c * c, transitions=2 * c * c, traces=1)
                    ctx.eq((nm, r, phi, c), lambda: fn(r, phi, c), W, scale=np.abs(W) + 1e-3 + (1e2 if c > 13 else 0), tol=1e-9)
                    # every entry of a weak gate to its own leading order
                    if r < 0.01 and r > 0 and c < 7:
                        got = {}

                        def call():
                            if not got:
                                got["x"] = np.asarray(fn(r, phi, c))
                            return got["x"]

                        for i in range(min(c, 3)):
                            for j in range(min(c, 3)):
                                ctx.eq((nm, r, phi, c, i, j), lambda: call()[i, j], W[i, j], scale=abs(W[i, j]) + 1e-30, tol=1e-6)
            # displacing back returns the vacuum
            ctx.eq(("D back", r, phi), lambda: (fg.displacement(r, phi, 40) @ fg.displacement(-r, phi, 40))[0, 0], 1.0, tol=1e-6)
        return
    for r, phi in pars:
        for c in (1, 2, 4, 6):
            for nm, fn, W in (("TMS", fg.two_mode_squeezing, g.exact_two_mode_squeezing(r, phi, c)), ("BS", fg.beamsplitter, g.fock_passive2(g.bs_unitary(r, phi), c)),
                              ("MZ", fg.mzgate, g.fock_passive2(g.mz_unitary(r, phi), c))):
                ctx.count(states=c ** 4, transitions=2 * c ** 4, traces=1)
                ctx.eq((nm, r, phi, c), lambda: fn(r, phi, c), W, scale=np.abs(W) + 1e-1, tol=1e-9)
                if c == 4:
                    ctx.eq((nm, r, phi, "64"), lambda: fn(r, phi, c, np.complex64), W, tol=1e-4)


@unit(UNITS, quick=[dict(l=1), dict(l=2), dict(l=3)])
def forms(ctx, l):
    """fock_tensor for every layout and dtype of the symplectic matrix and of the displacements, weak and strong gates."""
    from thewalrus.quantum import fock_tensor

    c = {1: 6, 2: 4, 3: 3}[l]
    order = np.argsort([x for i in range(l) for x in (i, i + l)])
    prod = lambda Ws: np.transpose(np.einsum(*[x for i, W in enumerate(Ws) for x in (W, [i, l + i])], list(range(2 * l))), range(2 * l))
    cases = []
    perm = np.roll(np.arange(l), 1)
    P = np.eye(l, dtype=int)[perm]
    Wp = np.zeros((c,) * (2 * l))
    for ins in itertools.product(range(c), repeat=l):
        Wp[tuple(ins[p] for p in perm) + ins] = 1
    cases.append(("int perm", g.passive(P).astype(int), np.zeros(l, dtype=int), Wp))
    cases.append(("int rot", np.block([[np.zeros((l, l)), -np.eye(l)], [np.eye(l), np.zeros((l, l))]]).astype(int), np.zeros(l),
                  prod([g.fock_rotation(math.pi / 2, c)] * l)))
    cases.append(("int disp", np.eye(2 * l, dtype=int), np.array([1, 0, -1][:l]), prod([g.exact_displacement(x, c) for x in (1, 0, -1)[:l]])))
    rs, al_ = [0.8, -0.3, 1.1][:l], [0.4 - 0.2j, -0.7j, 0.1][:l]
    SD = [(g.exact_displacement(a, 90) @ g.exact_squeezing(r, 0.5, 90))[:c, :c] if abs(r) < 0.9 else None for r, a in zip(rs, al_)]
    al_ = [0 if W is None else a for a, W in zip(al_, SD)]
    SD = [g.exact_squeezing(r, 0.5, c) if W is None else W for r, W in zip(rs, SD)]
    S = g.sq(rs, [0.5] * l)
    for lay in al.LAYOUTS:
        cases.append(("strong " + lay, al.layout(S, lay), al.layout(np.array(al_, dtype=complex), lay), prod(SD)))
    for r in (1e-6, 1e-4, 1e-2):
        rs = [r * (i + 1) for i in range(l)]
        cases.append(("weak %g" % r, g.sq(rs, [0.3] * l), np.zeros(l), prod([g.exact_squeezing(x, 0.3, c) for x in rs])))
        cases.append(("weak disp %g" % r, np.eye(2 * l), np.array(rs) * 1j, prod([g.exact_displacement(1j * x, c) for x in rs])))
    for name, S, alpha, W in cases:
        keep = S.copy(), alpha.copy()
        for k in range(1, c + 1):
            w = W[(slice(0, k),) * (2 * l)]
            ctx.count(states=w.size, transitions=w.size, traces=2)
            sc = 1.0 if "weak" not in name else np.abs(w) + 1e-6
            ctx.eq((l, name, k), lambda: nophase(fock_tensor(S, alpha, k), w), w, scale=sc, tol=1e-8, data=(S, alpha))
            ctx.eq((l, name, k, "sf"), lambda: nophase(np.transpose(fock_tensor(S, alpha, k, sf_order=True, choi_r=0.7), order), w), w, scale=sc, tol=1e-8)
        ctx.true((l, name, "inputs"), lambda: np.array_equal(S, keep[0]) and np.array_equal(alpha, keep[1]))


@unit(UNITS, quick=[dict(kind=k) for k in ("D", "S", "R", "TMS", "BS", "MZ")])
def deep(ctx, kind):
    """Large cutoffs: more photons than the factorials of 64-bit integers in one mode, eleven and more in two."""
    import thewalrus.fock_gradients as fg
    from thewalrus.quantum import fock_tensor

    lib = dict(D=fg.displacement, S=fg.squeezing, TMS=fg.two_mode_squeezing, BS=fg.beamsplitter, MZ=fg.mzgate)
    for r, phi in ((0.5, 0.0), (0.9, 1.1), (-0.7, 0.3)):
        for c in (24, 31) if kind in "DSR" else (11, 15):
            if kind == "MZ":
                W = g.fock_passive2(g.mz_unitary(r, phi), c)
            else:
                S, alpha, W = local(kind, r, phi, c)
                ctx.eq((kind, r, phi, c, "tensor"), lambda: nophase(fock_tensor(S, np.array(alpha, dtype=complex), c, choi_r=0.8), W), W, tol=1e-6, scale=1.0)
            ctx.count(states=W.size, transitions=2 * W.size, traces=2)
            if kind in lib:
                ctx.eq((kind, r, phi, c), lambda: lib[kind](r, phi, c), W, tol=1e-7, scale=1.0)
