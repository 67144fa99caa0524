"""C16: symplectic gates, embeddings, channels, orderings."""
import itertools
import math
import warnings

import numpy as np
import scipy.sparse as sps

from mc import alphabet as al
from mc import gauss as g
from mc.core import unit

PROPERTY = "C16"
LEVEL = "exploration"
RULE = (
    "every gate constructor on a grid of parameters, dtypes and argument containers; every ordered list of modes for "
    "embeddings with matrices whose entries identify their position, in every dense and sparse format; every channel "
    "on every mode against its unitary dilation; every ordering up to 6 modes"
)
ASSUMPTIONS = ["agreement up to 1e-10 (1e-5 for single precision)"]
UNITS = []
HB = (2, 1, 0.5, 1.7, 2.0)
DTYPES = (np.float64, np.float32, np.complex128, np.complex64)


def bog(U, V):
    """Real symplectic matrix of a -> U a + V a^dag."""
    U, V = np.asarray(U, dtype=complex), np.asarray(V, dtype=complex)
    return np.block([[(U + V).real, -(U - V).imag], [(U + V).imag, (U - V).real]])


GRID = (0.0, 0.1, 0.7, -0.4, 1.3, math.pi / 4, math.pi / 2, math.pi, -2.6, 6.0, 1, 2)


def quiet(fn):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn()


@unit(UNITS)
def gates(ctx):
    from thewalrus import symplectic as sy

    for phi in GRID:
        for dt in (None, np.float64, np.float32):
            kw = {} if dt is None else {"dtype": dt}
            tol = 2e-6 if dt == np.float32 else 1e-12
            U = np.array([[np.exp(1j * phi)]])
            ctx.eq(("rotation", phi, str(dt)), lambda: sy.rotation(phi, **kw), bog(U, 0 * U), tol=tol)
            for r in GRID:
                ch, e = np.diag([math.cosh(r)] * 2), np.exp(1j * phi) * math.sinh(r)
                ctx.eq(("tms", r, phi, str(dt)), lambda: sy.two_mode_squeezing(r, phi, **kw), bog(ch, [[0, e], [e, 0]]), tol=tol)
                ctx.eq(("sq", r, phi, str(dt)), lambda: sy.squeezing(r, phi, **kw), bog([[math.cosh(r)]], [[-e]]), tol=tol)
                ctx.eq(("bs", r, phi, str(dt)), lambda: sy.beam_splitter(r, phi, **kw), bog(g.bs_unitary(r, phi), np.zeros((2, 2))), tol=tol)
                if dt == np.float32:
                    for name in ("two_mode_squeezing", "beam_splitter", "squeezing"):
                        ctx.true((name, r, phi, "dtype"), lambda: getattr(sy, name)(r, phi, dtype=dt).dtype == dt)
    for r in GRID:
        ctx.eq(("sq", r, "nophase"), lambda: sy.squeezing(r), np.diag([math.exp(-r), math.exp(r)]), tol=1e-12)
    vals = (0.3, -0.5, 0.0, 1.1)
    for n in (1, 2, 3, 4):
        for rs in itertools.product(vals, repeat=n):
            if n == 4 and len(set(rs)) < 4:
                continue
            for ph in ([0.0] * n, [0.4 * i + 0.2 for i in range(n)], [math.pi] * (n - 1) + [0.5]):
                V = -np.diag(np.sinh(rs) * np.exp(1j * np.array(ph)))
                want = bog(np.diag(np.cosh(rs)), V)
                for cname, c in (("list", list), ("array", np.array), ("tuple", tuple)):
                    ctx.eq(("sq", rs, tuple(ph), cname), lambda: sy.squeezing(c(rs), c(ph)), want, tol=1e-12)
            ctx.eq(("sq", rs, "nophase"), lambda: sy.squeezing(np.array(rs)), np.diag(np.concatenate([np.exp(-np.array(rs)), np.exp(rs)])), tol=1e-12)
            want = bog(np.diag(np.cosh(rs)), -np.diag(np.sinh(rs) * np.exp(0.6j)))
            ctx.eq(("sq", rs, "one phase"), lambda: sy.squeezing(np.array(rs), 0.6), want, tol=1e-12)
        ctx.eq(("sq", n, "int"), lambda: sy.squeezing(np.arange(n)), np.diag(np.exp(np.concatenate([-np.arange(n), np.arange(n)]).astype(float))), tol=1e-12)
        for ph in (0.4, -1.2):
            phs = np.array([ph + i for i in range(n)])
            ctx.eq(("sq", n, ph, "one magnitude"), lambda: sy.squeezing(0.3, phs), bog(np.diag([math.cosh(0.3)] * n), -math.sinh(0.3) * np.diag(np.exp(1j * phs))), tol=1e-12)
    for n in (1, 2, 3, 4, 5):
        for k in range(4):
            U = g.unitary(n, k)
            ctx.eq(("interf", n, k), lambda: sy.interferometer(U), g.passive(U), tol=1e-12)
        for p in itertools.islice(itertools.permutations(range(n)), 24):
            P = np.eye(n)[list(p)]
            for dt in (float, int, complex):
                ctx.eq(("interf", p, dt.__name__), lambda: sy.interferometer(P.astype(dt)), np.kron(np.eye(2), P), tol=1e-12)
        ctx.eq(("interf", n, "rect"), lambda: sy.interferometer(al.mat_gauss(n, n + 1, 3)), g.passive(al.mat_gauss(n, n + 1, 3)), tol=1e-12)
        I, O = np.eye(n), np.zeros((n, n))
        for dt in (None, np.float64, np.float32, np.int64, np.complex128):
            kw = {} if dt is None else {"dtype": dt}
            ctx.eq(("sympmat", n, str(dt)), lambda: sy.sympmat(n, **kw), np.block([[O, I], [-I, O]]), tol=0)
            if dt != np.int64:
                for hb in HB:
                    ctx.eq(("vac", n, str(dt), hb, "cov"), lambda: sy.vacuum_state(n, hbar=hb, **kw)[1], np.eye(2 * n) * hb / 2, tol=1e-7)
                    ctx.eq(("vac", n, str(dt), hb, "mu"), lambda: sy.vacuum_state(n, hbar=hb, **kw)[0], np.zeros(2 * n), tol=0)
        ctx.eq(("vac", n, "default"), lambda: sy.vacuum_state(n)[1], np.eye(2 * n), tol=0)


FORMATS = ("csr", "csc", "coo", "dia", "bsr", "lil", "dok")


@unit(UNITS, quick=[dict(N=1), dict(N=2), dict(N=3), dict(N=4), dict(N=5), dict(N=6), dict(N=8)], thorough=[dict(N=N) for N in range(1, 7)])
def embed(ctx, N):
    """expand, expand_vector, expand_passive for every ordered list of modes."""
    from thewalrus import symplectic as sy

    def want(S, modes):
        M = S.shape[0] // 2
        E = np.eye(2 * N, dtype=S.dtype)
        if M == 1:
            pairs = [((a, m), (b, m)) for m in modes for a in (0, 1) for b in (0, 1)]
            for (a, m), (b, _) in pairs:
                E[m + a * N, m + b * N] = S[a, b]
            return E
        ix = [m for m in modes] + [m + N for m in modes]
        E[np.ix_(ix, ix)] = S
        return E

    for M in range(1, N + 1):
        i = np.arange(1, 2 * M + 1)
        S = 10.0 * i[:, None] + i[None, :] + 0.5
        mats = [("pos", S)]
        gaps = S.copy()
        gaps[::2, 1::2] = 0
        mats.append(("gaps", gaps))
        if M <= 3:
            mats += [("sym", g.symplectic(M, M)), ("int", S.astype(int)), ("cplx", S + 1j * S.T), ("f32", S.astype(np.float32)), ("ident", np.eye(2 * M)), ("F", np.asfortranarray(S))]
        lists = list(itertools.permutations(range(N), M))
        if len(lists) > 130:
            lists = lists[:: len(lists) // 120]
        if M == 1:
            lists = [p for r in range(1, N + 1) for p in itertools.combinations(range(N), r)] + [tuple(reversed(range(N)))]
        for p in lists:
            for mname, A in mats:
                cs = [("list", list(p)), ("array", np.array(p))]
                if mname == "pos":
                    cs.append(("tuple", tuple(p)))
                    if list(p) == list(range(p[0], p[0] + len(p))):
                        cs.append(("range", range(p[0], p[0] + len(p))))
                    if len(p) == 1:
                        cs.append(("int", p[0]))
                for cname, c in cs:
                    ctx.eq((N, M, p, mname, cname), lambda: sy.expand(A, c, N), want(A, p), tol=0)
                if mname in ("pos", "gaps", "int") and N <= 4:
                    for f in FORMATS:
                        for kind in ("array", "matrix"):
                            B = getattr(sps, f + "_" + kind)(A)
                            ctx.eq((N, M, p, mname, f, kind), lambda: quiet(lambda: sy.expand(B, list(p), N)).toarray(), want(A, p), tol=0)
            if M > 1 and M <= 3:
                # composition through the library
                A, B = g.symplectic(M, 1), g.symplectic(M, 2)
                ctx.eq((N, M, p, "compose"), lambda: sy.expand(A, list(p), N) @ sy.expand(B, list(p), N), want(A @ B, p), tol=1e-10)
        plists = list(itertools.permutations(range(N), M))
        if len(plists) > 130:
            plists = plists[:: len(plists) // 120]
        for p in plists:
            T = np.arange(1, M * M + 1).reshape(M, M) + 0.25
            for mname, A in (("real", T), ("int", T.astype(int)), ("cplx", T + 1j * T.T), ("f32", T.astype(np.float32))):
                W = np.eye(N, dtype=A.dtype)
                W[np.ix_(p, p)] = A
                for cname, c in (("list", list(p)), ("array", np.array(p)), ("tuple", tuple(p))):
                    ctx.eq((N, "passive", p, mname, cname), lambda: sy.expand_passive(A, c, N), W, tol=0)
    for m in range(N):
        for a in (0.3, -1.5, 1, 0, 2 - 0.5j, 0.25j, np.complex64(0.5 + 0.25j), np.float64(0.7), np.float32(0.5), np.int64(3), np.complex128(-1 - 1j)):
            for hb in HB + (None,):
                h = 2.0 if hb is None else hb
                w = np.zeros(2 * N)
                w[m], w[m + N] = math.sqrt(2 * h) * np.real(a), math.sqrt(2 * h) * np.imag(a)
                tol = 1e-6 if isinstance(a, (np.complex64, np.float32)) else 1e-12
                ctx.eq((N, m, repr(a), hb), lambda: sy.expand_vector(a, m, N, **({} if hb is None else {"hbar": hb})), w, tol=tol)
    ctx.raises((N, "expand_passive", "nonsquare"), lambda: sy.expand_passive(np.zeros((N, N + 1)), list(range(N)), N + 1), ValueError)
    ctx.raises((N, "expand_passive", "length"), lambda: sy.expand_passive(np.eye(N), list(range(N + 1)), N + 1), ValueError)


@unit(UNITS, quick=[dict(n=1), dict(n=2), dict(n=3), dict(n=4), dict(n=6)], thorough=[dict(n=n) for n in (1, 2, 3, 4, 5)])
def channels(ctx, n):
    """Loss on every mode against a beam splitter with a thermal mode; passive maps against a unitary dilation."""
    from thewalrus import symplectic as sy

    def dil_loss(mu, cov, T, mode, nbar):
        mu2 = np.concatenate([mu[:n], [0], mu[n:], [0]])
        V = np.eye(2 * n + 2) * (2 * nbar + 1)
        ix = list(range(n)) + list(range(n + 1, 2 * n + 1))
        V[np.ix_(ix, ix)] = cov
        U = np.eye(n + 1)
        t, r = math.sqrt(T), math.sqrt(1 - T)
        U[mode, mode] = U[n, n] = t
        U[mode, n], U[n, mode] = r, -r
        S = g.passive(U)
        return (S @ mu2)[ix], (S @ V @ S.T)[np.ix_(ix, ix)]

    for name, mu0, cov0, _ in g.states(n):
        for hb in (2, 1, 0.5, 1.7):
            mu, cov = g.to_hbar(mu0, cov0, hb)
            for mode in range(n):
                for T in (0.0, 0.3, 0.99, 1.0, 0, 1, np.float64(0.5)):
                    for nbar in (None, 0, 0.4, 2):
                        wm, wc = g.to_hbar(*dil_loss(mu0, cov0, T, mode, nbar or 0), hb)
                        kw = dict(hbar=hb) if nbar is None else dict(hbar=hb, nbar=nbar)
                        ctx.eq((n, name, hb, mode, float(T), nbar, "mu"), lambda: sy.loss(mu, cov, T, mode, **kw)[0], wm, tol=1e-10)
                        ctx.eq((n, name, hb, mode, float(T), nbar, "cov"), lambda: sy.loss(mu, cov, T, mode, **kw)[1], wc, tol=1e-10)
        wm, wc = dil_loss(mu0, cov0, 0.6, n - 1, 0)
        ctx.eq((n, name, "default"), lambda: np.concatenate([x.ravel() for x in sy.loss(mu0, cov0, 0.6, n - 1)]), np.concatenate([wm, wc.ravel()]), tol=1e-10)
    for dt in (np.int64, np.int32, np.float32):
        mu, cov = (np.arange(2 * n) + 1).astype(dt), (3 * np.eye(2 * n)).astype(dt)
        wm, wc = dil_loss(mu.astype(float), cov.astype(float), 0.3, 0, 0.5)
        ctx.eq((n, "dtype", str(dt), "mu"), lambda: sy.loss(mu, cov, 0.3, 0, nbar=0.5)[0], wm, tol=1e-6)
        ctx.eq((n, "dtype", str(dt), "cov"), lambda: sy.loss(mu, cov, 0.3, 0, nbar=0.5)[1], wc, tol=1e-6)

    for m in range(1, n + 2):
        for k in range(5):
            if k == 0:
                T = np.zeros((m, n))
            elif k == 1:
                T = np.eye(max(m, n))[:m, :n]
            elif k == 4:
                T = np.eye(max(m, n))[::-1][:m, :n]  # real permutation part
            else:
                T = al.mat_gauss(m, n, k)
                T = T * (0.9 if k == 2 else 1.0) / np.linalg.norm(T, 2)
            # outputs: T a + C b with C C^dag = 1 - T T^dag
            w, v = np.linalg.eigh(np.eye(m) - T @ T.conj().T)
            C = (v * np.sqrt(np.clip(w, 0, None))) @ v.conj().T
            P = g.passive(np.hstack([T, C]))
            for name, mu0, cov0, _ in g.states(n, which=("pure+d", "lossy+d", "classical+d", "vac", "mixed+d")):
                full_mu = np.concatenate([mu0[:n], np.zeros(m), mu0[n:], np.zeros(m)])
                full = np.eye(2 * (n + m))
                ix = list(range(n)) + list(range(n + m, 2 * n + m))
                full[np.ix_(ix, ix)] = cov0
                wm, wc = P @ full_mu, P @ full @ P.T
                for hb in (2, 1, 0.5, None):
                    h = 2 if hb is None else hb
                    mu, cov = g.to_hbar(mu0, cov0, h)
                    a, b = g.to_hbar(wm, wc, h)
                    kw = {} if hb is None else dict(hbar=hb)
                    ctx.eq((n, m, k, name, hb, "passive-mu"), lambda: sy.passive_transformation(mu, cov, T, **kw)[0], a, tol=1e-10)
                    ctx.eq((n, m, k, name, hb, "passive-cov"), lambda: sy.passive_transformation(mu, cov, T, **kw)[1], b, tol=1e-10)


@unit(UNITS)
def orderings(ctx):
    from thewalrus import symplectic as sy

    for n in range(0, 7):
        if n == 0:
            continue
        ind = [i // 2 + (i % 2) * n for i in range(2 * n)]  # xpxp position -> xxpp position
        inv = [ind.index(i) for i in range(2 * n)]
        i = np.arange(2 * n)
        for dt in (int, float, complex):
            v = (i * 3 + 1).astype(dt)
            A = np.add.outer(100 * i, i).astype(dt)
            ctx.eq((n, dt.__name__, "v to xpxp"), lambda: sy.xxpp_to_xpxp(v), v[ind], tol=0)
            ctx.eq((n, dt.__name__, "v to xxpp"), lambda: sy.xpxp_to_xxpp(v), v[inv], tol=0)
            for lay in al.LAYOUTS:
                B = al.layout(A, lay)
                ctx.eq((n, dt.__name__, lay, "A to xpxp"), lambda: sy.xxpp_to_xpxp(B), A[np.ix_(ind, ind)], tol=0)
                ctx.eq((n, dt.__name__, lay, "A to xxpp"), lambda: sy.xpxp_to_xxpp(B), A[np.ix_(inv, inv)], tol=0)
            ctx.eq((n, dt.__name__, "A there and back"), lambda: sy.xpxp_to_xxpp(sy.xxpp_to_xpxp(A)), A, tol=0)
            ctx.eq((n, dt.__name__, "A back and there"), lambda: sy.xxpp_to_xpxp(sy.xpxp_to_xxpp(A)), A, tol=0)
        for f in (sy.xxpp_to_xpxp, sy.xpxp_to_xxpp):
            ctx.raises((n, f.__name__, "odd"), lambda: f(np.ones(2 * n - 1)), ValueError)
            ctx.raises((n, f.__name__, "odd matrix"), lambda: f(np.ones((2 * n - 1, 2 * n - 1))), ValueError)
            ctx.raises((n, f.__name__, "nonsquare"), lambda: f(np.ones((2 * n, 2 * n + 2))), ValueError)


@unit(UNITS, quick=[dict(n=1), dict(n=2), dict(n=3), dict(n=5)], thorough=[dict(n=n) for n in (1, 2, 3, 4, 5)])
def is_symplectic(ctx, n):
    """Both predicates against |S^T Omega S - Omega| for symplectic matrices and every single-entry change of them."""
    from thewalrus import symplectic as sy
    from thewalrus.quantum import gaussian_checks as gc
    from thewalrus import quantum as qm

    O = g.om(n)
    pool = [("id", np.eye(2 * n)), ("omega", O), ("-id", -np.eye(2 * n)), ("sq", g.sq([0.3 + 0.1 * i for i in range(n)], [0.2] * n))]
    pool += [("gen%d" % k, g.symplectic(n, k)) for k in range(3)]
    pool += [("pass%d" % k, g.passive(g.unitary(n, k))) for k in range(3)]
    pool += [("strong", g.sq([2.0] * n) @ g.passive(g.unitary(n, 1)))]
    if n > 1:
        pool.append(("swap-x-only", np.kron(np.diag([1, 0]), np.eye(n)[::-1]) + np.kron(np.diag([0, 1]), np.eye(n))))
        pool.append(("orth", np.eye(2 * n)[np.roll(np.arange(2 * n), 1)]))
    pool += [("flip", np.diag([1.0] * n + [-1.0] * n)), ("scale", 1.1 * np.eye(2 * n)), ("zero", np.zeros((2 * n, 2 * n))), ("ones", np.ones((2 * n, 2 * n)))]
    fs = (sy.is_symplectic, gc.is_symplectic, qm.is_symplectic)
    for name, S in pool:
        cases = [("", S)]
        for i in range(2 * n):
            for j in range(2 * n):
                for d in (0.1, -0.3):
                    E = S.copy()
                    E[i, j] += d
                    cases.append(((i, j, d), E))
        for c, E in cases:
            dev = np.abs(E.T @ O @ E - O).max()
            if dev < 1e-9 or dev > 1e-2:
                for q, f in enumerate(fs):
                    ctx.eq((n, name, c, q), lambda: bool(f(E)), dev < 1e-9, tol=0)
        # tolerances
        dev = np.abs(S.T @ O @ S - O).max()
        if dev < 1e-9:
            E = S.copy()
            E[0, 0] += 0.01
            if np.abs(E.T @ O @ E - O).max() > 1e-3:
                for q, f in enumerate(fs):
                    ctx.eq((n, name, q, "loose"), lambda: bool(f(E, rtol=0, atol=1.0)), True, tol=0)
                    ctx.eq((n, name, q, "tight"), lambda: bool(f(E, rtol=0, atol=1e-6)), False, tol=0)
    for q, f in enumerate(fs):
        ctx.eq((n, q, "odd"), lambda: bool(f(np.eye(2 * n + 1))), False, tol=0)
        ctx.eq((n, q, "rect"), lambda: bool(f(np.eye(2 * n, 2 * n + 2))), False, tol=0)


@unit(UNITS, quick=[dict(n=1), dict(n=2), dict(n=3)])
def forms(ctx, n):
    """Channels on states of every layout and dtype; passive maps of every layout and dtype; arguments stay as they were."""
    from thewalrus import symplectic as sy

    U = g.unitary(n, 2) * 0.8
    perm = np.eye(n, dtype=int)[np.roll(np.arange(n), 1)]
    maps = [("U " + k, al.layout(U, k)) for k in al.LAYOUTS] + [("int perm", perm), ("row", np.full((1, n), 0.5)), ("float32", perm.astype(np.float32))]
    for q, (name, mu0, cov0, _) in enumerate(g.formed(n)):
        hb = (2, 1, 0.5, 1.7)[q % 4] if "int" not in name else 2
        mu, cov = (mu0, cov0) if hb == 2 else g.to_hbar(mu0, cov0, hb)
        keep = mu.copy(), cov.copy()
        m, V = np.array(mu, dtype=float), np.array(cov, dtype=float)
        for mode in range(n):
            for T, nbar in ((0.3, 0), (0.7, 1.5), (0, 0.25), (1, 3)):
                f = np.ones(2 * n)
                f[[mode, mode + n]] = math.sqrt(T)
                wm, wc = f * m, f[:, None] * V * f
                wc[mode, mode] += (1 - T) * (2 * nbar + 1) * hb / 2
                wc[mode + n, mode + n] += (1 - T) * (2 * nbar + 1) * hb / 2
                got = {}

                def call():
                    if not got:
                        got["r"] = sy.loss(mu, cov, T, mode, nbar=nbar, hbar=hb)
                    return got["r"]

                ctx.eq((n, name, hb, mode, T, nbar, "mu"), lambda: call()[0], wm, tol=1e-10)
                ctx.eq((n, name, hb, mode, T, nbar, "cov"), lambda: call()[1], wc, scale=1 + np.abs(wc).max(), tol=1e-10)
                ctx.count(traces=1)
        for tn, T in maps:
            X = np.asarray(T).astype(complex)
            P = np.block([[X.real, -X.imag], [X.imag, X.real]])
            wm, wc = P @ m, P @ V @ P.T + (np.eye(len(P)) - P @ P.T) * hb / 2
            ctx.eq((n, name, hb, tn, "passive-mu"), lambda: sy.passive_transformation(mu, cov, T, hbar=hb)[0], wm, tol=1e-6 if tn == "float32" else 1e-10)
            ctx.eq((n, name, hb, tn, "passive-cov"), lambda: sy.passive_transformation(mu, cov, T, hbar=hb)[1], wc, scale=1 + np.abs(wc).max(), tol=1e-6 if tn == "float32" else 1e-10)
        ctx.true((n, name, hb, "inputs"), lambda: np.array_equal(mu, keep[0]) and np.array_equal(cov, keep[1]))
    for tn, T in maps:
        if np.shape(T) == (n, n):
            X = np.asarray(T).astype(complex)
            ctx.eq((n, tn, "interferometer"), lambda: sy.interferometer(T), np.block([[X.real, -X.imag], [X.imag, X.real]]), tol=1e-6)
            for modes in itertools.permutations(range(n + 1), n):
                W = np.eye(n + 1, dtype=complex)
                W[np.ix_(modes, modes)] = X
                ctx.eq((n, tn, modes, "expand_passive"), lambda: sy.expand_passive(T, list(modes), n + 1), W, tol=1e-6)
