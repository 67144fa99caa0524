"""C11: Fock-basis representation of Gaussian states."""
import itertools
import math

import numpy as np

from mc import gauss as g
from mc.core import unit

PROPERTY = "C11"
LEVEL = "model_checking"
RULE = (
    "states are the Fock indices (ket and bra patterns) of the density matrix, transitions the lowering steps of the "
    "reference recursion; every index below the cutoff is compared for every state, hbar, post-selection map and option "
    "(one trace per compared call)"
)
ASSUMPTIONS = [
    "the reference lattice mc/gauss.py is validated against truncated Fock-space simulation of gates in C12",
    "agreement up to 1e-9 absolute for density matrices and probabilities, 1e-8 for amplitudes",
    "the index order of density_matrix_element is the one fixed by the existing tests (see known findings)",
]
UNITS = []
HB = (2, 1, 0.5, 1.7)
BOX = {1: 9, 2: 4, 3: 3, 4: 2}


def sf(rho, n):
    """(kets, bras) -> interleaved index order."""
    return rho.transpose([x for i in range(n) for x in (i, i + n)])


def psi_of(rho, n):
    v = rho[(Ellipsis,) + (0,) * n]
    return v / np.sqrt(rho[(0,) * (2 * n)].real)


def phase_free(got, want):
    """got times the phase that makes its overlap with want positive."""
    got = np.asarray(got)
    ov = np.vdot(got, want)
    return got * (ov / abs(ov)) if abs(ov) > 0 else got


def select(rho, n, ps):
    """Post-select modes in both kets and bras."""
    ix = [slice(None)] * (2 * n)
    for m, v in ps.items():
        ix[m] = ix[m + n] = v
    return rho[tuple(ix)]


def maps(n, top):
    for r in range(0, n + 1):
        for modes in itertools.combinations(range(n), r):
            for vals in itertools.product(range(top), repeat=r):
                yield dict(zip(modes, vals))


ALLN = [dict(n=n) for n in (1, 2, 3, 4)]


@unit(UNITS, quick=ALLN, thorough=ALLN)
def pure(ctx, n):
    """state_vector and pure_state_amplitude for every index, post-selection, prefactor and normalization option."""
    from thewalrus import quantum as qm

    D = BOX[n] + (1 if ctx.thorough and n < 4 else 0)
    for q, (name, mu0, cov0, ispure) in enumerate(g.states(n)):
        if not ispure:
            for hb in HB:
                mu, cov = g.to_hbar(mu0, cov0, hb)
                ctx.raises((n, name, hb, "impure"), lambda: qm.state_vector(mu, cov, cutoff=2, hbar=hb), ValueError)
                ctx.raises((n, name, hb, "impure amp"), lambda: qm.pure_state_amplitude(mu, cov, [0] * n, hbar=hb), ValueError)
            continue
        rho, tr = g.dm_lattice(mu0, cov0, D)
        psi = psi_of(rho, n)
        ctx.count(states=rho.size, transitions=tr)
        for hb in HB if n < 3 else (HB[q % 4], 2):
            mu, cov = g.to_hbar(mu0, cov0, hb)
            got = None
            for c in range(1, D + 1):
                box = (slice(0, c),) * n
                v = ctx.eq((n, name, hb, c, "sv"), lambda: phase_free(qm.state_vector(mu, cov, cutoff=c, hbar=hb), psi[box]), psi[box], tol=1e-8, data=(mu, cov))
                ctx.eq((n, name, hb, c, "norm"), lambda: phase_free(qm.state_vector(mu, cov, cutoff=c, normalize=True, hbar=hb), psi[box]),
                       psi[box] / np.linalg.norm(psi[box]), tol=1e-8)
                ctx.count(traces=2)
            ctx.eq((n, name, hb, "unchecked"), lambda: np.abs(qm.state_vector(mu, cov, cutoff=2, hbar=hb, check_purity=False)), np.abs(psi[(slice(0, 2),) * n]), tol=1e-8)
            full = np.asarray(qm.state_vector(mu, cov, cutoff=D, hbar=hb))
            # every amplitude, with and without its prefactor, and their common global phase
            a0 = np.asarray(qm.pure_state_amplitude(mu, cov, [0] * n, include_prefactor=False, hbar=hb))
            for r, idx in enumerate(itertools.product(range(D), repeat=n)):
                f = (list, tuple, np.array)[r % 3]
                ctx.eq((n, name, hb, idx), lambda: qm.pure_state_amplitude(mu, cov, f(idx), hbar=hb), full[idx], tol=1e-8, data=(mu, cov))
                if r % 2:
                    ctx.eq((n, name, hb, idx, "opt"), lambda: qm.pure_state_amplitude(mu, cov, f(idx), hbar=hb, check_purity=False, tol=1e-14), full[idx], tol=1e-8)
                ctx.eq((n, name, hb, idx, "nopref"), lambda: qm.pure_state_amplitude(mu, cov, f(idx), include_prefactor=False, hbar=hb) * full[(0,) * n],
                       full[idx] * a0, tol=1e-8)
                ctx.count(traces=2)
            if hb == 2:
                ctx.eq((n, name, "default"), lambda: qm.state_vector(mu, cov, cutoff=3), full[(slice(0, 3),) * n] if D >= 3 else qm.state_vector(mu, cov, cutoff=3, hbar=2), tol=1e-8)
                ctx.eq((n, name, "a default"), lambda: qm.pure_state_amplitude(mu, cov, [1] * n), full[(1,) * n], tol=1e-8)
            for k, ps in enumerate(maps(n, min(D, 3))):
                if n >= 3 and k % 3 and not ctx.thorough and len(ps) < n - 1:
                    continue
                c = min(D, 3)
                ix = tuple(ps.get(i, slice(0, c)) for i in range(n))
                w = full[ix]
                key = (n, name, hb, tuple(ps.items()))
                ctx.eq(key + ("ps",), lambda: qm.state_vector(mu, cov, post_select=dict(ps), cutoff=c, hbar=hb), w, tol=1e-8, data=(mu, cov))
                nw = np.linalg.norm(w)
                if nw > 1e-3:
                    ctx.eq(key + ("psn",), lambda: qm.state_vector(mu, cov, post_select=dict(reversed(list(ps.items()))), normalize=True, cutoff=c, hbar=hb), w / nw, tol=1e-8)
                ctx.count(traces=2)


@unit(UNITS, quick=ALLN, thorough=ALLN)
def mixed(ctx, n):
    """density_matrix and density_matrix_element for every index, post-selection and normalization option."""
    from thewalrus import quantum as qm

    D = {1: 9, 2: 4, 3: 2, 4: 2}[n] + (1 if ctx.thorough and n < 4 else 0)
    for q, (name, mu0, cov0, _) in enumerate(g.states(n)):
        if n == 4 and not ctx.thorough and name not in ("pure+d", "lossy+d", "mixed", "tms", "classical+d"):
            continue
        rho, tr = g.dm_lattice(mu0, cov0, D)
        ctx.count(states=rho.size, transitions=tr)
        for hb in HB if n < 3 else (HB[q % 4],):
            mu, cov = g.to_hbar(mu0, cov0, hb)
            for c in range(1, D + 1):
                ctx.eq((n, name, hb, c, "dm"), lambda: qm.density_matrix(mu, cov, cutoff=c, hbar=hb), sf(rho[(slice(0, c),) * (2 * n)], n), tol=1e-9, data=(mu, cov))
                ctx.count(traces=1)
            p0 = None
            for r, idx in enumerate(itertools.product(range(D), repeat=2 * n)):
                if hb != 2 and n == 2 and (r + q) % 3 and not ctx.thorough:
                    continue
                k, b = idx[:n], idx[n:]
                f = (list, tuple, np.array)[r % 3]
                w = rho[b + k]
                ctx.eq((n, name, hb, idx), lambda: qm.density_matrix_element(mu, cov, f(k), f(b), hbar=hb), w, tol=1e-9, data=(mu, cov))
                if r % 4 == 1 or n == 1:
                    if p0 is None:
                        p0 = qm.density_matrix_element(mu, cov, [0] * n, [0] * n, hbar=hb)
                    ctx.eq((n, name, hb, idx, "nopref"), lambda: qm.density_matrix_element(mu, cov, f(k), f(b), include_prefactor=False, hbar=hb) * p0, w, tol=1e-9)
                ctx.count(traces=1)
            if hb == 2:
                ctx.eq((n, name, "default"), lambda: qm.density_matrix(mu, cov, cutoff=2), sf(rho[(slice(0, 2),) * (2 * n)], n), tol=1e-9)
                ctx.eq((n, name, "el default"), lambda: qm.density_matrix_element(mu, cov, [1] * n, [0] * n), rho[(0,) * n + (1,) * n], tol=1e-9)
            for k, ps in enumerate(maps(n, 3 if n < 3 else 2)):
                if max(ps.values(), default=0) >= D:
                    continue
                c = 2 if n > 1 else 4
                if n == 2 and len(ps) == 1:
                    c = 4
                if n >= 3 and len(ps) < n - 1 and not (ctx.thorough and len(ps)):
                    if not (len(ps) == 1 and (k + q) % 4 == 0):
                        continue
                sub = select(rho, n, ps)
                M = n - len(ps)
                sub = sub[(slice(0, c),) * (2 * M)]
                w = sf(sub, M)
                key = (n, name, hb, tuple(ps.items()))
                ctx.eq(key + ("ps",), lambda: qm.density_matrix(mu, cov, post_select=dict(ps), cutoff=c, hbar=hb), w, tol=1e-9, data=(mu, cov))
                t = np.trace(sub.reshape(c ** M, c ** M)).real
                if t > 1e-4:
                    ctx.eq(key + ("psn",), lambda: qm.density_matrix(mu, cov, post_select=dict(ps), normalize=True, cutoff=c, hbar=hb), w / t, tol=1e-8)
                ctx.count(traces=2)


@unit(UNITS, quick=ALLN, thorough=ALLN)
def probs(ctx, n):
    """probabilities equals the diagonal for every state, cutoff, hbar and execution order of the parallel tasks."""
    import dask
    from thewalrus import quantum as qm

    D = {1: 10, 2: 5, 3: 3, 4: 2}[n] + (1 if ctx.thorough else 0)
    real_compute = dask.compute

    def reverse(*args, **kw):
        """A schedule: the tasks run one by one, last first."""
        res = [real_compute(a, scheduler="synchronous")[0] for a in reversed(args)]
        return tuple(reversed(res))

    for q, (name, mu0, cov0, _) in enumerate(g.states(n)):
        P = np.zeros((D,) * n)
        for idx in itertools.product(range(D), repeat=n):
            P[idx] = np.real(g.dm_element(mu0, cov0, idx, idx))
        ctx.count(states=P.size, transitions=P.size * n)
        for hb in HB:
            mu, cov = g.to_hbar(mu0, cov0, hb)
            for c in range(1, D + 1) if hb == 2 else (D - 1,):
                ctx.eq((n, name, hb, c), lambda: qm.probabilities(mu, cov, c, hbar=hb), P[(slice(0, c),) * n], tol=1e-9, data=(mu, cov))
                ctx.count(traces=1)
            if hb in (2, 1.7):
                dask.compute = reverse
                try:
                    c = min(3, D - 1) if n < 3 else 2
                    ctx.eq((n, name, hb, "parallel"), lambda: qm.probabilities(mu, cov, c, parallel=True, hbar=hb), P[(slice(0, c),) * n], tol=1e-9)
                finally:
                    dask.compute = real_compute
        ctx.eq((n, name, "default"), lambda: qm.probabilities(mu0, cov0, 2), P[(slice(0, 2),) * n], tol=1e-9)
        ctx.true((n, name, "nonneg"), lambda: bool(np.all(qm.probabilities(mu0, cov0, D) >= 0)))


@unit(UNITS)
def tiny(ctx):
    """Displacements on either side of the zero-displacement branches, and a phase sweep."""
    from thewalrus import quantum as qm

    for n in (1, 2):
        S = g.symplectic(n, 1)
        cov = S @ S.T
        for eps in (0, 1e-13, 1e-11, 3e-9, 1e-7, 1e-5, 1e-3):
            for ph in range(8):
                mu = np.zeros(2 * n)
                mu[n - 1], mu[-1] = eps * math.cos(ph * math.pi / 4), eps * math.sin(ph * math.pi / 4)
                D = 4 if n == 1 else 3
                rho, tr = g.dm_lattice(mu, cov, D)
                ctx.count(states=rho.size, transitions=tr, traces=3)
                # a displacement below the documented tolerance (1e-10 or 1e-8 of allclose) may be neglected
                tol = 1e-9 + 3e-8 * (eps <= 1e-8)
                ctx.eq((n, eps, ph, "dm"), lambda: qm.density_matrix(mu, cov, cutoff=D), sf(rho, n), tol=tol)
                v = psi_of(rho, n)
                ctx.eq((n, eps, ph, "amp"), lambda: phase_free(np.array([qm.pure_state_amplitude(mu, cov, i) for i in itertools.product(range(D), repeat=n)]), v.ravel()), v.ravel(), tol=tol)
                ctx.eq((n, eps, ph, "el"), lambda: np.array([qm.density_matrix_element(mu, cov, (1,) + (0,) * (n - 1), i) for i in itertools.product(range(D), repeat=n)]),
                       rho[(Ellipsis, 1) + (0,) * (n - 1)].ravel(), tol=tol)


@unit(UNITS)
def docstring(ctx):
    """density_matrix_element(mu, cov, i, j) is documented as <i|rho|j>."""
    from thewalrus import quantum as qm

    mu = np.array([0.6, 0.8])
    rho, _ = g.dm_lattice(mu, np.eye(2), 2)
    ctx.eq("density_matrix_element index order", lambda: qm.density_matrix_element(mu, np.eye(2), [1], [0]), rho[1, 0], tol=1e-9)


@unit(UNITS, quick=[dict(n=1), dict(n=2), dict(n=3)])
def weak(ctx, n):
    """Nearly vacuum states: every entry is resolved to its own leading order, not just absolutely."""
    from thewalrus import quantum as qm

    D = {1: 5, 2: 3, 3: 2}[n]
    for q, (name, mu0, cov0, ispure) in enumerate(g.weak_states(n)):
        rho, tr = g.dm_lattice(mu0, cov0, D)
        ctx.count(states=rho.size, transitions=tr)
        hb = HB[q % 4]
        mu, cov = g.to_hbar(mu0, cov0, hb)
        sc = np.abs(rho) + 3e-7
        ctx.eq((n, name, hb, "dm"), lambda: qm.density_matrix(mu, cov, cutoff=D, hbar=hb), sf(rho, n), scale=sf(sc, n), tol=1e-7, data=(mu, cov))
        probs = np.einsum(rho, list(range(n)) * 2, list(range(n))).real
        if ispure or not name.startswith("r0.0001"):
            # the documented tolerance makes a state of purity 1 - 1e-8 pure
            ctx.eq((n, name, hb, "probs"), lambda: qm.probabilities(mu, cov, D, hbar=hb), probs, scale=np.abs(probs) + 3e-7, tol=1e-7, data=(mu, cov))
        ctx.count(traces=2)
        for idx in itertools.product(range(min(D, 3)), repeat=2 * n):
            if n == 3 and sum(idx) > 3:
                continue
            ctx.eq((n, name, hb, idx), lambda: qm.density_matrix_element(mu, cov, list(idx[:n]), list(idx[n:]), hbar=hb), rho[idx[n:] + idx[:n]],
                   scale=abs(rho[idx[n:] + idx[:n]]) + 3e-7, tol=1e-7, data=(mu, cov))
            ctx.count(traces=1)
        if n > 1:
            ps = {n - 1: 1}
            w = sf(select(rho, n, ps), n - 1)
            ctx.eq((n, name, hb, "ps"), lambda: qm.density_matrix(mu, cov, post_select=ps, cutoff=D, hbar=hb), w, scale=np.abs(w) + 3e-7, tol=1e-7)
            if abs(np.trace(w.reshape(D, -1)) if n == 2 else 0) > 1e-3:
                ctx.eq((n, name, hb, "psn"), lambda: qm.density_matrix(mu, cov, post_select=ps, normalize=True, cutoff=D, hbar=hb), w / np.trace(w), tol=1e-8)
        if ispure:
            psi = psi_of(rho, n)
            ctx.eq((n, name, hb, "sv"), lambda: phase_free(qm.state_vector(mu, cov, cutoff=D, hbar=hb), psi), psi, scale=np.abs(psi) + 3e-7, tol=1e-7, data=(mu, cov))
            a0 = np.asarray(qm.pure_state_amplitude(mu, cov, [0] * n, hbar=hb))
            for idx in itertools.product(range(D), repeat=n):
                ctx.eq((n, name, hb, idx, "amp"), lambda: qm.pure_state_amplitude(mu, cov, list(idx), hbar=hb) / a0 * abs(a0), psi[idx],
                       scale=abs(psi[idx]) + 3e-7, tol=1e-7, data=(mu, cov))
                ctx.count(traces=1)


@unit(UNITS, quick=[dict(n=1), dict(n=2), dict(n=3)], thorough=[dict(n=1), dict(n=2), dict(n=3), dict(n=4)])
def forms(ctx, n):
    """Every layout, dtype and container; sparse, repeated and cancelling means; hot, bright and strongly squeezed states."""
    from thewalrus import quantum as qm

    D = {1: 6, 2: 3, 3: 2, 4: 2}[n]
    kinds = (list, tuple, np.array, lambda p: np.array(p, dtype=np.int8), lambda p: [np.int64(x) for x in p], lambda p: np.repeat(np.array(p), 2)[::2])
    for q, (name, mu0, cov0, ispure) in enumerate(g.formed(n)):
        rho, tr = g.dm_lattice(np.asarray(mu0, dtype=float), np.asarray(cov0, dtype=float), D)
        ctx.count(states=rho.size, transitions=tr)
        for hb in (2, 1.7) if "int" not in name else (2,):
            mu, cov = (mu0, cov0) if hb == 2 else g.to_hbar(mu0, cov0, hb)
            keep = mu.copy(), cov.copy()
            ctx.eq((n, name, hb, "dm"), lambda: qm.density_matrix(mu, cov, cutoff=D, hbar=hb), sf(rho, n), tol=1e-9, data=(mu, cov))
            P = np.einsum(rho, list(range(n)) * 2, list(range(n))).real
            ctx.eq((n, name, hb, "probs"), lambda: qm.probabilities(mu, cov, D, hbar=hb), P, tol=1e-9, data=(mu, cov))
            ctx.count(traces=2)
            for r, idx in enumerate(itertools.product(range(D), repeat=2 * n)):
                if n > 1 and (r + q) % (1, 1, 3, 5, 17)[n]:
                    continue
                f, h = kinds[(q + r) % 6], kinds[(q + r // 6) % 6]
                ctx.eq((n, name, hb, idx), lambda: qm.density_matrix_element(mu, cov, f(idx[:n]), h(idx[n:]), hbar=hb), rho[idx[n:] + idx[:n]], tol=1e-9, data=(mu, cov))
                ctx.count(traces=1)
            if n > 1:
                for m in range(n):
                    for v in (0, 1):
                        w = sf(select(rho, n, {m: v}), n - 1)
                        for k in (m, np.int64(m)):
                            ctx.eq((n, name, hb, m, v, str(type(k)), "ps"), lambda: qm.density_matrix(mu, cov, post_select={k: v}, cutoff=D, hbar=hb), w, tol=1e-9)
            if ispure:
                psi = psi_of(rho, n)
                got = np.asarray(qm.state_vector(mu, cov, cutoff=D, hbar=hb))
                ctx.eq((n, name, hb, "sv"), lambda: phase_free(got, psi), psi, tol=1e-8, data=(mu, cov))
                for r, idx in enumerate(itertools.product(range(D), repeat=n)):
                    ctx.eq((n, name, hb, idx, "amp"), lambda: qm.pure_state_amplitude(mu, cov, kinds[(q + r) % 6](idx), hbar=hb), got[idx], tol=1e-8, data=(mu, cov))
                    ctx.count(traces=1)
            ctx.true((n, name, hb, "inputs"), lambda: np.array_equal(mu, keep[0]) and np.array_equal(cov, keep[1]))


def bright(n):
    """(name, mu, cov, pure) with more than twenty photons in some mode."""
    S = g.passive(g.unitary(n, 3)) @ g.sq([1.4 * (-1) ** i for i in range(n)])
    a = np.zeros(2 * n)
    a[0], a[n] = 8.0, -6.0
    b = np.zeros(2 * n)
    b[n - 1], b[2 * n - 1] = 4.0, 8.0
    yield "coh", a, np.eye(2 * n), True
    yield "coh last", b, np.eye(2 * n), True
    yield "sqz+d", 0.4 * a, S @ S.T, True
    yield "sqz", 0 * a, S @ S.T, True
    yield "hot", 0 * a, 41.0 * np.eye(2 * n), False
    m, L = g.lossy(0.8 * a, S @ S.T, [0.7] * n)
    yield "lossy+d", m, L, False


@unit(UNITS, quick=[dict(n=1), dict(n=2), dict(n=3)])
def many(ctx, n):
    """Photon numbers beyond the factorials of 64-bit integers (21! and more) in one of the modes."""
    from thewalrus import quantum as qm

    for q, (name, mu0, cov0, ispure) in enumerate(bright(n)):
        hb = HB[q % 4]
        mu, cov = g.to_hbar(mu0, cov0, hb)
        if n == 1:
            D = 28
            rho, tr = g.dm_lattice(mu0, cov0, D)
            ctx.count(states=rho.size, transitions=tr, traces=2)
            P = np.diag(rho).real
            ctx.eq((name, hb, "dm"), lambda: qm.density_matrix(mu, cov, cutoff=D, hbar=hb), rho, tol=1e-8, scale=1.0, data=(mu, cov))
            ctx.eq((name, hb, "probs"), lambda: qm.probabilities(mu, cov, D, hbar=hb), P, tol=1e-6, scale=1.0, data=(mu, cov))
            ix = (0, 1, 20, 21, 22, 25)
            for k in ix:
                for b in ix:
                    ctx.eq((name, hb, k, b), lambda: qm.density_matrix_element(mu, cov, [k], [b], hbar=hb), rho[b, k], tol=1e-6, scale=1.0, data=(mu, cov))
                    ctx.count(traces=1)
            if ispure:
                got = np.asarray(qm.state_vector(mu, cov, cutoff=D, hbar=hb))
                ctx.eq((name, hb, "sv"), lambda: np.outer(got, got.conj()), rho, tol=1e-8, scale=1.0, data=(mu, cov))
                for k in ix + (27,):
                    ctx.eq((name, hb, k, "amp"), lambda: qm.pure_state_amplitude(mu, cov, [k], hbar=hb), got[k], tol=1e-6, scale=1.0, data=(mu, cov))
                    ctx.count(traces=1)
            continue
        top = (21, 22, 24)
        for m in range(n):
            for t in top if n == 2 else (22,):
                k = [(1, 0, 2)[i % 3] for i in range(n)]
                b = [(0, 1, 1)[i % 3] for i in range(n)]
                k[m] = t
                b[m] = t - 2 * (q % 2)
                for x, y in ((k, k), (k, b), (b, k)) if n == 2 else ((k, b),):
                    want = g.dm_element(mu0, cov0, y, x)
                    ctx.eq((n, name, hb, tuple(x), tuple(y)), lambda: qm.density_matrix_element(mu, cov, x, y, hbar=hb), want, tol=1e-6, scale=1.0, data=(mu, cov))
                    ctx.count(traces=1)
                if ispure:
                    w = math.sqrt(max(0.0, g.dm_element(mu0, cov0, k, k).real))
                    ctx.eq((n, name, hb, tuple(k), "amp"), lambda: abs(qm.pure_state_amplitude(mu, cov, k, hbar=hb)), w, tol=1e-6, scale=1.0, data=(mu, cov))
        if n == 2:
            for m in range(2):
                w = np.array([[g.dm_element(mu0, cov0, *[[22, x] if m == 0 else [x, 22] for x in (i, j)]) for j in range(3)] for i in range(3)])
                ctx.eq((n, name, hb, m, "ps"), lambda: qm.density_matrix(mu, cov, post_select={m: 22}, cutoff=3, hbar=hb), w, tol=1e-6, scale=1.0, data=(mu, cov))
