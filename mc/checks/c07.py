"""C07: Fock states in linear optics: photon-number and threshold outcome probabilities."""
import itertools
import math

import numpy as np

from mc import alphabet as al
from mc import oracles as orc
from mc.core import unit

PROPERTY = "C07"
LEVEL = "model_checking"
RULE = (
    "states are occupation patterns, transitions applications of one transformed creation operator; for every input "
    "pattern and transfer matrix in the bounds the reference evolves the Fock state through every step and every "
    "output pattern's probability is compared with fock_prob / fock_threshold_prob (one trace per compared outcome)"
)
ASSUMPTIONS = ["transfer matrices come from a fixed finite alphabet of unitary, lossy and non-unitary matrices"]
UNITS = []


def unitaries(m):
    out = [("ident", np.eye(m)), ("cyc", np.roll(np.eye(m), 1, axis=0))]
    w = np.exp(2j * np.pi / m)
    out.append(("dft", np.array([[w ** (i * j) for j in range(m)] for i in range(m)]) / math.sqrt(m)))
    out.append(("qr", np.linalg.qr(al.mat_gauss(m, m, 3) + 0.5 * np.eye(m))[0]))
    out.append(("real", np.linalg.qr(al.mat_int(m, m, 5) + 0.25 * np.eye(m))[0]))
    return out


@unit(UNITS, quick=[dict(m=1, N=6), dict(m=2, N=6), dict(m=3, N=5), dict(m=4, N=4)],
      thorough=[dict(m=1, N=9), dict(m=2, N=8), dict(m=3, N=7), dict(m=4, N=5), dict(m=5, N=4)])
def photon_number(ctx, m, N):
    """fock_prob for every pair of patterns with the same total up to N; they add up to one for a unitary."""
    from thewalrus._permanent import fock_prob

    mats = unitaries(m) + [("gauss", al.mat_gauss(m, m, 8) * 0.4), ("lossy", 0.8 * unitaries(m)[3][1]), ("int", al.mat_int(m, m, 2))]
    for name, U in mats:
        for tot in range(N + 1):
            pats = list(al.compositions(tot, m))
            for n in pats:
                amps, st, tr = orc.fock_evolve(U, n)
                ctx.count(states=st, transitions=tr)
                s = 0.0
                for k in pats:
                    want = abs(amps.get(k, 0)) ** 2
                    f = (list, tuple, np.array)[(tot + k[0]) % 3]
                    got = ctx.eq((m, name, n, k), lambda: fock_prob(f(n), f(k), U), want, tol=1e-9, scale=max(1.0, want), data=U)
                    ctx.count(traces=1)
                    s += float(got) if got is not None else 0
                if name in dict(unitaries(m)) and ctx.only is None:
                    ctx.eq((m, name, n, "sum"), lambda: s, 1.0, tol=1e-9)


def transfer(mo, mi):
    U = unitaries(mi)
    out = []
    if mo == mi:
        out += U
    for nm, u in U[2:]:
        out.append((nm + "-rows", u[:mo, :]))
    for nm, u in U[3:]:
        eta = np.array([0.35 + 0.2 * i for i in range(mi)])[:mi] % 1.0
        out.append((nm + "-loss", (u * np.sqrt(eta))[:mo, :]))
    B = al.mat_gauss(mo, mi, 11)
    out.append(("sub", 0.9 * B / np.linalg.norm(B, 2)))
    out.append(("zero", np.zeros((mo, mi))))
    Z = U[3][1][:mo, :].copy()
    Z[0, :] = 0
    out.append(("dead-row", Z))
    for j in range(mi):
        # loss in exactly one or in all but one input or output mode
        one = np.ones(mi)
        one[j] = 0.6
        rest = np.full(mi, 0.8)
        rest[j] = 1.0
        for nm, u in (U[0], U[1], U[3]):
            out.append((nm + "-in%d" % j, (u * one)[:mo, :]))
            out.append((nm + "-inrest%d" % j, (u * rest)[:mo, :]))
            out.append((nm + "-out%d" % j, (one[:, None] * u)[:mo, :]))
    for eps in (1e-3, 1e-5, 1e-7):
        out.append(("nearly-lossless%g" % eps, (math.sqrt(1 - eps) * U[3][1])[:mo, :]))
    return out


@unit(UNITS, quick=[dict(mi=1, N=5), dict(mi=2, N=4), dict(mi=3, N=4), dict(mi=4, N=3)],
      thorough=[dict(mi=1, N=7), dict(mi=2, N=6), dict(mi=3, N=6), dict(mi=4, N=4)])
def threshold(ctx, mi, N):
    """fock_threshold_prob for every input pattern, click pattern and output count; the clicks add up to one."""
    from scipy.linalg import sqrtm
    from thewalrus._permanent import fock_threshold_prob

    for mo in range(1, mi + 1):
        for name, T in transfer(mo, mi):
            w, v = np.linalg.eigh(np.eye(mi) - T.conj().T @ T)
            F = (v * np.sqrt(np.clip(w, 0, None))) @ v.conj().T
            W = np.vstack([T, F])
            for n in itertools.product(range(N + 1), repeat=mi):
                if sum(n) > N:
                    continue
                amps, st, tr = orc.fock_evolve(W, n)
                ctx.count(states=st, transitions=tr)
                law = {}
                for k, a in amps.items():
                    d = tuple(int(x > 0) for x in k[:mo])
                    law[d] = law.get(d, 0.0) + abs(a) ** 2
                for d in itertools.product((0, 1), repeat=mo):
                    f = (list, tuple, np.array)[(sum(n) + d[0]) % 3]
                    ctx.eq((mi, mo, name, n, d), lambda: fock_threshold_prob(f(n), f(d), T), law.get(d, 0.0), tol=1e-7, data=T)
                    ctx.count(traces=1)


@unit(UNITS, quick=[dict(m=2, N=13), dict(m=6, N=3), dict(m=8, N=2)], thorough=[dict(m=2, N=18), dict(m=3, N=11), dict(m=6, N=4), dict(m=8, N=3)])
def wide(ctx, m, N):
    """Many photons in few modes and few photons in many modes."""
    from thewalrus._permanent import fock_prob, fock_threshold_prob

    U = unitaries(m)
    for name, u in [U[3], U[4], ("sub", 0.7 * U[3][1])]:
        for n in al.compositions(N, m):
            amps, st, tr = orc.fock_evolve(u, n)
            ctx.count(states=st, transitions=tr)
            s = 0.0
            for k in al.compositions(N, m):
                want = abs(amps.get(k, 0)) ** 2
                got = ctx.eq((m, name, n, k), lambda: fock_prob(n, k, u), want, tol=1e-9, data=u)
                ctx.count(traces=1)
                s += float(got) if got is not None else 0
            if name != "sub" and ctx.only is None:
                ctx.eq((m, name, n, "sum"), lambda: s, 1.0, tol=1e-8)
        if m > 5:
            for mo in (1, m - 2, m):
                T = u[:mo, :]
                F = np.linalg.cholesky(np.eye(m) - T.conj().T @ T + 1e-14 * np.eye(m)).conj().T
                for n in al.compositions(min(N, 2), m):
                    amps, st, tr = orc.fock_evolve(np.vstack([T, F]), n)
                    law = {}
                    for k, a in amps.items():
                        d = tuple(int(x > 0) for x in k[:mo])
                        law[d] = law.get(d, 0.0) + abs(a) ** 2
                    for d in itertools.product((0, 1), repeat=mo):
                        if sum(d) <= 3:
                            ctx.eq((m, mo, name, n, d), lambda: fock_threshold_prob(n, d, T), law.get(d, 0.0), tol=1e-6, data=T)
                            ctx.count(traces=1)


@unit(UNITS)
def forms(ctx):
    """Weak couplings to full relative accuracy, and transfer matrices in every memory layout."""
    from thewalrus._permanent import fock_prob, fock_threshold_prob

    for m in (2, 3, 4):
        U = unitaries(m)[3][1]
        for eps in (1e-2, 1e-4, 1e-6):
            K = np.eye(m) + eps * al.mat_gauss(m, m, 2)  # any matrix is a transfer matrix of fock_prob
            for n in al.compositions(3, m):
                amps, st, tr = orc.fock_evolve(K, n)
                ctx.count(states=st, transitions=tr)
                for k in al.compositions(3, m):
                    # the mode permutation closest to the identity decides the order of the probability
                    order = sum(max(0, a - b) for a, b in zip(n, k))
                    ctx.eq(("weak", m, eps, n, k), lambda: fock_prob(n, k, K), abs(amps.get(k, 0)) ** 2,
                           scale=(4 * eps) ** (2 * order), tol=1e-7, data=K)
                    ctx.count(traces=1)
        for name, T in (("unitary", U), ("rows", U[: m - 1, :]), ("lossy", 0.8 * U), ("real", unitaries(m)[4][1])):
            F = np.linalg.cholesky(np.eye(m) - T.conj().T @ T + 1e-14 * np.eye(m)).conj().T
            mo = len(T)
            for n in itertools.product(range(3), repeat=m):
                if sum(n) > 3:
                    continue
                amps, st, tr = orc.fock_evolve(np.vstack([T, F]), n)
                law, out = {}, {}
                for k, a in amps.items():
                    d = tuple(int(x > 0) for x in k[:mo])
                    law[d] = law.get(d, 0.0) + abs(a) ** 2
                    if not any(k[mo:]):
                        out[k[:mo]] = abs(a) ** 2
                ctx.count(states=st, transitions=tr)
                for lay in al.LAYOUTS:
                    M = al.layout(T, lay)
                    for d in itertools.product((0, 1), repeat=mo):
                        ctx.eq((m, name, n, d, lay), lambda: fock_threshold_prob(n, d, M), law.get(d, 0.0), tol=1e-6)
                        ctx.count(traces=1)
                    if mo == m:
                        for k in al.compositions(sum(n), m):
                            ctx.eq((m, name, n, k, lay, "fock"), lambda: fock_prob(n, k, M), out.get(k, 0.0), tol=1e-6)


@unit(UNITS, quick=[dict(part=k) for k in range(4)])
def many(ctx, part):
    """More photons than the factorials of 64-bit integers, in one and two modes."""
    from thewalrus._permanent import fock_prob, fock_threshold_prob

    if part == 0:
        for k in range(12, 24):
            for nm, U in (("phase", np.array([[np.exp(0.3j)]])), ("loss", np.array([[0.9]]))):
                ctx.eq((k, nm), lambda: fock_prob([k], [k], U), abs(U[0, 0]) ** (2 * k), tol=1e-7, scale=1.0)
            for t in (0.3, 0.6, 0.95):
                for d in (0, 1):
                    q = (1 - t * t) ** k
                    ctx.eq((k, t, d), lambda: fock_threshold_prob([k], [d], np.array([[t]])), 1 - q if d else q, tol=1e-6, scale=1.0)
            for d in (0, 1):
                ctx.eq((k, "lossless", d), lambda: fock_threshold_prob([k], [d], np.array([[1j]])), float(d), tol=1e-6, scale=1.0)
            ctx.count(states=k, traces=10)
        return
    for name, U in (unitaries(2)[3],) if part < 3 else (unitaries(2)[3], ("lossy", 0.8 * unitaries(2)[4][1])):
        for n in ((21, 0), (0, 22), (20, 1), (11, 11)) if part == 3 else [((21, 0), (1, 20)), ((0, 21), (11, 10))][part - 1]:
            W = U
            if part == 3:
                w, v = np.linalg.eigh(np.eye(2) - U.conj().T @ U)
                W = np.vstack([U, (v * np.sqrt(np.clip(w, 0, None))) @ v.conj().T]) if name == "lossy" else U
            amps, st, tr = orc.fock_evolve(W, n)
            ctx.count(states=st, transitions=tr)
            if part < 3:
                for k in al.compositions(sum(n), 2):
                    ctx.eq((name, n, k), lambda: fock_prob(n, k, U), abs(amps.get(k, 0)) ** 2, tol=1e-7, scale=1.0, data=U)
                    ctx.count(traces=1)
                continue
            law = {}
            for k, a in amps.items():
                d = tuple(int(x > 0) for x in k[:2])
                law[d] = law.get(d, 0.0) + abs(a) ** 2
            for d in itertools.product((0, 1), repeat=2):
                ctx.eq((name, n, d), lambda: fock_threshold_prob(n, d, U), law.get(d, 0.0), tol=1e-5, scale=1.0, data=U)
                ctx.count(traces=1)
