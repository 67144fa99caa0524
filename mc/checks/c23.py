"""C23: laws of the classical, tabulated, rank-one, thermal and distinguishable samplers."""
import itertools
import math

import numpy as np

from mc import alphabet as al
from mc import gauss as g
from mc import oracles as orc
from mc import rand, weak
from mc.checks.c21 import compare
from mc.core import unit

PROPERTY = "C23"
LEVEL = "model_checking"
RULE = (
    "states are the executions (paths) of the sampler under a controlled random source: every outcome of every discrete "
    "draw above the pruning weight and every Gauss-Hermite node of the normal draws; transitions are the draws; the law "
    "over all paths is compared outcome by outcome with the model distribution (one trace per path on the real code)"
)
ASSUMPTIONS = [
    "integrals over normal draws use Gauss-Hermite rules; allowance 3e-4 (exactly 1e-9 where the program draws only discrete values)",
    "branches below the pruning weight are accounted as lost mass",
    "the samplers draw from numpy's global random functions (the documented seeding interface)",
]
UNITS = []
HB = (2, 1, 0.5, 1.7)


def check(ctx, desc, run, want, slack, nodes=None, prune=1e-9, unwrap=True, data=None, loss=0.0):
    """The law of run() is want up to slack plus the mass lost by pruning; loss bounds the mass want itself lacks."""

    def go():
        st = {}
        L = rand.law(run, nodes, prune=prune, stats=st)
        ctx.count(states=st["paths"], transitions=st["draws"], traces=st["paths"])
        lost = abs(L.pop(rand.Cut, 0.0))
        acc = {}
        for k, v in L.items():
            if unwrap:
                if not isinstance(k, tuple) or len(k) != 1:
                    return "one sample was requested, the result is %r" % (k,)
                k = k[0]
            acc[k] = acc.get(k, 0.0) + v
        lim = slack + lost + loss
        err = 0.0
        for k in set(want) | set(acc):
            d = abs(acc.get(k, 0.0) - want.get(k, 0.0))
            err += d
            if d > lim:
                return "outcome %s has probability %.7g, expected %.7g (allowed error %.2g)" % (k, acc.get(k, 0.0), want.get(k, 0.0), lim)
        if err / 2 > 4 * lim:
            return "total variation distance %.3g, allowed %.3g" % (err / 2, 4 * lim)

    return ctx.true(desc, go, data=data)


def classical_states(n):
    """States whose covariance is at least the vacuum's."""
    out = []
    z = np.zeros(n)
    nb = np.array([0.2, 0.05, 0.3][:n])
    d = np.array([0.3 + 0.2j, -0.4j, 0.25][:n])
    out.append(("vac",) + weak.product(z, z, z, z))
    out.append(("coh",) + weak.product(z, z, z, d))
    out.append(("coh-last",) + weak.product(z, z, z, [0] * (n - 1) + [0.5 - 0.2j]))
    out.append(("thermal",) + weak.product(z, z, nb, z))
    out.append(("thermal-first",) + weak.product(z, z, [0.25] + [0] * (n - 1), z))
    out.append(("thermal+d",) + weak.product(z, z, nb, d))
    if n == 1:
        mu, V = weak.product([0.2], [0.7], [0.4], [0.3])
        out.append(("sqth+d", mu, V))
        return out
    for k in (1, 2):
        U = g.passive(g.unitary(n, k))
        mu, V = weak.product([0.15, 0, 0.1][:n], 0.4 * np.arange(n), nb + 0.2, d * (k - 1))
        out.append(("mix%d" % k, U @ mu, U @ V @ U.T))
    mu, V = weak.product(z, z, [0] * (n - 1) + [0.35], z)
    U = g.passive(g.unitary(n, 2))
    out.append(("rank1-noise", mu, U @ V @ U.T))
    return out


def rule(d):
    if d <= 2:
        return rand.tensor(d, 12)
    if d <= 4:
        return rand.smolyak(d, 4)
    return rand.smolyak(d, 3)


@unit(UNITS, quick=[dict(n=1, part=0, parts=1), dict(n=2, part=0, parts=2), dict(n=2, part=1, parts=2), dict(n=3, part=0, parts=2), dict(n=3, part=1, parts=2)],
      thorough=[dict(n=n, part=k, parts=3, full=True) for n in (1, 2, 3) for k in range(3)])
def classical(ctx, n, part, parts, full=False):
    """hafnian_ and torontonian_sample_classical_state for every classical state and hbar."""
    from thewalrus import samples as sm

    for q, (name, mu0, cov0) in enumerate(classical_states(n)):
        if q % parts != part:
            continue
        top = {1: 9, 2: 6, 3: 4}[n]
        P = weak.pattern_probs(mu0, cov0, top, total=top + 2)
        loss = 1 - sum(P.values())
        C = {k: g.click_prob(mu0, cov0, k) for k in itertools.product((0, 1), repeat=n)}
        for hb in HB if n == 1 or full else (HB[q % 4],):
            mu, cov = g.to_hbar(mu0, cov0, hb)
            m = None if not np.any(mu) and q % 2 else mu
            pr = {1: 1e-8, 2: 1e-5, 3: 1e-4}[n] * (0.1 if full else 1)
            if n < 3 or ctx.thorough or q % 2 == 0:
                check(ctx, (n, name, hb, "hafnian"), lambda: sm.hafnian_sample_classical_state(cov, 1, mean=m, hbar=hb), P, 1e-3 if n > 1 else 2e-4, rule, pr, data=(mu, cov), loss=loss)
                if hb == 2:
                    check(ctx, (n, name, "cutoff"), lambda: sm.hafnian_sample_classical_state(cov, 1, m, 2, 1e-7, 3), P, 3e-4, rule, pr, loss=loss)
            check(ctx, (n, name, hb, "torontonian"), lambda: sm.torontonian_sample_classical_state(cov, 1, mean=m, hbar=hb), C, 4e-4, rule, pr, data=(mu, cov))
            if hb == 2:
                check(ctx, (n, name, "default"), lambda: sm.torontonian_sample_classical_state(cov, 1, m), C, 4e-4, rule, pr)
        if n == 1 and name == "thermal+d":
            for hb in (2, 0.5):
                mu, cov = g.to_hbar(mu0, cov0, hb)
                pairs = {(a, b): P[a] * P[b] for a in P for b in P if P[a] * P[b] > 1e-9}
                check(ctx, (n, name, hb, "two"), lambda: sm.hafnian_sample_classical_state(cov, 2, mean=mu, hbar=hb), pairs, 1e-3, lambda d: rand.smolyak(d, 4) if d else [], 1e-5, unwrap=False, loss=2 * loss)
    # rejections
    for name, mu0, cov0 in weak.states(n):
        quantum = np.linalg.eigvalsh(cov0)[0] < 1 - 1e-6
        for hb in HB:
            mu, cov = g.to_hbar(mu0, cov0, hb)
            if quantum:
                ctx.raises((n, name, hb, "quantum"), lambda: sm.hafnian_sample_classical_state(cov, 1, hbar=hb), ValueError)
                ctx.raises((n, name, hb, "quantum t"), lambda: sm.torontonian_sample_classical_state(cov, 1, hbar=hb), ValueError)
    I = np.eye(2 * n)
    ctx.raises((n, "mean shape"), lambda: sm.hafnian_sample_classical_state(I, 1, mean=np.zeros(2 * n + 1)), ValueError)
    ctx.raises((n, "mean shape half"), lambda: sm.hafnian_sample_classical_state(I, 1, mean=np.zeros(n)), ValueError)
    ctx.raises((n, "mean shape 2d"), lambda: sm.torontonian_sample_classical_state(I, 1, mean=np.zeros((1, 2 * n))), ValueError)


@unit(UNITS)
def tabulated(ctx):
    """photon_number_sampler for every tensor, placeholder and sample count."""
    from thewalrus import samples as sm

    for modes in (1, 2, 3):
        for cut in (1, 2, 3, 4) if modes < 3 else (1, 2, 3):
            shape = (cut,) * modes
            tens = []
            size = cut ** modes
            for k in range(4):
                w = np.array([al.ent(0, 9, 91, k, i) for i in range(size)], dtype=float) + (0.5 if k == 0 else 0)
                if w.sum() == 0:
                    w[0] = 1
                tens.append(("w%d" % k, (w / w.sum()).reshape(shape)))
                tens.append(("sub%d" % k, (0.7 * w / w.sum()).reshape(shape)))
            for i in range(size):
                w = np.zeros(size)
                w[i] = 1.0
                tens.append(("point%d" % i, w.reshape(shape)))
            tens.append(("above", np.full(shape, (1 + 3e-16) / size)))
            tens.append(("rounded", np.full(shape, np.nextafter(1.0, 2) / size * (1 + 1e-15))))
            tens.append(("big", np.full(shape, 2.0)))
            tens.append(("fortran", np.asfortranarray(np.arange(1, size + 1).reshape(shape) / (size * (size + 1) / 2))))
            tens.append(("transposed", (np.arange(1, size + 1).reshape(shape) / (size * (size + 1))).T))
            for name, p in tens:
                tot = p.sum()
                want = {k: float(p[k] / tot) for k in itertools.product(range(cut), repeat=modes) if p[k] > 0}
                check(ctx, (modes, cut, name), lambda: sm.photon_number_sampler(p, 1), want, 1e-9, data=p)
                if size <= 9 and modes < 3:
                    w2 = {(a, b): x * y for a, x in want.items() for b, y in want.items()}
                    check(ctx, (modes, cut, name, 2), lambda: sm.photon_number_sampler(p, 2, out_of_bounds=False), w2, 1e-9, unwrap=False)
                if tot <= 1 + 1e-9:
                    rest = max(0.0, 1 - tot)
                    for ph in (-1, "over", True, 0, (9,) * modes, None) if cut < 4 else (-1,):
                        raw = {k: float(p[k]) for k in want}
                        if ph is not None and not isinstance(ph, bool) and ph == 0:
                            continue  # 0 equals False: documented to mean renormalization only for False itself
                        w3 = dict(raw)
                        key = rand.freeze(ph)
                        if rest > 1e-12:
                            w3[key] = w3.get(key, 0.0) + rest
                        check(ctx, (modes, cut, name, "oob", ph), lambda: sm.photon_number_sampler(p, 1, out_of_bounds=ph), w3, 1e-8)
    ctx.eq("none requested", lambda: len(sm.photon_number_sampler(np.array([0.5, 0.5]), 0)), 0)


@unit(UNITS, quick=[dict(part=k) for k in range(3)], thorough=[dict(part=k, full=True) for k in range(3)])
def rank_one(ctx, part, full=False):
    """hafnian_sample_graph_rank_one: patterns of the one-squeezer state."""
    from thewalrus import samples as sm

    Gs = [np.array([1.0]), np.array([2.0, 1.0]), np.array([1.0, 0.0]), np.array([0.3, -0.5]), np.array([1, 2]), np.array([1.0, 1j]),
          np.array([0.2 + 0.1j, -0.4, 0.3j]), np.array([1.0, 1.0, 1.0]), np.array([0.0, 0.0, 3.0]), np.array([1, 0, 1])]
    for q, G in enumerate(Gs):
        if q % 3 != part:
            continue
        n = len(G)
        for nm in (0.0, 0.05, 0.3, 0.8) if n < 3 or full else (0.0, 0.1, 0.3):
            t = math.sqrt(nm / (1 + nm))
            B = t * np.outer(G, G) / np.sum(np.abs(G) ** 2)
            top = {1: 40, 2: 14, 3: 8}[n] if nm > 0.1 else 8
            P = {}
            for k in itertools.product(range(top + 1), repeat=n):
                if sum(k) <= top:
                    p = math.sqrt(1 - t * t) * abs(orc.haf_reps(B, k)) ** 2 / orc.factorials(k)
                    if p > 1e-15:
                        P[k] = float(p)
            ctx.count(states=len(P))
            loss = max(0.0, 1 - sum(P.values()))
            pr = {1: 1e-8, 2: 1e-6, 3: 1e-5}[n] * (0.1 if full else 1)
            before = G.copy()
            check(ctx, (q, nm), lambda: sm.hafnian_sample_graph_rank_one(G, nm), P, 1e-6, prune=pr, data=G, loss=loss)
            check(ctx, (q, nm, "scaled"), lambda: sm.hafnian_sample_graph_rank_one(3 * G, nm, samples=1), P, 1e-6, prune=pr, data=G, loss=loss)
            ctx.true((q, nm, "argument"), lambda: bool(np.array_equal(G, before)))
            if n < 3 and nm in (0.0, 0.05):
                w2 = {(a, b): x * y for a, x in P.items() for b, y in P.items() if x * y > 1e-12}
                check(ctx, (q, nm, 2), lambda: sm.hafnian_sample_graph_rank_one(G, nm, 2), w2, 1e-6, prune=1e-6, unwrap=False, loss=2 * loss)


@unit(UNITS, quick=[dict(n=1), dict(n=2), dict(n=3)], thorough=[dict(n=1, full=True), dict(n=2, full=True), dict(n=3, full=True)])
def thermal(ctx, n, full=False):
    """generate_thermal_samples: photon numbers of thermal modes behind the interferometer."""
    from thewalrus import csamples as cs

    lss = {1: [[0.0], [0.2], [0.35]], 2: [[0.0, 0.0], [0.0, 0.25], [0.1, 0.2]], 3: [[0.0, 0.0, 0.2], [0.05, 0.1, 0.15]]}[n]
    Os = [("id", np.eye(n)), ("flip", np.eye(n)[::-1].copy())]
    for k in (1, 2, 3):
        U = g.unitary(n, k)
        Os.append(("u%d" % k, U))
        q, _ = np.linalg.qr(al.mat_int(n, n, k) + 0.5 * np.eye(n))
        Os.append(("o%d" % k, q))
    for ls in lss:
        nb = np.array(ls) / (1 - np.array(ls))
        for name, O in Os:
            if n == 3 and name in ("u3", "o3", "u1"):
                continue
            N = O @ np.diag(nb) @ O.conj().T  # <a_i a_j^*> of the field amplitudes
            V = 2 * np.block([[N.real, -N.imag], [N.imag, N.real]]) + np.eye(2 * n)
            top = {1: 12, 2: 6, 3: 4}[n]
            P = weak.pattern_probs(np.zeros(2 * n), V, top, total=top + 1)
            loss = 1 - sum(P.values())
            check(ctx, (n, ls, name), lambda: cs.generate_thermal_samples(np.array(ls), O), P, {1: 1e-4, 2: 1e-3, 3: 3e-3}[n], rule, {1: 1e-8, 2: 1e-5, 3: 1e-4}[n] * (0.1 if full else 1), data=(ls, O), loss=loss)
            if n == 1 and name in ('u1', 'flip'):
                pairs = {(a, b): P[a] * P[b] for a in P for b in P if P[a] * P[b] > 1e-9}
                check(ctx, (n, ls, name, 2), lambda: cs.generate_thermal_samples(np.array(ls), O, num_samples=2), pairs, 1e-3, lambda d: rand.smolyak(d, 4) if d else [], 1e-5, unwrap=False, loss=2 * loss)
    # end to end: rescale a positive semidefinite graph, then sample
    for k in range(3):
        Bm = al.mat_int(n, n, k) + 0.5 * np.eye(n)
        A = Bm @ Bm.T
        if n == 3:
            continue
        for nm in (0.1, 0.3):
            from scipy.optimize import brentq

            l = np.linalg.eigvalsh(A).clip(0)
            x = brentq(lambda c: np.sum(c * l / (1 - c * l)) - nm, 0, (1 - 1e-10) / l[-1])
            N = np.linalg.inv(np.eye(n) - x * A) @ (x * A)
            V = 2 * np.kron(np.eye(2), N) + np.eye(2 * n)
            top = {1: 14, 2: 7}[n]
            P = weak.pattern_probs(np.zeros(2 * n), V, top, total=top + 1)
            ls, O = cs.rescale_adjacency_matrix_thermal(A, nm)
            check(ctx, (n, k, nm, "graph"), lambda: cs.generate_thermal_samples(ls, O), P, 1e-3, rule, 1e-5, loss=1 - sum(P.values()), data=A)


def dist_law(T, rs, cut, prune=1e-13):
    """Law of distinguishable squeezers: convolution over inputs of routed pair-number laws (below the cutoff, renormalized)."""
    M, K = T.shape
    total = {(0,) * M: 1.0}
    p2 = np.abs(T) ** 2
    for k in range(K):
        t2 = math.tanh(rs[k]) ** 2
        pn = np.zeros(cut)
        v = 1 / math.cosh(rs[k])
        for m in range(0, (cut + 1) // 2):
            if 2 * m < cut:
                pn[2 * m] = v
            v *= t2 * (2 * m + 1) / (2 * m + 2)
        pn /= pn.sum()
        one = {}
        lostp = max(0.0, 1 - p2[:, k].sum())
        for m in range(cut):
            if pn[m] < prune:
                continue
            for c in al.compositions(m, M + 1):
                w = pn[m] * math.factorial(m) / orc.factorials(c) * lostp ** c[-1] * float(np.prod([p2[i, k] ** c[i] for i in range(M)]))
                if w > prune:
                    one[c[:-1]] = one.get(c[:-1], 0.0) + w
        new = {}
        for a, x in total.items():
            for b, y in one.items():
                if x * y > prune:
                    s = tuple(i + j for i, j in zip(a, b))
                    new[s] = new.get(s, 0.0) + x * y
        total = new
    return total


@unit(UNITS, quick=[dict(n=1), dict(n=2), dict(n=3)], thorough=[dict(n=1), dict(n=2), dict(n=3)])
def distinguishable(ctx, n):
    """sample, number_means and number_cov of distinguishable squeezers."""
    from thewalrus.quantum import distinguishable_squeezers as ds

    Ts = [("id", np.eye(n, dtype=complex)), ("half", 0.7 * np.eye(n, dtype=complex)), ("flip", np.eye(n)[::-1].copy())]
    for k in (1, 2, 3):
        U = g.unitary(n, k)
        Ts.append(("u%d" % k, U))
        Ts.append(("lossy%d" % k, U * np.array([0.9, 0.5, 0.8][:n]) @ g.unitary(n, k + 3)))
    if n > 1:
        D = np.eye(n, dtype=complex)
        D[0, 0] = 0.6
        Ts.append(("loss-first", g.unitary(n, 2) @ D))
        D = np.eye(n)
        D[-1, -1] = 0.0
        Ts.append(("blocked-last", D))
    rss = [[0.0] * n, [0.3] * n, [0.2, -0.35, 0.1][:n], [0.0] * (n - 1) + [0.5]]
    for name, T in Ts:
        for rs in rss:
            for cut in (1, 2, 5, 6) if n < 3 else (3, 5):
                P = dist_law(T, rs, cut)
                check(ctx, (n, name, rs, cut), lambda: ds.sample(T, np.array(rs), n_samples=1, input_cutoff=cut), P, 1e-6, prune={1: 1e-10, 2: 1e-7, 3: 3e-6}[n], data=(T, rs))
            if n == 1:
                P = dist_law(T, rs, 5)
                w2 = {(a, b): x * y for a, x in P.items() for b, y in P.items() if x * y > 1e-12}
                check(ctx, (n, name, rs, "two"), lambda: ds.sample(T, np.array(rs), n_samples=2, input_cutoff=5), w2, 1e-6, prune=1e-8, unwrap=False)
            # moments by enumeration of the routed photons
            p2 = np.abs(T) ** 2
            mean, cov = np.zeros(n), np.zeros((n, n))
            for k in range(n):
                nk = math.sinh(rs[k]) ** 2
                fk = 3 * nk ** 2 + nk  # <n(n-1)> of squeezed vacuum
                mean += nk * p2[:, k]
                cov += (fk - nk ** 2) * np.outer(p2[:, k], p2[:, k])
            cov += np.diag(mean)
            ctx.eq((n, name, rs, "means"), lambda: ds.number_means(T, np.array(rs)), mean, tol=1e-10)
            ctx.eq((n, name, rs, "cov"), lambda: ds.number_cov(T, np.array(rs)), cov, tol=1e-10)
    if n == 1:
        check(ctx, "default cutoff", lambda: ds.sample(np.array([[0.8]]), np.array([0.3]), 1), dist_law(np.array([[0.8]]), [0.3], 50), 1e-6, prune=1e-9)


@unit(UNITS, quick=[dict(n=1, part=0, parts=1)] + [dict(n=2, part=k, parts=4) for k in range(4)])
def forms(ctx, n, part, parts):
    """Integer and strided arguments, lists and cancelling displacements: the law of the same state."""
    from thewalrus import csamples as cs
    from thewalrus import samples as sm
    from thewalrus.quantum import distinguishable_squeezers as ds

    top = {1: 9, 2: 6}[n]
    a, b = [(f[0],) + f for f in weak.formed(n) if f[0].startswith("int")], classical_states(n)[-1]
    todo = [f[1:] for f in a]
    nm, m0, V0 = classical_states(n)[5]
    for lay in al.LAYOUTS[1:]:
        todo.append((lay, al.layout(m0, lay), al.layout(V0, lay), m0, V0))
    C3 = 3 * np.eye(2 * n, dtype=int)
    todo.append(("int thermal", None, np.eye(2 * n, dtype=int) + (C3 - np.eye(2 * n, dtype=int)) // 2, np.zeros(2 * n), 2.0 * np.eye(2 * n)))
    for nm, d in (("sum0", [0.4 * (-1) ** i for i in range(2 * n)]), ("xp0", [0.3] * n + [-0.3] * n), ("lastp", [0.0] * (2 * n - 1) + [0.6])):
        todo.append((nm, np.array(d), b[2], np.array(d), b[2]))
    for q, (name, m, V, mu0, cov0) in enumerate(todo):
        if q % parts != part:
            continue
        P = weak.pattern_probs(mu0, cov0, top, total=top + 2)
        C = {k: g.click_prob(mu0, cov0, k) for k in itertools.product((0, 1), repeat=n)}
        pr = {1: 1e-7, 2: 4e-5}[n]
        check(ctx, (n, name, "hafnian"), lambda: sm.hafnian_sample_classical_state(V, 1, mean=m), P, 1e-3, rule, pr, data=(m, V), loss=1 - sum(P.values()))
        check(ctx, (n, name, "torontonian"), lambda: sm.torontonian_sample_classical_state(V, 1, mean=m), C, 4e-4, rule, pr, data=(m, V))
    if part:
        return
    U, ls = g.unitary(n, 2), np.array([0.2, 0.1][:n])
    nb = ls / (1 - ls)
    N = U @ np.diag(nb) @ U.conj().T
    W = 2 * np.block([[N.real, -N.imag], [N.imag, N.real]]) + np.eye(2 * n)
    P = weak.pattern_probs(np.zeros(2 * n), W, top, total=top + 1)
    for lay in al.LAYOUTS:
        check(ctx, (n, "thermal", lay), lambda: cs.generate_thermal_samples(al.layout(ls, lay), al.layout(U, lay)), P, 1e-3, rule, {1: 1e-7, 2: 4e-5}[n], loss=1 - sum(P.values()))
    T, rs = 0.8 * U, np.array([0.3, -0.2][:n])
    D = dist_law(T, rs, 5)
    for lay in al.LAYOUTS:
        check(ctx, (n, "dist", lay), lambda: ds.sample(al.layout(T, lay), al.layout(rs, lay), n_samples=1, input_cutoff=5), D, 1e-6, prune={1: 1e-10, 2: 1e-7}[n])
    G = np.array([0.3, -0.5j][:n])
    if n == 1:
        G = G.real
    t = math.sqrt(0.2 / 1.2)
    B = t * np.outer(G, G) / np.sum(np.abs(G) ** 2)
    R = {k: float(math.sqrt(1 - t * t) * abs(orc.haf_reps(B, k)) ** 2 / orc.factorials(k)) for k in itertools.product(range(15), repeat=n) if sum(k) <= 14}
    for lay in al.LAYOUTS:
        check(ctx, (n, "rank one", lay), lambda: sm.hafnian_sample_graph_rank_one(al.layout(G, lay), 0.2), R, 1e-6, prune=1e-6, loss=max(0.0, 1 - sum(R.values())))
    for lay in al.LAYOUTS[1:]:
        p = (np.arange(1.0, 3 ** n + 1).reshape((3,) * n)) / 100
        want = {k: float(p[k] / p.sum()) for k in itertools.product(range(3), repeat=n)}
        check(ctx, (n, "table", lay), lambda: sm.photon_number_sampler(al.layout(p, lay), 1), want, 1e-9)


@unit(UNITS, quick=[dict(n=n) for n in (4, 5, 6, 8)])
def wide(ctx, n):
    """More modes, few of them populated: every position."""
    from thewalrus import csamples as cs
    from thewalrus import samples as sm
    from thewalrus.quantum import distinguishable_squeezers as ds

    I = np.eye(n)
    for i in range(n):
        a = np.zeros(n, dtype=complex)
        a[i], a[(i + 1) % n], a[(i + 3) % n] = 0.4 - 0.3j, -0.3, 0.2j
        nb = np.zeros(n)
        nb[i] = 0.25
        for name, (mu0, cov0) in (("coh", weak.product(np.zeros(n), np.zeros(n), np.zeros(n), a)), ("th", weak.product(np.zeros(n), np.zeros(n), nb, np.zeros(n)))):
            hb = HB[i % 4]
            mu, cov = g.to_hbar(mu0, cov0, hb)
            P, C = weak.product_probs(mu0, cov0, 6), weak.product_clicks(mu0, cov0)
            check(ctx, (n, i, name, "hafnian"), lambda: sm.hafnian_sample_classical_state(cov, 1, mean=mu, hbar=hb), P, 1e-3, rule, 1e-5, loss=max(0.0, 1 - sum(P.values())), data=(mu, cov))
            check(ctx, (n, i, name, "torontonian"), lambda: sm.torontonian_sample_classical_state(cov, 1, mean=mu, hbar=hb), C, 1e-3, rule, 1e-5, data=(mu, cov))
        ls = np.zeros(n)
        ls[i] = 0.2
        P = weak.product_probs(*weak.product(np.zeros(n), np.zeros(n), np.roll(ls / (1 - ls), 1), np.zeros(n)), 8)
        check(ctx, (n, i, "thermal"), lambda: cs.generate_thermal_samples(ls, np.roll(I, 1, axis=0)), P, 1e-3, rule, 1e-6, loss=max(0.0, 1 - sum(P.values())))
        rs = np.zeros(n)
        rs[i] = 0.3
        T = np.roll(I, 1, axis=0) * 0.8
        check(ctx, (n, i, "dist"), lambda: ds.sample(T, rs, n_samples=1, input_cutoff=5), dist_law(T, rs, 5), 1e-6, prune=1e-8)
        G = np.zeros(n)
        G[i], G[(i + 2) % n] = 0.5, -0.3
        t = math.sqrt(0.2 / 1.2)
        B = t * np.outer(G, G) / np.sum(np.abs(G) ** 2)
        R = {}
        for x in range(13):
            for y in range(13 - x):
                k = [0] * n
                k[i] += x
                k[(i + 2) % n] += y
                R[tuple(k)] = float(math.sqrt(1 - t * t) * abs(orc.haf_reps(B[np.ix_([i, (i + 2) % n], [i, (i + 2) % n])], (x, y))) ** 2 / orc.factorials(k))
        check(ctx, (n, i, "rank one"), lambda: sm.hafnian_sample_graph_rank_one(G, 0.2), R, 1e-6, prune=1e-6, loss=max(0.0, 1 - sum(R.values())))
    p = np.array([1.0 + (7 * j) % 11 for j in range(2 ** n)]).reshape((2,) * n)
    want = {k: float(p[k] / p.sum()) for k in itertools.product(range(2), repeat=n)}
    check(ctx, (n, "table"), lambda: sm.photon_number_sampler(p, 1), want, 1e-9)
