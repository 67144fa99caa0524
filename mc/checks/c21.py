"""C21: the law of the photon-number samplers."""
import itertools

import numpy as np

from mc import gauss as g
from mc import rand, weak
from mc.core import unit

PROPERTY = "C21"
LEVEL = "model_checking"
RULE = (
    "states are the executions (paths) of the sampler under a controlled random source: every outcome of every discrete "
    "draw above the pruning weight, and every node of a Gauss-Hermite rule for the normal draws the program depends on; "
    "transitions are the draws made; the law accumulated over all paths is compared outcome by outcome with the "
    "photon-number distribution (one trace per path, all executed on the real code)"
)
ASSUMPTIONS = [
    "the integral over the normal draws is replaced by a Gauss-Hermite (tensor or sparse) rule; its error for the states used is below 1e-4 (1e-3 for three modes in the quick tier) and the allowance 4e-4 (2e-3)",
    "branches with weight below the pruning weight (1e-5 to 1e-4) are accounted as lost mass",
    "normal coordinates that leave the whole discrete tree unchanged at two base points are treated as irrelevant",
    "the sampler draws from numpy's global random functions (the documented seeding interface)",
]
UNITS = []
HB = (2, 1, 0.5, 1.7)


def warm():
    from thewalrus.loop_hafnian_batch import loop_hafnian_batch

    A, D = np.eye(2, dtype=complex), np.ones(2, dtype=complex)
    for r in ([0], [1], [2]):
        for c in (2, 3):
            loop_hafnian_batch(A, D, np.array(r), c)


def rule(n, deep=False):
    if n == 1:
        return lambda d: rand.tensor(d, 12 if deep else 8)
    if n == 2:
        return lambda d: rand.smolyak(d, 4 if deep else (3 if d <= 4 else 2))
    return lambda d: rand.smolyak(d, 3 if deep else 2)


def compare(law, want, slack):
    """None or a message; slack bounds every outcome's error and the total variation distance."""
    err, worst = 0.0, None
    for k in set(want) | {k for k in law if isinstance(k, tuple)}:
        d = abs(law.get(k, 0.0) - want.get(k, 0.0))
        err += d
        if d > slack:
            return "outcome %s has probability %.6g, expected %.6g (allowed error %.2g)" % (k, law.get(k, 0.0), want.get(k, 0.0), slack)
    if err / 2 > 4 * slack:
        return "total variation distance %.3g, allowed %.3g" % (err / 2, 4 * slack)
    return None


def check(ctx, desc, run, want, slack, nodes, prune, conditional, normals, data=None):
    """Explore run and compare its law with want (unnormalised for generate, conditional for state)."""

    def go():
        st = {}
        L = rand.law(run, nodes, prune=prune, stats=st, max_normals=normals if conditional else None)
        ctx.count(states=st["paths"], transitions=st["draws"], traces=st["paths"])
        acc = {k: v for k, v in L.items() if isinstance(k, tuple)}
        room = slack + abs(L.get(rand.Cut, 0.0))
        if conditional:
            tot = sum(acc.values())
            acc = {k[0] if len(k) == 1 else k: v / tot for k, v in acc.items()}
            s = sum(want.values())
            w = {k: v / s for k, v in want.items()}
        else:
            w = want
            rej = 1 - sum(want.values())
            if abs(L.get(-1, 0.0) + L.get(rand.Cut, 0.0) - rej) > 2 * slack + prune * 20:
                return "rejected with probability %.6g, expected %.6g" % (L.get(-1, 0.0), rej)
        return compare(acc, w, room)

    return ctx.true(desc, go, data=data)


PARTS = [dict(part=i) for i in range(8)]


def jobs(thorough):
    """(n, name, mu, cov, hbar, cutoff, prune) for the main exploration."""
    out = []
    for n in (1, 2, 3):
        for q, (name, mu, cov) in enumerate(weak.states(n)):
            hbs = HB if n == 1 else (HB[q % 4], 2) if n == 2 else (HB[q % 4],)
            for hb in dict.fromkeys(hbs):
                c = {1: 9, 2: 7, 3: 6}[n]
                out.append((n, name, mu, cov, hb, c, {1: 1e-7, 2: 2e-5, 3: 1e-4}[n]))
    if thorough:
        for q, (name, mu, cov) in enumerate(weak.states(4)):
            if name.startswith("prod") and q % 5:
                continue
            out.append((4, name, mu, cov, HB[q % 4], 5, 2e-4))
    return out


def cost(j):
    n, name = j[0], j[1]
    simple = name.startswith(("prod", "only", "disp", "thermal"))
    return {1: 1, 2: 2 if simple else 40, 3: 4 if simple else 120, 4: 8 if simple else 400}[n]


def share(js, part, parts=8):
    """Deterministic balanced split."""
    load, mine = [0.0] * parts, []
    for j in sorted(js, key=cost, reverse=True):
        k = load.index(min(load))
        load[k] += cost(j)
        if k == part:
            mine.append(j)
    return mine


@unit(UNITS, quick=PARTS, thorough=PARTS, timeout=800)
def full(ctx, part):
    """Law of hafnian_sample_state and generate_hafnian_sample for every state and hbar, generous cutoff."""
    from thewalrus import samples as sm

    for n, name, mu0, cov0, hb, c, prune in share(jobs(ctx.thorough), part):
        mu, cov = g.to_hbar(mu0, cov0, hb)
        P = weak.pattern_probs(mu0, cov0, c - 1, total=3 * c // 2 + 2)
        t = weak.tail(mu0, cov0, c - 1)
        slack = (4e-4 if n < 3 or ctx.thorough else 2e-3) + t
        nodes = rule(n, ctx.thorough)
        m = None if name in ("vac", "sqz", "tms", "thermal", "only-first", "only-last", "thermal-first") else mu
        kw = dict(hbar=hb, cutoff=c, max_photons=40)
        if n == 1 or hb != 2 or cost((n, name)) < 10:
            check(ctx, (n, name, hb, "generate"), lambda: sm.generate_hafnian_sample(cov, mean=m, **kw), P, slack, nodes, prune, False, None, data=(mu, cov))
        if n == 1 or hb == 2 or n == 3:
            k = 4 * n
            check(ctx, (n, name, hb, "state"), lambda: sm.hafnian_sample_state(cov, 1, mean=m, **kw), P, slack, nodes, prune, True, k, data=(mu, cov))


@unit(UNITS, quick=PARTS, thorough=PARTS, timeout=800)
def limits(ctx, part):
    """Small cutoffs and photon limits: admissible outcomes, their law up to the truncated mass, and rejection."""
    from thewalrus import samples as sm

    js = []
    for n in (1, 2, 3):
        for q, (name, mu, cov) in enumerate(weak.states(n)):
            if n == 1 or name.startswith("prod") or name in ("tms", "only-last", "thermal-first", "pure1"):
                js.append((n, name, mu, cov))
    for q, (n, name, mu0, cov0) in enumerate(sorted(js, key=cost)):
        if q % 8 != part:
            continue
        hb = HB[q % 4]
        mu, cov = g.to_hbar(mu0, cov0, hb)
        nodes = rule(n)
        big = 7
        full_p = weak.pattern_probs(mu0, cov0, big - 1, total=8)
        for mp in (0, 1, 2, 3):
            if cost((n, name)) > 10 and mp not in (1, 2):
                continue
            want = {k: v for k, v in full_p.items() if sum(k) <= mp}
            t = weak.tail(mu0, cov0, big - 1)
            kw = dict(mean=mu, hbar=hb, cutoff=big, max_photons=mp)
            check(ctx, (n, name, hb, "max", mp), lambda: sm.generate_hafnian_sample(cov, **kw), want, (4e-4 if n < 3 else 2e-3) + t, nodes, 3e-5, False, None)
            if n < 3:
                s = sum(want.values())
                check(ctx, (n, name, hb, "max state", mp), lambda: sm.hafnian_sample_state(cov, 1, **kw), want, (6e-4 + 2 * t) / s, nodes, 3e-5, True, 4 * n)
        for c in (1, 2, 3, 4):
            if cost((n, name)) > 10 and c > 2:
                continue
            # the accepted law differs from the distribution below the cutoff by at most the truncated mass
            t = weak.tail(mu0, cov0, c)
            want = {k: v for k, v in full_p.items() if max(k) < c}
            s = sum(want.values())
            kw = dict(mean=mu, hbar=hb, cutoff=c, max_photons=30)

            def support():
                st = {}
                L = rand.law(lambda: sm.hafnian_sample_state(cov, 1, **kw), nodes, prune=3e-5, stats=st, max_normals=4 * n)
                ctx.count(states=st["paths"], transitions=st["draws"], traces=st["paths"])
                acc = {k[0]: v for k, v in L.items() if isinstance(k, tuple)}
                tot = sum(acc.values())
                for k in acc:
                    if any(x < 0 or x >= c for x in k):
                        return "outcome %s outside the Fock cutoff %d" % (k, c)
                return compare({k: v / tot for k, v in acc.items()}, {k: v / s for k, v in want.items()}, (4e-4 if n < 3 else 2e-3) + 2 * t / s + abs(L.get(rand.Cut, 0.0)))

            ctx.true((n, name, hb, "cutoff", c), support, data=(mu, cov))
    if part > 1:
        return
    ctx.true((part, "symmetric cutoff"), lambda: symmetric(ctx, sm, part))


def symmetric(ctx, sm, part):
    """Equal modes are treated alike by the truncation, whatever their position."""
    for c in (1, 2, 3):
        laws = []
        n = 2 + part % 2
        mu, cov = weak.product([0.8] * n, [0.0] * n, [0.0] * n, [0.0] * n)
        st = {}
        L = rand.law(lambda: sm.generate_hafnian_sample(cov, cutoff=c, max_photons=50), rule(n), prune=1e-6, stats=st)
        ctx.count(states=st["paths"], transitions=st["draws"], traces=st["paths"])
        for k, v in L.items():
            if isinstance(k, tuple):
                for p in itertools.permutations(k):
                    if abs(L.get(p, 0) - v) > 1e-6:
                        return "cutoff %d: outcome %s has probability %.6g but %s has %.6g" % (c, k, v, p, L.get(p, 0))
    return None


@unit(UNITS, quick=PARTS[:5], thorough=PARTS[:5], timeout=800)
def several(ctx, part):
    """Joint law of several samples, sequentially and in parallel mode for every order of the tasks."""
    from thewalrus import samples as sm

    todo = []
    for n, name, mu, cov in [(1,) + s for s in weak.states(1)] + [(2,) + s for s in weak.states(2)]:
        if n == 1 and name in ("sqz", "sqz-rot+d", "coh") or name in ("prod(0, 1)", "only-last"):
            todo.append((n, name, mu, cov))
    for q, (n, name, mu0, cov0) in enumerate(todo):
        if q % 5 != part:
            continue
        hb = HB[(q + 1) % 4]
        mu, cov = g.to_hbar(mu0, cov0, hb)
        c = 5
        P = weak.pattern_probs(mu0, cov0, c - 1)
        t = weak.tail(mu0, cov0, c - 1)
        for k in (2, 3) if n == 1 else (2,):
            want = {}
            for combo in itertools.product(P.items(), repeat=k):
                w = float(np.prod([x[1] for x in combo]))
                if w > 1e-7:
                    want[tuple(x[0] for x in combo)] = w
            args = dict(mean=mu, hbar=hb, cutoff=c)
            check(ctx, (n, name, hb, k, "sequential"), lambda: sm.hafnian_sample_state(cov, k, **args), want, 4e-4 + k * 2 * t, rule(n), 1e-6, True, 4 * n * k)
            for order in itertools.permutations(range(k)):

                with rand.schedule(lambda m: [i for i in order if i < m] + list(range(k, m))):
                    check(ctx, (n, name, hb, k, order), lambda: sm.hafnian_sample_state(cov, k, parallel=True, **args), want, 4e-4 + k * 2 * t, rule(n), 1e-6, True, 4 * n * k)


@unit(UNITS, quick=[dict(part=i) for i in range(3)], thorough=[dict(part=i) for i in range(3)], timeout=800)
def graph(ctx, part):
    """hafnian_sample_graph draws from the Gaussian state that encodes the graph with the requested mean photon number."""
    from scipy.optimize import brentq
    from thewalrus import samples as sm

    As = [np.array([[0, 1], [1, 0]]), np.array([[1.0, 0.5], [0.5, 0.2]]), np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0]]),
          np.array([[2.0]]), np.array([[0.3, 1j], [1j, 0.4]]), np.array([[0, 1, 0], [1, 0, 2], [0, 2, 0]])]
    for q, A in enumerate(As):
        if q % 3 != part:
            continue
        n = len(A)
        for nm in (0.15, 0.3) if n < 3 else (0.05, 0.15):
            l = np.linalg.svd(A, compute_uv=False)
            x = brentq(lambda c: np.sum((c * l) ** 2 / (1 - (c * l) ** 2)) - nm, 0, (1 - 1e-12) / l[0])
            B = x * np.asarray(A, dtype=complex)
            from mc import oracles as orc

            c = {1: 9, 2: 7, 3: 5}[n]
            pref = np.sqrt(np.linalg.det(np.eye(n) - B @ B.conj().T).real)
            P = {}
            for k in itertools.product(range(c), repeat=n):
                if sum(k) <= 8:
                    P[k] = float(pref * abs(orc.haf_reps(B, k)) ** 2 / orc.factorials(k))
            t = max(0.0, 1 - sum(P.values()))
            ctx.count(states=len(P))
            check(ctx, (q, nm), lambda: sm.hafnian_sample_graph(A, nm, samples=1, cutoff=c), P, (5e-4 if n < 3 else 2e-3) + 2 * t, rule(n), 5e-5, True, 4 * n, data=A)


@unit(UNITS, quick=[dict(n=n) for n in (1, 2, 3, 4, 5)])
def pieces(ctx, n):
    """The pure part and the noise the sampler draws from add up to the state, however weak the noise."""
    from thewalrus import samples as sm

    if not hasattr(sm, "decompose_cov"):
        return
    sts = [(nm, V) for nm, _, V, _ in g.states(n, disp=False)]
    for k in range(3):
        for r in (0.0, 0.4, 1.0):
            for e in (0.0, 1e-8, 1e-6, 1e-4, 1e-2, 1.0, 1e3):
                for only in (False, True):
                    rs = np.array([r * (1 + 0.1 * i) * (-1) ** i for i in range(n)])
                    S = g.passive(g.unitary(n, k)) @ g.sq(rs) @ g.passive(g.unitary(n, k + 1))
                    nu = np.array([1 + e * (1 + i if not only else i == n - 1) for i in range(n)])
                    sts.append((("noise", k, r, e, only), S @ np.diag(np.tile(nu, 2)) @ S.T))
    for q, (name, V) in enumerate(sts):
        V = (V + V.T) / 2
        for hb in HB:
            cov = V * hb / 2

            def go():
                T, W = sm.decompose_cov(cov, hb)
                top = np.linalg.norm(V, 2) ** 2 * 1e-13 + 1e-9
                d = np.max(np.abs(T + W @ W.T - cov)) / hb
                if not d < top:
                    return "pure part and noise differ from the state by %g" % d
                Om = np.kron([[0, 1], [-1, 0]], np.eye(n))
                d = np.max(np.abs(T @ Om @ T * (2 / hb) ** 2 - Om))
                if not d < 10 * top:
                    return "the first part is not a pure state (%g)" % d
                return None

            ctx.true((n, name, hb), go, data=cov)
            ctx.count(states=1, transitions=2, traces=1)


@unit(UNITS, quick=[dict(n=1, part=0), dict(n=2, part=0), dict(n=2, part=1), dict(n=2, part=2)], timeout=800)
def forms(ctx, n, part):
    """Integer and strided covariance matrices and means, cancelling displacements: the law of the same state."""
    from thewalrus import samples as sm

    for q, (name, m, V, mu0, cov0) in enumerate(weak.formed(n)):
        if n > 1 and q % 3 != part:
            continue
        c = {1: 7, 2: 5}[n]
        P = weak.pattern_probs(mu0, cov0, c - 1)
        t = weak.tail(mu0, cov0, c - 1)
        kw = dict(mean=m, cutoff=c, max_photons=40)
        check(ctx, (n, name, "generate"), lambda: sm.generate_hafnian_sample(V, **kw), P, 4e-4 + t, rule(n), {1: 1e-7, 2: 5e-5}[n], False, None, data=(m, V))
        if n == 1:
            check(ctx, (n, name, "state"), lambda: sm.hafnian_sample_state(V, 1, **kw), P, 4e-4 + t, rule(n), 1e-7, True, 4, data=(m, V))


@unit(UNITS, quick=[dict(n=4), dict(n=5), dict(n=6), dict(n=8), dict(n=11)], timeout=800)
def wide(ctx, n):
    """Four to eleven modes of which few are populated, at every position."""
    from thewalrus import samples as sm

    for q, (name, mu0, cov0) in enumerate(weak.sparse_states(n)):
        hb = HB[q % 4]
        mu, cov = g.to_hbar(mu0, cov0, hb)
        c = 5
        P = weak.product_probs(mu0, cov0, c - 1)
        t = max(0.0, 1 - sum(P.values()))
        kw = dict(mean=mu, hbar=hb, cutoff=c, max_photons=40)
        check(ctx, (n, name, hb), lambda: sm.generate_hafnian_sample(cov, **kw), P, 1e-3 + t, rule(n), 3e-4, False, None, data=(mu, cov))


@unit(UNITS, quick=[dict(n=1), dict(n=2)], timeout=800)
def bright(ctx, n):
    """More photons than the factorials of 64-bit integers can count."""
    from thewalrus import samples as sm

    for q, (name, mu0, cov0, top) in enumerate(weak.bright_states(n)):
        hb = HB[q % 4]
        mu, cov = g.to_hbar(mu0, cov0, hb)
        P = weak.product_probs(mu0, cov0, top - 1, 1e-9)
        t = max(0.0, 1 - sum(P.values()))
        kw = dict(mean=mu, hbar=hb, cutoff=top, max_photons=300)
        check(ctx, (n, name, hb), lambda: sm.generate_hafnian_sample(cov, **kw), P, 1e-3 + t, rule(n), 1e-5, False, None, data=(mu, cov))


@unit(UNITS, quick=PARTS[:4], timeout=800)
def limits_parallel(ctx, part):
    """Parallel mode, states and graphs: the means, hbar, the cutoff and the photon limit reach every task."""
    from thewalrus import samples as sm

    todo = [(n,) + s for n in (1, 2) for s in weak.states(n)]
    todo = [s for s in todo if s[1] in ("sqz", "sqz-rot+d", "coh", "prod(0, 1)", "only-last", "tms")]
    cases = [(s, mp, c, hb) for i, s in enumerate(todo) for mp, c in ((1, 6), (2, 6), (30, 6)) for hb in ((HB[i % 4], HB[(i + 1) % 4]) if s[0] == 1 else (HB[i % 4],))]
    for q, ((n, name, mu0, cov0), mp, c, hb) in enumerate(cases):
        if q % 4 != part:
            continue
        mu, cov = g.to_hbar(mu0, cov0, hb)
        for mean in (mu, None):
            m0 = mu0 if mean is not None else np.zeros(2 * n)
            P = {k: v for k, v in weak.pattern_probs(m0, cov0, c - 1).items() if sum(k) <= mp}
            t, s = weak.tail(m0, cov0, c - 1), sum(P.values())
            kw = dict(mean=mean, hbar=hb, cutoff=c, max_photons=mp)
            with rand.schedule(lambda m: list(range(m))):
                check(ctx, (n, name, hb, mp, c, mean is None), lambda: sm.hafnian_sample_state(cov, 1, parallel=True, **kw), P, (6e-4 + 2 * t) / s, rule(n), 3e-5, True, 4 * n)
    for q, (A, nm) in enumerate(((np.array([[0, 1], [1, 0]]), 0.3), (np.array([[2.0]]), 0.3))):
        if q % 4 != part:
            continue
        n = len(A)
        from mc import oracles as orc

        l2 = nm / n / (1 + nm / n)
        B = A / np.max(A) * np.sqrt(l2)
        pref = np.sqrt(np.linalg.det(np.eye(n) - B @ B))
        for mp, c in ((2, 7), (30, 7)):
            P = {k: float(pref * abs(orc.haf_reps(B, k)) ** 2 / orc.factorials(k)) for k in itertools.product(range(c), repeat=n)}
            t = max(0.0, 1 - sum(P.values()))
            P = {k: v for k, v in P.items() if sum(k) <= mp}
            for par in (False, True):
                with rand.schedule(lambda m: list(range(m))):
                    check(ctx, ("graph", q, nm, mp, c, par), lambda: sm.hafnian_sample_graph(A, nm, samples=1, cutoff=c, max_photons=mp, parallel=par), P, (6e-4 + 2 * t) / sum(P.values()), rule(n), 3e-5, True, 4 * n, data=A)
