"""C31: Monte Carlo estimators have the exact value as mean."""
import itertools

import numpy as np

from mc import alphabet as al
from mc import gauss as g
from mc import oracles as orc
from mc.checks.c29 import Source
from mc.core import unit

PROPERTY = "C31"
LEVEL = "exploration"
RULE = (
    "the normal draws of the estimators are replaced by every combination of the nodes of a product rule that integrates "
    "the estimator exactly (hafnian: polynomial in each draw) or to the stated accuracy (clicks: Gaussian functions); one "
    "state per node executed on the real estimator; coordinates on which the result does not depend keep one node"
)
ASSUMPTIONS = [
    "one sample is a polynomial of degree at most 3 in each draw (hafnian), or smooth enough for 16 to 40 Gauss-Hermite nodes per draw (clicks)",
    "several samples: the result is the average over samples drawn one after the other",
]
UNITS = []

GEN = lambda i: float(np.sin(1.3 * i * i + 0.7 * i + 0.2)) * 1.2 + 0.03


def run(fn, values):
    with Source(lambda i: values[i] if i < len(values) else GEN(i), lambda i: 0.5) as s:
        with np.errstate(all="ignore"):
            r = fn()
    return r, s.nn


def nodes(k):
    x, w = np.polynomial.hermite_e.hermegauss(k)
    return x, w / w.sum()


def mean(ctx, fn, k, limit=10 ** 6):
    """Average of fn over all its normal draws with k nodes per draw that matters."""
    base, n = run(fn, [])
    start = [GEN(i) for i in range(n)]
    other = [GEN(i + 50) for i in range(n)]
    rel = []
    for i in range(n):
        hit = False
        for b in (start, other):
            v = list(b)
            v[i] = v[i] + 1.7
            if np.max(np.abs(np.asarray(run(fn, v)[0]) - np.asarray(run(fn, b)[0]))) > 1e-13:
                hit = True
        if hit:
            rel.append(i)
    if k ** len(rel) > limit:
        raise MemoryError("%d coordinates" % len(rel))
    x, w = nodes(k)
    tot = 0.0
    for ix in itertools.product(range(k), repeat=len(rel)):
        v = list(start)
        weight = 1.0
        for c, j in zip(rel, ix):
            v[c] = x[j]
            weight *= w[j]
        tot = tot + weight * np.asarray(run(fn, v)[0])
    ctx.count(states=k ** len(rel), traces=k ** len(rel))
    return tot


def nonneg(n, k):
    return np.abs(al.sym_real(n, k)) + 0.1 * (np.arange(n)[:, None] + np.arange(n)[None, :])


def haf_cases(n):
    yield "dense", nonneg(n, 1) * (1 - np.eye(n))
    if n <= 4:
        yield "dense with diagonal", nonneg(n, 2)
        yield "int", np.abs(al.sym_int(n, 4, -3, 3)).astype(float)
        yield "ones", np.ones((n, n))
    yield "graph", np.abs(al.sym_int(n, 7, -1, 1)) * (1.0 - np.eye(n))
    cyc = np.roll(np.eye(n), 1, axis=0)
    yield "cycle", np.minimum(cyc + cyc.T, 1.0) * 0.7
    Z = nonneg(n, 5) * (1 - np.eye(n))
    Z[n // 2:, n // 2:] = 0
    yield "half zero", Z


@unit(UNITS, mode="py", quick=[dict(n=2), dict(n=4), dict(n=6)], thorough=[dict(n=2), dict(n=4), dict(n=6), dict(n=8)], timeout=840)
def hafnian(ctx, n):
    """The random hafnian approximation."""
    import thewalrus as tw
    from thewalrus._hafnian import hafnian_approx

    for nm, A in haf_cases(n):
        if n == 8 and nm not in ("cycle",):
            continue
        want = orc.haf(A)
        k = 3 if n <= 4 and nm not in ("dense with diagonal", "ones", "int") else 2
        ctx.eq(("approx", n, nm), lambda: mean(ctx, lambda: tw.hafnian(A, approx=True, num_samples=1), k), want, tol=1e-9)
        if n <= 4:
            ctx.eq(("hafnian_approx", n, nm), lambda: mean(ctx, lambda: hafnian_approx(A, 1), k), want, tol=1e-9)
        if n == 2:
            for m in (2, 3):
                ctx.eq(("approx", n, nm, m), lambda: mean(ctx, lambda: tw.hafnian(A, approx=True, num_samples=m), 2), want, tol=1e-9)
                ctx.eq(("hafnian_approx", n, nm, m), lambda: mean(ctx, lambda: hafnian_approx(A, m), 2), want, tol=1e-9)
        if n > 6:
            continue
        for m in (1, 2, 3, 7) + ((40, 130) if n < 6 else (20,)):
            for fn, lab in ((lambda A, m: tw.hafnian(A, approx=True, num_samples=m), "hafnian"), (hafnian_approx, "hafnian_approx")):
                def split():
                    got, d = run(lambda: fn(A, m), [])
                    if d % m:
                        return None  # samples do not draw the same number of values: only the mean is claimed
                    d //= m
                    parts = [run(lambda: fn(A, 1), [GEN(i) for i in range(j * d, (j + 1) * d)])[0] for j in range(m)]
                    return None if abs(got - np.mean(parts)) <= 1e-9 * max(1, np.max(np.abs(parts))) else "%r, the average of the samples is %r" % (got, np.mean(parts))

                ctx.true(("samples", lab, n, nm, m), split)


def click_law(phn, chn, T):
    N = (T * phn) @ T.conj().T  # <a_j^dag a_i>
    M = (T * chn) @ T.T
    n = len(T)
    N = N.T
    x = 2 * (N.real + M.real) + np.eye(n)
    p = 2 * (N.real - M.real) + np.eye(n)
    xp = 2 * (M.imag + N.imag)
    V = np.block([[x, xp], [xp.T, p]])
    out = np.zeros(n + 1)
    for pat in itertools.product((0, 1), repeat=n):
        out[sum(pat)] += np.real(g.click_prob(np.zeros(2 * n), V, pat))
    return out


def transfers(n_in):
    if n_in == 1:
        yield "ident", np.eye(1)
        yield "loss", np.array([[0.6 * np.exp(0.4j)]])
        yield "split", np.array([[0.6], [0.5j]])
        yield "three", np.array([[0.5], [0.4j], [-0.3 + 0.2j]])
    else:
        yield "ident", np.eye(2)
        yield "unitary", g.unitary(2, 1)
        yield "lossy", 0.8 * g.unitary(2, 3) @ np.diag([0.9, 0.6])
        yield "tall", g.unitary(3, 2)[:, :2] * 0.9
        yield "wide", g.unitary(2, 2)[:1, :]


@unit(UNITS, mode="py", quick=[dict(n_in=1), dict(n_in=2, part=0), dict(n_in=2, part=1), dict(n_in=2, part=2)], thorough=[dict(n_in=1), dict(n_in=2, part=0), dict(n_in=2, part=1), dict(n_in=2, part=2)], timeout=840)
def clicks(ctx, n_in, part=None):
    """Grouped click probabilities."""
    from thewalrus.grouped_click_probabilities import grouped_click_probabilities as gc
    from thewalrus.grouped_click_probabilities import grouped_click_probabilities_squeezed as gs

    if n_in == 1:
        states = [("sq", 0.3), ("sq", -0.2), ("sq", 0.7), ("th", 0.4, 0.0), ("mix", 0.5, 0.3), ("mix", 0.5, -0.3), ("vac", 0.0, 0.0)]
        k = 40
    else:
        states = [("sq", (0.2, 0.3)), ("sq", (0.25, -0.15)), ("mix", (0.2, 0.1), (0.1, -0.08)), ("sq", (0.3, 0.0))]
        k = 12 if ctx.thorough else 9
    for q, (tn, T) in enumerate(transfers(n_in)):
        if part is not None and q % 3 != part:
            continue
        for st in states:
            if st[0] == "sq":
                r = np.atleast_1d(np.array(st[1], dtype=float))
                phn, chn = np.sinh(r) ** 2, 0.5 * np.sinh(2 * r)
                call = lambda m, G: gs(r, T, m, G)[0]
            else:
                phn, chn = np.atleast_1d(np.array(st[1], dtype=float)), np.atleast_1d(np.array(st[2], dtype=float))
                call = lambda m, G: gc(phn, chn, T, m, G)[0]
            want = click_law(phn, chn, np.asarray(T, dtype=complex))

            def go():
                real = np.random.seed
                np.random.seed = lambda *a, **kw: None
                try:
                    return mean(ctx, lambda: call(1, 1), k, 10 ** 5)
                finally:
                    np.random.seed = real

            ctx.eq(("clicks", n_in, tn, st), go, want, tol=1e-7 if n_in == 1 else 2e-6)
            for m, G in ((1, 1), (4, 2), (6, 3), (6, 6), (6, 1), (7, 2), (7, 4), (5, 2)) + (((100, 3), (130, 13), (40, 40)) if n_in == 1 else ()):
                def split():
                    real = np.random.seed
                    np.random.seed = lambda *a, **kw: None
                    try:
                        (p, err), d = run(lambda: (gs(r, T, m, G) if st[0] == "sq" else gc(phn, chn, T, m, G)), [])
                        used = m // G * G
                        per = run(lambda: call(1, 1), [])[1]
                        parts = np.array([run(lambda: call(1, 1), [GEN(i) for i in range(j * per, (j + 1) * per)])[0] for j in range(used)])
                    finally:
                        np.random.seed = real
                    if d not in (used * per, m * per):
                        return None
                    if np.max(np.abs(p - parts.mean(axis=0))) > 1e-9:
                        return "%r, the average of the samples is %r" % (p, parts.mean(axis=0))
                    groups = parts.reshape(G, m // G, -1).mean(axis=1)
                    spread = np.sqrt(np.maximum(0, (groups ** 2).mean(axis=0) - groups.mean(axis=0) ** 2))
                    if np.max(np.abs(np.nan_to_num(err) - spread)) > 1e-6:
                        return "error %r, the spread of the groups is %r" % (err, spread)

                ctx.true(("groups", n_in, tn, st, m, G), split)


@unit(UNITS, mode="strip", quick=[{}], timeout=600)
def compiled(ctx):
    """The compiled estimators: normalised, reproducible by seed, equal to their source for equal seeds."""
    import numba

    from thewalrus._hafnian import hafnian_approx
    from thewalrus.grouped_click_probabilities import grouped_click_probabilities as gc

    @numba.njit
    def seed(x):
        np.random.seed(x)

    for n_in in (1, 2):
        for tn, T in transfers(n_in):
            phn, chn = np.array([0.4, 0.2])[:n_in], np.array([0.3, -0.1])[:n_in]
            for m, G in ((8, 2), (7, 4), (30, 3)):
                for sd in (0, 1, 1990):
                    def go():
                        a, ea = gc(phn, chn, T, m, G, seed=sd)
                        b, eb = gc(phn, chn, T, m, G, seed=sd)
                        if not (np.array_equal(a, b) and np.array_equal(ea, eb, equal_nan=True)):
                            return "not reproducible"
                        if abs(a.sum() - 1) > 1e-9:
                            return "adds up to %r" % a.sum()
                        if np.allclose(a, gc(phn, chn, T, m, G, seed=sd + 1)[0], rtol=0, atol=1e-12):
                            return "does not depend on the seed"
                        src = getattr(gc, "py_func", None)
                        if src is not None:
                            c = src(phn, chn, T, m, G, sd)[0]
                            if np.max(np.abs(a - c)) > 1e-9:
                                return "compiled %r, source %r" % (a, c)

                    ctx.true(("clicks", n_in, tn, m, G, sd), go)
    for n in (2, 4, 6):
        for nm, A in haf_cases(n):
            for m in (1, 3):
                def approx():
                    seed(11)
                    a = hafnian_approx(A, m)
                    seed(11)
                    b = hafnian_approx(A, m)
                    if a != b:
                        return "not reproducible"

                ctx.true(("approx", n, nm, m), approx)


@unit(UNITS, mode="py", quick=[dict(n_in=n) for n in (3, 4, 6)], timeout=840)
def clicks_wide(ctx, n_in):
    """More modes of which one is populated, at every position, with more and fewer detectors than inputs."""
    from thewalrus.grouped_click_probabilities import grouped_click_probabilities as gc
    from thewalrus.grouped_click_probabilities import grouped_click_probabilities_squeezed as gs

    U = g.unitary(n_in + 1, 2)
    Ts = [("perm", np.roll(np.eye(n_in), 1, axis=0)), ("tall", 0.9 * U[:, :n_in]), ("wide", 0.8 * U[: n_in - 1, :n_in])]
    for i in range(n_in):
        e = np.eye(n_in)[i]
        for tn, T in Ts:
            T = np.asarray(T, dtype=complex)
            for st in ("sq", "mix") if (i + len(tn)) % 2 else ("sq",):
                if st == "sq":
                    r = 0.5 * e * (-1) ** i
                    phn, chn = np.sinh(r) ** 2, 0.5 * np.sinh(2 * r)
                    call = lambda m, G: gs(r, T, m, G)[0]
                else:
                    phn, chn = 0.4 * e, -0.25 * e
                    call = lambda m, G: gc(phn, chn, T, m, G)[0]

                def go():
                    real = np.random.seed
                    np.random.seed = lambda *a, **kw: None
                    try:
                        return mean(ctx, lambda: call(1, 1), 24, 10 ** 4)
                    finally:
                        np.random.seed = real

                ctx.eq((n_in, i, tn, st), go, click_law(phn, chn, T), tol=1e-6)
