"""C19: validity, purity, classicality, fidelity, entropies, entanglement."""
import itertools
import math

import numpy as np

from mc import alphabet as al
from mc import gauss as g
from mc.checks.c18 import gate_words
from mc.core import unit

PROPERTY = "C19"
LEVEL = "model_checking"
RULE = (
    "states are the distinct symplectic matrices reached by breadth-first products of gates, dressed with every pattern of "
    "symplectic eigenvalues below, at and above the vacuum level; every predicate and entropy is compared for each (traces), "
    "all bipartitions and argument containers are enumerated, fidelities are compared for all pairs of the state alphabet"
)
ASSUMPTIONS = [
    "predicates are compared only when the state is at least 1e-4 away from the boundary or exactly on it",
    "fidelities agree up to 1e-6 and may carry a rounding-size imaginary part",
]
UNITS = []
HB = (2, 1, 0.5, 1.7)


def ent_g(nu):
    nu = max(nu, 1.0)
    if nu - 1 < 1e-12:
        return 0.0
    a, b = (nu + 1) / 2, (nu - 1) / 2
    return a * math.log(a) - b * math.log(b)


def spectrum(V):
    """Symplectic eigenvalues through the Hermitian form of V^(1/2) i Omega V^(1/2)."""
    n = len(V) // 2
    w, v = np.linalg.eigh(V)
    R = (v * np.sqrt(w)) @ v.T
    e = np.linalg.eigvalsh(1j * R @ g.om(n) @ R)
    return np.sort(e)[n:]


NUS = (0.5, 1.0, 2.0, 1.3)


@unit(UNITS, quick=[dict(n=1, depth=3), dict(n=2, depth=2), dict(n=3, depth=1)], thorough=[dict(n=1, depth=5), dict(n=2, depth=3), dict(n=3, depth=2), dict(n=4, depth=1)])
def predicates(ctx, n, depth):
    from thewalrus.quantum import entanglement as en
    from thewalrus.quantum import gaussian_checks as gc

    allw, trans = gate_words(n, depth)
    pats = list(itertools.product(NUS, repeat=n))
    if n > 2:
        pats = [p for p in pats if len(set(p)) < 3]
    ctx.count(transitions=trans)
    for w, S in allw:
        for nu in pats:
            V = (S * np.tile(nu, 2)) @ S.T
            V = (V + V.T) / 2
            valid = min(nu) >= 1
            pure = max(nu) == min(nu) == 1
            low = np.linalg.eigvalsh(V)[0]
            ctx.count(states=1)
            for h in HB:
                W = V * h / 2
                ctx.eq((n, w, nu, h, "valid"), lambda: bool(gc.is_valid_cov(W, hbar=h)), valid, tol=0, data=W)
                ctx.eq((n, w, nu, h, "pure"), lambda: bool(gc.is_pure_cov(W, hbar=h)), pure, tol=0, data=W)
                if not valid or abs(low - 1) > 1e-4 or abs(low - 1) < 1e-10:
                    ctx.eq((n, w, nu, h, "classical"), lambda: bool(gc.is_classical_cov(W, hbar=h)), valid and low > 1 - 1e-6, tol=0, data=W)
                if valid:
                    ctx.eq((n, w, nu, h, "entropy"), lambda: en.vonneumann_entropy(W, hbar=h), sum(ent_g(x) for x in nu), tol=1e-6, data=W)
                else:
                    ctx.raises((n, w, nu, h, "entropy"), lambda: en.vonneumann_entropy(W, hbar=h), ValueError, data=W)
                ctx.count(traces=1)
            if valid and pure:
                # wrong unit of hbar: a pure state is not valid in larger units and not pure in smaller ones
                ctx.eq((n, w, nu, "unit up"), lambda: bool(gc.is_valid_cov(V, hbar=3)), False, tol=0)
                ctx.eq((n, w, nu, "unit down"), lambda: bool(gc.is_pure_cov(V, hbar=1)), False, tol=0)
                ctx.eq((n, w, nu, "unit down valid"), lambda: bool(gc.is_valid_cov(V, hbar=1)), True, tol=0)
            if valid:
                for i in range(2 * n):
                    for j in range(2 * n):
                        if i != j:
                            A = V.copy()
                            A[i, j] += 0.01 * np.abs(V).max()
                            ctx.eq((n, w, nu, i, j, "asym"), lambda: [bool(f(A)) for f in (gc.is_valid_cov, gc.is_pure_cov, gc.is_classical_cov)], [0, 0, 0], tol=0, data=A)


@unit(UNITS, quick=[dict(n=n) for n in (1, 2, 3)])
def tolerances(ctx, n):
    """rtol and atol move the boundary; the defaults accept rounding but not visible violations."""
    from thewalrus.quantum import gaussian_checks as gc

    for k in range(3):
        S = g.symplectic(n, k)
        V = S @ S.T
        for eps in (1e-3, 1e-5):
            ctx.eq((n, k, eps, "default"), lambda: bool(gc.is_valid_cov(V * (1 - eps))), False, tol=0)
            ctx.eq((n, k, eps, "atol"), lambda: bool(gc.is_valid_cov(V * (1 - eps), atol=10 * eps)), True, tol=0)
            ctx.eq((n, k, eps, "classical atol"), lambda: bool(gc.is_classical_cov(np.eye(2 * n) * (1 - eps), atol=10 * eps)), True, tol=0)
            ctx.eq((n, k, eps, "classical"), lambda: bool(gc.is_classical_cov(np.eye(2 * n) * (1 - eps))), False, tol=0)
        ctx.eq((n, k, "rounding"), lambda: bool(gc.is_valid_cov(V * (1 - 1e-13))), True, tol=0)
        ctx.eq((n, k, "rounding pure"), lambda: bool(gc.is_pure_cov(V * (1 + 1e-9))), True, tol=0)
        ctx.eq((n, k, "impure"), lambda: bool(gc.is_pure_cov(V * (1 + 1e-3))), False, tol=0)
        ctx.eq((n, k, "impure tolerated"), lambda: bool(gc.is_pure_cov(V * (1 + 1e-3), rtol=0.1, atol=0.1)), True, tol=0)
    for f in (gc.is_valid_cov, gc.is_pure_cov, gc.is_classical_cov):
        ctx.eq((n, f.__name__, "odd"), lambda: bool(f(np.eye(2 * n + 1) * 2)), False, tol=0)
        ctx.eq((n, f.__name__, "rect"), lambda: bool(f(np.eye(2 * n, 2 * n + 2) * 2)), False, tol=0)
        ctx.eq((n, f.__name__, "int"), lambda: bool(f(np.eye(2 * n, dtype=int))), True, tol=0)
        ctx.eq((n, f.__name__, "zero"), lambda: bool(f(np.zeros((2 * n, 2 * n)))), False, tol=0)
        ctx.eq((n, f.__name__, "neg"), lambda: bool(f(-np.eye(2 * n))), False, tol=0)


def overlap(m1, V1, m2, V2):
    d = m1 - m2
    S = V1 + V2
    return math.exp(-0.5 * d @ np.linalg.solve(S, d)) / math.sqrt(np.linalg.det(S / 2))


def fid1(m1, V1, m2, V2):
    d = m1 - m2
    S = V1 + V2
    D = np.linalg.det(S)
    L = max((np.linalg.det(V1) - 1) * (np.linalg.det(V2) - 1), 0.0)
    return 2 * math.exp(-0.5 * d @ np.linalg.solve(S, d)) / (math.sqrt(D + L) - math.sqrt(L))


def real_close(z, tol=1e-6):
    z = np.asarray(z)
    if z.shape != ():
        raise ValueError("fidelity is not a scalar: %r" % (z,))
    if abs(z.imag) > tol:
        raise ValueError("complex fidelity %r" % (z,))
    return float(z.real)


@unit(UNITS, quick=[dict(n=1), dict(n=2), dict(n=3)], thorough=[dict(n=n) for n in (1, 2, 3, 4, 5)])
def fidelity(ctx, n):
    """All ordered pairs with at least one pure state; one-mode pairs; symmetric, unit independent."""
    from thewalrus.quantum import gaussian_checks as gc

    pool = g.states(n)
    extra = g.symplectic(n, 5)
    pool = pool + [("pure2", np.full(2 * n, 0.2), extra @ extra.T, True), ("mixed2", np.full(2 * n, -0.1), 1.5 * extra @ extra.T, False)]
    for (a, m1, V1, p1), (b, m2, V2, p2) in itertools.product(pool, repeat=2):
        if p1 or p2:
            want = overlap(m1, V1, m2, V2)
        elif n == 1:
            want = fid1(m1, V1, m2, V2)
        elif a == b:
            want = 1.0
        else:
            want = None
        for h in HB:
            x1, W1 = g.to_hbar(m1, V1, h)
            x2, W2 = g.to_hbar(m2, V2, h)
            if want is not None:
                ctx.eq((n, a, b, h), lambda: real_close(gc.fidelity(x1, W1, x2, W2, hbar=h)), want, tol=1e-6)
            elif h != 2:
                ctx.true((n, a, b, h, "hbar"), lambda: abs(real_close(gc.fidelity(x1, W1, x2, W2, hbar=h)) - real_close(gc.fidelity(m1, V1, m2, V2))) < 1e-6)
            else:
                def sym():
                    f, r = real_close(gc.fidelity(m1, V1, m2, V2)), real_close(gc.fidelity(m2, V2, m1, V1))
                    if abs(f - r) > 1e-6:
                        return "F(a,b)=%r but F(b,a)=%r" % (f, r)
                    if not overlap(m1, V1, m2, V2) - 1e-6 <= f <= 1 + 1e-6:
                        return "F=%r outside [Tr(rho sigma), 1]" % f

                ctx.true((n, a, b, h, "symmetric"), sym)


@unit(UNITS, quick=[dict(n=2), dict(n=3)], thorough=[dict(n=2), dict(n=3), dict(n=4)])
def fidelity_products(ctx, n):
    """Mixed pairs: joint symplectic images of products of one-mode states, every combination of one-mode pairs."""
    from thewalrus.quantum import gaussian_checks as gc

    one = [(np.zeros(2), np.eye(2)), (np.array([0.3, -0.2]), 1.4 * np.eye(2)), (np.zeros(2), 2.0 * g.sq([0.3]) @ g.sq([0.3]).T), (np.array([0.1, 0.5]), g.sq([0.4], [0.7]) @ np.diag([1.2, 1.2]) @ g.sq([0.4], [0.7]).T), (np.array([0.5, 0.0]), g.sq([0.5]) @ g.sq([0.5]).T)]
    if n > 2:
        one = one[1:4]
    for combo in itertools.product(itertools.product(range(len(one)), repeat=2), repeat=n):
        if n > 2 and len(set(combo)) < n and combo[0][0] != combo[0][1]:
            continue
        want = 1.0
        ms, Vs = [], []
        for s in (0, 1):
            m, V = np.zeros(2 * n), np.zeros((2 * n, 2 * n))
            for i, c in enumerate(combo):
                ix = [i, i + n]
                m[ix], V[np.ix_(ix, ix)] = one[c[s]]
            ms.append(m)
            Vs.append(V)
        for c in combo:
            want *= fid1(*one[c[0]], *one[c[1]])
        S = g.symplectic(n, 1)
        for nm, T in (("product", np.eye(2 * n)), ("entangled", S)):
            for h in (2, 0.7):
                a = [g.to_hbar(T @ m, T @ V @ T.T, h) for m, V in zip(ms, Vs)]
                ctx.eq((n, combo, nm, h), lambda: real_close(gc.fidelity(*a[0], *a[1], hbar=h)), want, tol=2e-6)


@unit(UNITS, quick=[dict(n=1, c=30), dict(n=2, c=10)], thorough=[dict(n=1, c=50), dict(n=2, c=13)])
def fidelity_fock(ctx, n, c):
    """Generic mixed pairs against the Uhlmann fidelity of truncated density matrices."""
    from thewalrus.quantum import gaussian_checks as gc

    def st(k):
        S = g.symplectic(n, k, scale=0.25)
        nb = [1 + 0.15 * ((i + k) % 3 + 1) for i in range(n)]
        return np.array([0.15 * (-1) ** (i + k) for i in range(2 * n)]), (S * np.tile(nb, 2)) @ S.T

    def root(M):
        w, v = np.linalg.eigh((M + M.conj().T) / 2)
        return (v * np.sqrt(np.clip(w, 0, None))) @ v.conj().T

    rhos = []
    for k in range(3):
        m, V = st(k)
        r, _ = g.dm_lattice(m, V, c)
        r = r.reshape(c ** n, c ** n)
        rhos.append((m, V, r, 1 - np.trace(r).real))
    for i, j in itertools.combinations(range(3), 2):
        m1, V1, r1, t1 = rhos[i]
        m2, V2, r2, t2 = rhos[j]
        q = root(r1)
        want = np.sum(np.sqrt(np.clip(np.linalg.eigvalsh(q @ r2 @ q), 0, None))) ** 2
        tol = 1e-5 + 4 * math.sqrt(max(t1, 0) * 1.0) * math.sqrt(max(t2, 0))
        ctx.eq((n, i, j), lambda: real_close(gc.fidelity(m1, V1, m2, V2)), want, tol=tol, data=(t1, t2))


def containers(p):
    out = [list(p), tuple(p), np.array(p)]
    if len(p) == 1:
        out.append(p[0])
    if list(p) == list(range(p[0], p[-1] + 1)):
        out.append(range(p[0], p[-1] + 1))
    return out


@unit(UNITS, quick=[dict(n=2), dict(n=3), dict(n=4), dict(n=5)], thorough=[dict(n=n) for n in (2, 3, 4, 5, 6)])
def bipartitions(ctx, n):
    """Entanglement entropy and logarithmic negativity for every bipartition, container and order of modes."""
    from thewalrus.quantum import entanglement as en

    names = None if n < 5 else ("pure", "mixed", "tms")
    for name, mu, V, pure in g.states(n, disp=False, which=names):
        for r in range(1, n):
            for p in itertools.permutations(range(n), r) if n < 4 else itertools.combinations(range(n), r):
                ix = list(p) + [q + n for q in p]
                P = np.ones(2 * n)
                P[[q + n for q in p]] = -1
                nus = spectrum(P[:, None] * V * P)
                neg = sum(-math.log(x) for x in nus if x < 1 - 1e-12)
                es = sum(ent_g(x) for x in spectrum(V[np.ix_(ix, ix)]))
                for h in HB:
                    for k, c in enumerate(containers(p) if h in (2, 0.5) else [list(p)]):
                        ctx.eq((n, name, p, h, k, "negativity"), lambda: en.log_negativity(V * h / 2, modes_A=c, hbar=h), neg, tol=1e-6)
                        if pure:
                            ctx.eq((n, name, p, h, k, "entropy"), lambda: en.entanglement_entropy(V * h / 2, modes_A=c, hbar=h), es, tol=1e-6)
                    if list(p) == list(range(r)):
                        ctx.eq((n, name, p, h, "negativity split"), lambda: en.log_negativity(V * h / 2, split=r, hbar=h), neg, tol=1e-6)
                        if pure:
                            ctx.eq((n, name, p, h, "entropy split"), lambda: en.entanglement_entropy(V * h / 2, split=r, hbar=h), es, tol=1e-6)
                            # modes_A takes precedence over split
                            ctx.eq((n, name, p, h, "entropy both"), lambda: en.entanglement_entropy(V * h / 2, modes_A=list(p), split=n - 1, hbar=h), es, tol=1e-6)
                ctx.count(states=1, traces=1)
        if not pure:
            ctx.raises((n, name, "entropy of mixed"), lambda: en.entanglement_entropy(V, modes_A=[0]), ValueError)
        for f in (en.entanglement_entropy, en.log_negativity):
            ctx.raises((n, name, f.__name__, "invalid cov"), lambda: f(0.5 * V, modes_A=[0]), ValueError)
            ctx.raises((n, name, f.__name__, "invalid cov hbar"), lambda: f(V, modes_A=[0], hbar=4), ValueError)
    V = np.eye(2 * n)
    for f in (en.entanglement_entropy, en.log_negativity):
        for bad in ([n], [-1], n, -1, [0, n], [0.5], ["a"], (0, 1.0)):
            ctx.raises((n, f.__name__, repr(bad)), lambda: f(V, modes_A=bad), (ValueError, TypeError))
        for bad in ("a", {0}, 0.5):
            ctx.raises((n, f.__name__, repr(bad)), lambda: f(V, modes_A=bad), (ValueError, TypeError))
        for bad in (n, n + 1, 0.5, "a"):
            ctx.raises((n, f.__name__, "split", repr(bad)), lambda: f(V, split=bad), (ValueError, TypeError))
        ctx.raises((n, f.__name__, "none"), lambda: f(V), (ValueError, TypeError))
    # closed forms
    for r in (0.0, 0.3, 1.0):
        T = np.eye(2 * n)
        i, j = 0, n - 1
        ch, sh = math.cosh(2 * r), math.sinh(2 * r)
        W = np.eye(2 * n)
        W[i, i] = W[j, j] = W[i + n, i + n] = W[j + n, j + n] = ch
        W[i, j] = W[j, i] = sh
        W[i + n, j + n] = W[j + n, i + n] = -sh
        for h in HB:
            ctx.eq((n, r, h, "closed entropy"), lambda: en.entanglement_entropy(W * h / 2, modes_A=[0], hbar=h), ent_g(ch), tol=1e-6)
            ctx.eq((n, r, h, "closed negativity"), lambda: en.log_negativity(W * h / 2, modes_A=[0], hbar=h), 2 * r, tol=1e-6)


def ent_n(x):
    """Entropy of a mode with x thermal photons, accurate for tiny x."""
    return (x + 1) * math.log1p(x) - (x * math.log(x) if x > 0 else 0.0)


@unit(UNITS, quick=[dict(n=n) for n in (1, 2, 3, 4)])
def weak(ctx, n):
    """Faint noise and faint entanglement still count: entropies and negativities relative to their own size."""
    from thewalrus.quantum import entanglement as en

    for x in (1e-9, 1e-8, 1e-7, 1e-6, 5e-6, 1e-5, 1e-4, 1e-3):
        for k in range(3):
            nb = [x * (1 + i) for i in range(n)] if k else [0.0] * (n - 1) + [x]
            rs = np.array([0.1 * k * (-1) ** i for i in range(n)])
            S = g.passive(g.unitary(n, k)) @ g.sq(rs) @ g.passive(g.unitary(n, k + 1))
            V = (S * np.tile([1 + 2 * b for b in nb], 2)) @ S.T
            V = (V + V.T) / 2
            want = sum(ent_n(b) for b in nb)
            for h in HB:
                ctx.eq((n, x, k, h, "entropy"), lambda: en.vonneumann_entropy(V * h / 2, hbar=h), want, tol=1e-3, scale=want)
            ctx.count(states=1, traces=1)
        if n == 1:
            continue
        r = math.asinh(math.sqrt(x))
        for i, j in itertools.permutations(range(n), 2):
            W = np.eye(2 * n)
            W[i, i] = W[j, j] = W[i + n, i + n] = W[j + n, j + n] = math.cosh(2 * r)
            W[i, j] = W[j, i] = math.sinh(2 * r)
            W[i + n, j + n] = W[j + n, i + n] = -math.sinh(2 * r)
            for h in HB:
                for part in {(i,), tuple(m for m in range(n) if m != j)}:
                    ctx.eq((n, x, i, j, part, h, "entanglement"), lambda: en.entanglement_entropy(W * h / 2, modes_A=list(part), hbar=h), ent_n(x), tol=1e-3, scale=ent_n(x))
                    ctx.eq((n, x, i, j, part, h, "negativity"), lambda: en.log_negativity(W * h / 2, modes_A=list(part), hbar=h), 2 * r, tol=1e-3, scale=2 * r)
            ctx.count(states=1, traces=1)


@unit(UNITS, quick=[dict(n=n) for n in (1, 2, 3, 4)])
def strong(ctx, n):
    """Strongly squeezed states: real entropies, negativities and fidelities with their exact values."""
    from thewalrus.quantum import entanglement as en
    from thewalrus.quantum import gaussian_checks as gc

    def real(f):
        x = f()
        if np.iscomplexobj(x):
            raise TypeError("complex result %r" % (x,))
        return x

    for r in (0.2, 0.8, 1.5, 2.0):
        pures = []
        for k in range(3):
            rs = np.array([r * (1 + 0.1 * i) * (-1) ** i for i in range(n)])
            S = g.passive(g.unitary(n, k)) @ g.sq(rs) @ g.passive(g.unitary(n, k + 1))
            pures.append((S @ S.T + (S @ S.T).T) / 2)
            for e in (0.0, 0.1, 1.0):
                nu = 1 + e * np.arange(1, n + 1)
                V = (S * np.tile(nu, 2)) @ S.T
                V = (V + V.T) / 2
                for h in HB:
                    ctx.eq((n, r, k, e, h, "entropy"), lambda: real(lambda: en.vonneumann_entropy(V * h / 2, hbar=h)), sum(ent_g(x) for x in nu), tol=1e-6)
                    ctx.eq((n, r, k, e, h, "valid"), lambda: bool(gc.is_valid_cov(V * h / 2, hbar=h)), True, tol=0)
                    ctx.eq((n, r, k, e, h, "classical"), lambda: bool(gc.is_classical_cov(V * h / 2, hbar=h)), bool(np.linalg.eigvalsh(V)[0] >= 1), tol=0)
                    for m in range(1, n):
                        P = np.ones(2 * n)
                        P[n:n + m] = -1
                        neg = sum(-math.log(x) for x in spectrum(P[:, None] * V * P) if x < 1 - 1e-9)
                        ctx.eq((n, r, k, e, h, m, "negativity"), lambda: real(lambda: en.log_negativity(V * h / 2, modes_A=list(range(m)), hbar=h)), neg, tol=1e-5)
                for j, Q in enumerate(pures):
                    # one of the states is pure: the overlap has a closed form
                    for d in (0.0, 0.4):
                        m1, m2 = np.full(2 * n, d), np.zeros(2 * n)
                        want = 2 ** n / math.sqrt(np.linalg.det(V + Q)) * math.exp(-0.5 * (m1 - m2) @ np.linalg.solve(V + Q, m1 - m2))
                        ctx.eq((n, r, k, e, j, d, "fidelity"), lambda: real(lambda: gc.fidelity(m1, V, m2, Q)), want, tol=1e-6)
                        ctx.eq((n, r, k, e, j, d, "fidelity swapped"), lambda: real(lambda: gc.fidelity(m2, Q, m1, V)), want, tol=1e-6)
                ctx.count(states=1, traces=1)


@unit(UNITS, quick=[dict(n=1), dict(n=2), dict(n=3), dict(n=5)])
def forms(ctx, n):
    """Every question asked about states of every layout and dtype, hot and strongly squeezed ones included."""
    from thewalrus.quantum import entanglement as en
    from thewalrus.quantum import gaussian_checks as gc

    pool = list(g.formed(n))
    ref = pool[4]
    for q, (name, mu0, cov0, pure) in enumerate(pool):
        hb = HB[q % 4] if "int" not in name else 2
        mu, cov = (mu0, cov0) if hb == 2 else g.to_hbar(mu0, cov0, hb)
        keep = mu.copy(), cov.copy()
        m, V = np.array(mu0, dtype=float), np.array(cov0, dtype=float)
        ctx.true((n, name, hb, "valid"), lambda: bool(gc.is_valid_cov(cov, hbar=hb)) is True)
        ctx.true((n, name, hb, "pure"), lambda: bool(gc.is_pure_cov(cov, hbar=hb)) is pure)
        ctx.true((n, name, hb, "classical"), lambda: bool(gc.is_classical_cov(cov, hbar=hb)) is bool(np.linalg.eigvalsh(V)[0] >= 1 - 1e-8))
        nus = spectrum(V)
        ctx.eq((n, name, hb, "entropy"), lambda: en.vonneumann_entropy(cov, hbar=hb), sum(ent_g(x) for x in nus), tol=1e-6)
        a, b = g.to_hbar(np.array(ref[1], dtype=float), np.array(ref[2], dtype=float), hb)
        w = overlap(m, V, np.array(ref[1], dtype=float), np.array(ref[2], dtype=float))
        if ref[3]:
            ctx.eq((n, name, hb, "fidelity"), lambda: real_close(gc.fidelity(mu, cov, a, b, hbar=hb)), w, tol=1e-6)
            ctx.eq((n, name, hb, "fidelity'"), lambda: real_close(gc.fidelity(a, b, mu, cov, hbar=hb)), w, tol=1e-6)
        ctx.eq((n, name, hb, "fidelity self"), lambda: real_close(gc.fidelity(mu, cov, mu, cov, hbar=hb)), 1.0, tol=1e-6)
        d = np.zeros(2 * n)
        d[(q * 3) % (2 * n)] = 0.8
        ctx.eq((n, name, hb, "fidelity shift") , lambda: real_close(gc.fidelity(mu, cov, mu + d * math.sqrt(hb / 2), cov, hbar=hb)),
               math.exp(-0.25 * d @ np.linalg.solve(V, d)), tol=1e-6)
        for p in itertools.islice((p for r in range(1, n) for p in itertools.combinations(range(n), r)), 8):
            P = np.ones(2 * n)
            P[[x + n for x in p]] = -1
            neg = sum(-math.log(x) for x in spectrum(P[:, None] * V * P) if x < 1 - 1e-12)
            ctx.eq((n, name, hb, p, "negativity"), lambda: en.log_negativity(cov, modes_A=list(p), hbar=hb), neg, tol=1e-6)
            if pure:
                ix = list(p) + [x + n for x in p]
                es = sum(ent_g(x) for x in spectrum(V[np.ix_(ix, ix)]))
                ctx.eq((n, name, hb, p, "entanglement"), lambda: en.entanglement_entropy(cov, modes_A=list(p), hbar=hb), es, tol=1e-6)
        ctx.count(states=1, traces=7)
        ctx.true((n, name, hb, "inputs"), lambda: np.array_equal(mu, keep[0]) and np.array_equal(cov, keep[1]))
