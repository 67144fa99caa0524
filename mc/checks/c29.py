"""C29: random matrix generators under an enumerated random source."""
import itertools

import numpy as np

from mc import gauss as g
from mc.core import unit

PROPERTY = "C29"
LEVEL = "exploration"
RULE = (
    "the draws of numpy's global random functions are replaced by enumerated values: a grid of extreme and generic draw "
    "patterns for validity, every sign pattern of the draws for the invariance of the law, every coordinate direction for "
    "the dimension of the image; one state per draw pattern executed on the real generators"
)
ASSUMPTIONS = [
    "draws of measure zero (exactly singular matrices) are excluded",
    "invariance of the law is tested conditionally on the magnitudes of the draws",
]
UNITS = []


def rn():
    import thewalrus.random as r

    return r


class Source:
    """np.random functions reading from a function index -> value; normals and uniforms have separate indices."""

    NAMES = ("randn", "standard_normal", "normal", "rand", "random", "random_sample", "uniform", "sample", "ranf")

    def __init__(self, normal, uniform):
        self.normal, self.uniform = normal, uniform
        self.nn = self.nu = 0

    def _take(self, kind, size):
        size = () if size is None else (size,) if np.ndim(size) == 0 else tuple(size)
        k = int(np.prod(size, dtype=int))
        if kind == "n":
            v = [self.normal(self.nn + i) for i in range(k)]
            self.nn += k
        else:
            v = [self.uniform(self.nu + i) for i in range(k)]
            self.nu += k
        return np.array(v, dtype=float).reshape(size) if size != () else float(v[0])

    def __enter__(self):
        self.saved = {n: getattr(np.random, n) for n in self.NAMES if hasattr(np.random, n)}
        t = self._take
        new = dict(
            randn=lambda *s: t("n", s if s else None),
            standard_normal=lambda size=None: t("n", size),
            normal=lambda loc=0.0, scale=1.0, size=None: loc + scale * t("n", size if size is not None else (np.broadcast(loc, scale).shape or None)),
            rand=lambda *s: t("u", s if s else None),
            uniform=lambda low=0.0, high=1.0, size=None: low + (np.asarray(high) - low) * t("u", size),
        )
        for n in ("random", "random_sample", "sample", "ranf"):
            new[n] = lambda size=None: t("u", size)
        for n in self.saved:
            setattr(np.random, n, new[n])
        return self

    def __exit__(self, *a):
        for n, f in self.saved.items():
            setattr(np.random, n, f)


GEN = lambda i: float(np.sin(1.7 * i * i + 0.9 * i + 0.4)) * 1.6 + 0.05
PATTERNS = {
    "generic": GEN,
    "positive": lambda i: abs(GEN(i)) + 0.1,
    "negative": lambda i: -abs(GEN(i)) - 0.1,
    "alternating": lambda i: abs(GEN(i + 3)) * (-1) ** i,
    "tiny": lambda i: 1e-6 * GEN(i),
    "large": lambda i: 1e3 * GEN(i),
    "graded": lambda i: GEN(i) * 10.0 ** (-(i % 4)),
    "two signs": lambda i: 1.0 + 0.3 * ((i * i) % 5) if i % 3 else -1.0 - 0.01 * i,
    "nearly equal": lambda i: 1.0 + 1e-3 * GEN(i),
    "one large": lambda i: 50.0 if i == 0 else GEN(i),
    "sparse": lambda i: GEN(i) if i % 2 else 1e-9 * GEN(i),
}
SQUEEZE_OK = ("generic", "positive", "negative", "alternating", "tiny", "graded", "two signs", "nearly equal", "sparse")
UNI = {"mid": lambda i: 0.37 + 0.05 * (i % 7), "zero": lambda i: 0.0, "top": lambda i: 1 - 2.0 ** -53}


def draw(fn, normal, uniform=UNI["mid"]):
    with Source(normal, uniform) as s:
        r = fn()
    return r, s


def unitary(U, N, real):
    U = np.asarray(U)
    if U.shape != (N, N):
        return "shape %s instead of %s" % (U.shape, (N, N))
    if real and np.iscomplexobj(U) and np.any(U.imag != 0):
        return "not real"
    e = np.max(np.abs(U.conj().T @ U - np.eye(N)))
    return None if e < 1e-9 else "not unitary (%g): %r" % (e, U)


def bandwidth(U):
    i, j = np.nonzero(np.abs(U) > 1e-12)
    return int(np.max(np.abs(i - j))) if len(i) else 0


def symplectic(S, N, tol):
    if S.shape != (2 * N, 2 * N) or np.iscomplexobj(S):
        return "shape %s, type %s" % (S.shape, S.dtype)
    J = g.om(N)
    e = np.max(np.abs(S @ J @ S.T - J))
    return None if e < tol * max(1, np.max(np.abs(S)) ** 2) else "not symplectic (%g)" % e


@unit(UNITS, quick=[dict(top=6), dict(low=7, top=7), dict(low=8, top=8), dict(low=11, top=11)], thorough=[dict(top=12), dict(low=16, top=16)])
def validity(ctx, top, low=1):
    """Every generator, option and size on every draw pattern."""
    r = rn()
    for pn, pat in PATTERNS.items():
        for N in range(low, top + 1):
            ctx.count(states=1)
            for real in (False, True):
                ctx.true(("interferometer", pn, N, real), lambda: unitary(draw(lambda: r.random_interferometer(N, real=real), pat)[0], N, real))
                for one in (False, True):
                    def block():
                        U = draw(lambda: r.random_block_interferometer(N, top_one=one, real=real), pat)[0]
                        m = unitary(U, N, real)
                        if m:
                            return m
                        # blocks of two starting at the first (top_one: the second) mode; an even size with top_one ends with a block of one
                        lab, k = [], 1 if one else 0
                        lab = [(i - k) // 2 for i in range(N)]
                        bad = [(i, j) for i in range(N) for j in range(N) if lab[i] != lab[j] and abs(U[i, j]) > 1e-12]
                        return "entries outside the blocks: %s" % bad if bad else None

                    ctx.true(("block", pn, N, one, real), block)
                    for w in range(0, N):
                        def band():
                            U = draw(lambda: r.random_banded_interferometer(N, w, top_one_init=one, real=real), pat)[0]
                            m = unitary(U, N, real)
                            return m or ("bandwidth %d instead of at most %d" % (bandwidth(U), w) if bandwidth(U) > w else None)

                        ctx.true(("banded", pn, N, w, one, real), band)
            ctx.raises(("banded too wide", N), lambda: r.random_banded_interferometer(N, N), ValueError)
        if pn not in SQUEEZE_OK:
            continue
        for N in range(low, top + 1):
            for passive, bd, scale in itertools.product((False, True), (False, True), (1.0, 0.0, 0.25)):
                def sym():
                    S = draw(lambda: r.random_symplectic(N, passive=passive, block_diag=bd, scale=scale), pat)[0]
                    m = symplectic(S, N, 1e-9)
                    if m:
                        return m
                    if (passive or scale == 0) and np.max(np.abs(S @ S.T - np.eye(2 * N))) > 1e-9:
                        return "a passive transformation is not orthogonal"
                    if bd and (np.any(S[:N, N:] != 0) or np.any(S[N:, :N] != 0)):
                        return "not block diagonal"

                ctx.true(("symplectic", pn, N, passive, bd, scale), sym)
            for un, u in UNI.items():
                for pure, bd in itertools.product((False, True), repeat=2):
                    for hbar in (2, 1, 0.5, 1.7):
                        def cov():
                            V = draw(lambda: r.random_covariance(N, hbar=hbar, pure=pure, block_diag=bd), pat, u)[0]
                            if V.shape != (2 * N, 2 * N) or np.iscomplexobj(V) or not np.allclose(V, V.T, rtol=0, atol=1e-9 * np.max(np.abs(V))):
                                return "not a real symmetric matrix of the right size"
                            nu = np.abs(np.linalg.eigvals(1j * g.om(N) @ V)) * 2 / hbar
                            slack = 1e-7 * np.max(np.abs(V)) * 2 / hbar
                            if np.min(nu) < 1 - slack:
                                return "unphysical: smallest symplectic eigenvalue %r" % np.min(nu)
                            if pure and np.max(nu) > 1 + slack:
                                return "not pure: %r" % nu
                            if not pure and un == "mid" and np.max(nu) < 1 + 1e-3:
                                return "a mixed state was requested, symplectic eigenvalues %r" % nu
                            if bd and (np.any(V[:N, N:] != 0) or np.any(V[N:, :N] != 0)):
                                return "x and p are correlated in a block diagonal state"
                            V2 = draw(lambda: r.random_covariance(N, pure=pure, block_diag=bd), pat, u)[0]
                            if not np.allclose(V * 2 / hbar, V2, rtol=1e-9, atol=1e-9 * np.max(np.abs(V2))):
                                return "not proportional to hbar"

                        ctx.true(("covariance", pn, N, un, pure, bd, hbar), cov)
    for size in ((), (1,), (3,), (2, 3), (2, 1, 2)):
        def nc():
            z, s = draw(lambda: r.randnc(*size), GEN)
            if np.shape(z) != size or not np.iscomplexobj(z):
                return "shape %s" % (np.shape(z),)
            if s.nn and sorted(np.round(np.concatenate([np.ravel(z.real), np.ravel(z.imag)]), 9)) != sorted(np.round([GEN(i) for i in range(2 * int(np.prod(size, dtype=int)))], 9)):
                return "the real and imaginary parts are not independent standard normal draws: %r" % (z,)

        ctx.true(("randnc", size), nc)


def features(mats):
    """Averages of a fixed family of test functions over a list of matrices."""
    M = np.asarray(mats).reshape(len(mats), -1)
    k = np.arange(1, 13)
    K = np.sin(np.outer(np.arange(1, M.shape[1] + 1), k) * 1.3) * 1.5
    L = np.cos(np.outer(np.arange(1, M.shape[1] + 1), k) * 0.7) * 1.5
    return np.mean(np.exp(1j * (M.real @ K + M.imag @ L)), axis=0)


@unit(UNITS, quick=[dict(N=1, real=False), dict(N=2, real=False), dict(N=1, real=True), dict(N=2, real=True), dict(N=3, real=True)],
      thorough=[dict(N=1, real=False), dict(N=2, real=False), dict(N=1, real=True), dict(N=2, real=True), dict(N=3, real=True), dict(N=3, real=False), dict(N=4, real=True)], timeout=840)
def law(ctx, N, real):
    """Average over every sign pattern of the draws: invariant under sign changes of rows and columns and under permutations built into the group."""
    r = rn()
    mags = [0.4 + 0.23 * ((5 * i) % 7) + 0.01 * i for i in range(2 * N * N)]
    probe, s = draw(lambda: r.random_interferometer(N, real=real), lambda i: mags[i % len(mags)] * (-1) ** (i * i // 3))
    if s.nn == 0 or s.nn > 18:
        return  # another random source: the law cannot be enumerated
    out = []
    for signs in itertools.product((1, -1), repeat=s.nn):
        out.append(draw(lambda: r.random_interferometer(N, real=real), lambda i: mags[i % len(mags)] * signs[i])[0])
    ctx.count(states=len(out), traces=len(out))
    out = np.array(out)
    base = features(out)
    for d in itertools.product((1, -1), repeat=N):
        D = np.diag(d)
        ctx.true(("rows", N, real, d), lambda: None if np.max(np.abs(features(D @ out) - base)) < 1e-6 else "the law is not invariant under %s U" % (D.tolist(),))
        ctx.true(("columns", N, real, d), lambda: None if np.max(np.abs(features(out @ D) - base)) < 1e-6 else "the law is not invariant under U %s" % (D.tolist(),))
    if not real:
        ctx.true(("conjugate", N), lambda: None if np.max(np.abs(features(out.conj()) - base)) < 1e-6 else "the law is not invariant under complex conjugation")
    # exchangeable magnitudes: the full group of signed (and, if complex, quarter-turn) permutations
    if s.nn <= 9:
        out = []
        for vals in itertools.product((0.6, -0.6, 1.37, -1.37), repeat=s.nn):
            U = draw(lambda: r.random_interferometer(N, real=real), lambda i: vals[i])[0]
            if np.all(np.isfinite(U)):
                Z = np.array(vals)
                out.append((Z, U))
        # singular draws have measure zero; which ones they are depends on the order of the draws, so each order is tried
        def keep(re, im):
            res = []
            for Z, U in out:
                z = Z[re] + (1j * Z[im] if im else 0)
                if N == 1 or (N == 2 and abs(abs(z[0] * z[3]) - abs(z[1] * z[2])) > 1e-6) or (N == 3 and abs(np.linalg.det(z.reshape(3, 3))) > 1e-6):
                    res.append(U)
            return np.array(res)

        n2 = N * N
        sets = [keep(list(range(n2)), None)] if real else [keep(list(range(n2)), list(range(n2, 2 * n2))), keep(list(range(0, 2 * n2, 2)), list(range(1, 2 * n2, 2)))]
        ctx.count(states=len(out), traces=len(out))
        gens = [np.eye(N)[::-1]] + ([np.roll(np.eye(N), 1, axis=0)] if N > 2 else []) + ([np.diag([1j] + [1] * (N - 1))] if not real else [])
        for P in gens:
            def left():
                diffs = [np.max(np.abs(features(P @ k) - features(k))) for k in sets if len(k)]
                return None if not diffs or min(diffs) < 1e-6 else "the law is not invariant under left multiplication by %s" % (P.tolist(),)

            ctx.true(("left", N, real, P.tolist()), left)


def rank(fn, count):
    """Rank of the Jacobian of the result with respect to the draws."""
    n, u = count
    h = 1e-5

    def value(dn, du):
        M = draw(fn, lambda i: GEN(i) + dn.get(i, 0.0), lambda i: 0.37 + 0.05 * (i % 7) + du.get(i, 0.0))[0]
        return np.concatenate([np.ravel(M.real), np.ravel(M.imag)]) if np.iscomplexobj(M) else np.ravel(M)

    J = [(value({i: h}, {}) - value({i: -h}, {})) / (2 * h) for i in range(n)] + [(value({}, {i: h}) - value({}, {i: -h})) / (2 * h) for i in range(u)]
    sv = np.linalg.svd(np.array(J), compute_uv=False)
    return int(np.sum(sv > 1e-6 * sv[0])) if len(sv) and sv[0] > 0 else 0


@unit(UNITS, quick=[dict(top=4)], thorough=[dict(top=6)])
def dimension(ctx, top):
    """The generators reach a full neighbourhood: the image of the draws has the dimension of the set requested."""
    r = rn()
    for N in range(1, top + 1):
        todo = [
            ("interferometer", lambda: r.random_interferometer(N), N * N),
            ("real interferometer", lambda: r.random_interferometer(N, real=True), N * (N - 1) // 2),
            ("passive", lambda: r.random_symplectic(N, passive=True), N * N),
            ("symplectic", lambda: r.random_symplectic(N), 2 * N * N + N),
            ("block symplectic", lambda: r.random_symplectic(N, block_diag=True), N * N),
            ("pure", lambda: r.random_covariance(N, pure=True), N * N + N),
            ("mixed", lambda: r.random_covariance(N), 2 * N * N + N),
            ("block pure", lambda: r.random_covariance(N, pure=True, block_diag=True), N * (N + 1) // 2),
            ("block mixed", lambda: r.random_covariance(N, block_diag=True), N * (N + 1)),
        ]
        for one in (False, True):
            singles = N % 2 if N % 2 else (2 if one else 0)
            todo.append(("block interferometer %s" % one, lambda one=one: r.random_block_interferometer(N, top_one=one), singles + 4 * ((N - singles) // 2)))
            if N > 1:
                todo.append(("full banded %s" % one, lambda one=one: r.random_banded_interferometer(N, N - 1, top_one_init=one), N * N))
            todo.append(("diagonal %s" % one, lambda one=one: r.random_banded_interferometer(N, 0, top_one_init=one), N))
        for nm, fn, want in todo:
            s = draw(fn, GEN)[1]
            if s.nn == 0:
                continue
            ctx.count(states=s.nn + s.nu)
            ctx.eq(("dimension", nm, N), lambda: rank(fn, (s.nn, s.nu)), want)
    for N in (3, 4, 5, 6):
        for w in range(1, N - 1):
            for one in (False, True):
                ctx.eq(("bandwidth", N, w, one), lambda: bandwidth(draw(lambda: r.random_banded_interferometer(N, w, top_one_init=one), GEN)[0]), w)
    for N in range(1, 5):
        def spread(scale):
            S = draw(lambda: r.random_symplectic(N, scale=scale), GEN)[0]
            return np.sort(np.log(np.linalg.svd(S, compute_uv=False)))

        one = spread(1.0)
        for scale in (0.0, 0.3, 0.5, 1.5):
            ctx.eq(("scale", N, scale), lambda: spread(scale), scale * one, tol=1e-6)


@unit(UNITS)
def seeds(ctx):
    """Reproducible for equal seeds, different for different ones and for successive draws."""
    r = rn()
    fns = {
        "interferometer": lambda: r.random_interferometer(3), "real": lambda: r.random_interferometer(3, real=True),
        "symplectic": lambda: r.random_symplectic(2), "covariance": lambda: r.random_covariance(2), "pure": lambda: r.random_covariance(2, pure=True),
        "block": lambda: r.random_block_interferometer(4), "banded": lambda: r.random_banded_interferometer(4, 2), "randnc": lambda: r.randnc(2, 2),
    }
    for nm, fn in fns.items():
        for seed in range(4):
            def go():
                np.random.seed(seed)
                a, b = fn(), fn()
                np.random.seed(seed)
                c, d = fn(), fn()
                np.random.seed(seed + 100)
                e = fn()
                if not (np.array_equal(a, c) and np.array_equal(b, d)):
                    return "not reproducible"
                if np.allclose(a, b) or np.allclose(a, e):
                    return "draws repeat"

            ctx.true((nm, seed), go)
