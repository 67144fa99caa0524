"""Exploration of probabilistic programs: numpy's global random functions are replaced by branch points and
every path of the program is executed.

A discrete draw branches over all its values with their probabilities (values of an unbounded law beyond the
tail mass TAIL are accounted as lost).  A normal draw is a coordinate; coordinates take the nodes of a tensor or
sparse Gauss-Hermite rule, and coordinates on which the program does not depend (established by executing the
whole discrete tree with the coordinate moved) keep a single node."""
import itertools
import math

import numpy as np

TAIL = 1e-9


class Cut(BaseException):
    """The path is abandoned (its weight is accounted as lost)."""


class Retry(Exception):
    """The program started over (rejection loop)."""


class Unsupported(Exception):
    pass


class Path:
    """One execution: a tape of branch indices for discrete draws and a vector of normal coordinates."""

    def __init__(self, tape, normals, prune, max_normals=None, max_choices=None, trace=None):
        self.tape, self.pos = tape, 0
        self.normals, self.npos = normals, 0
        self.weight = 1.0
        self.alts = []  # remaining alternatives of every discrete draw made beyond the tape
        self.prune = prune
        self.lost = 0.0
        self.max_normals, self.max_choices = max_normals, max_choices
        self.trace = [] if trace else None
        self.draws = []

    # -- coordinates
    def normal(self, size=()):
        k = int(np.prod(size, dtype=int))
        if self.max_normals is not None and self.npos + k > self.max_normals:
            raise Retry()
        while len(self.normals) < self.npos + k:
            self.normals.append(0.0)
        v = np.array(self.normals[self.npos:self.npos + k], dtype=float).reshape(size)
        self.npos += k
        self.draws.append(("normal", k))
        return v if size != () else float(v)

    # -- discrete draws
    def pick(self, probs):
        """Index drawn with the given probabilities."""
        probs = np.asarray(probs, dtype=float)
        if np.any(np.isnan(probs)) or np.any(probs < -1e-9):
            raise ValueError("probabilities are not non-negative: %s" % probs)
        if self.trace is not None:
            self.trace.append(probs.copy())
        if self.max_choices is not None and self.pos >= self.max_choices:
            raise Retry()
        if self.pos < len(self.tape):
            i = self.tape[self.pos]
        else:
            ok = [int(j) for j in np.nonzero(probs * self.weight > self.prune)[0]]
            self.lost += self.weight * float(sum(p for j, p in enumerate(probs) if p > 0 and j not in set(ok)))
            if not ok:
                raise Cut()
            i = ok[0]
            self.alts.append((self.pos, ok[1:]))
            self.tape = self.tape + [i]
        self.pos += 1
        self.weight *= float(probs[i])
        return i


def _size(size):
    if size is None:
        return ()
    if np.ndim(size) == 0:
        return (int(size),)
    return tuple(int(s) for s in size)


_current = None


def _p():
    if _current is None:
        raise Unsupported("random draw outside an exploration")
    return _current


def _each(law, args, size, dtype=int):
    """Draw independently for every element of the broadcast arguments."""
    arrs = [np.asarray(a) for a in args]
    shape = np.broadcast_shapes(*[a.shape for a in arrs]) if size is None else _size(size)
    bs = [np.broadcast_to(a, shape) for a in arrs]
    out = np.zeros(shape, dtype=dtype)
    for ix in np.ndindex(*shape):
        probs = law(*[b[ix] for b in bs])
        out[ix] = _p().pick(probs)
    return out if shape != () else dtype(out)


_law_cache = {}


def _cached(key, fn):
    if key not in _law_cache:
        if len(_law_cache) > 200000:
            _law_cache.clear()
        _law_cache[key] = fn()
    return _law_cache[key]


def poisson_law(lam):
    lam = float(lam)
    if lam < 0:
        raise ValueError("lam < 0 or lam contains NaNs")

    def make():
        p, out, k = math.exp(-lam), [], 0
        rest = 1.0
        while True:
            out.append(p)
            rest -= p
            k += 1
            p *= lam / k
            if k > lam and p / max(1e-300, 1 - lam / (k + 1)) < TAIL:
                break
        return np.array(out)

    return _cached(("poisson", lam), make)


def nb_law(n, p):
    n, p = float(n), float(p)

    def make():
        q = p ** n
        out, k = [q], 0
        while True:
            k += 1
            q *= (n + k - 1) / k * (1 - p)
            out.append(q)
            if k > n and q / max(p, 1e-9) < TAIL or k > 3000:
                break
        return np.array(out)

    return _cached(("nb", n, p), make)


def binom_law(n, p):
    n, p = int(n), float(p)
    if not 0 <= p <= 1:
        raise ValueError("p < 0, p > 1 or p is NaN")
    return _cached(("binom", n, p), lambda: np.array([math.comb(n, k) * p ** k * (1 - p) ** (n - k) for k in range(n + 1)]))


def f_normal(loc=0.0, scale=1.0, size=None):
    shape = np.broadcast_shapes(np.shape(loc), np.shape(scale)) if size is None else _size(size)
    if np.any(np.asarray(scale) < 0):
        raise ValueError("scale < 0")
    return loc + scale * _p().normal(shape)


def f_standard_normal(size=None):
    return _p().normal(_size(size))


def f_randn(*shape):
    return _p().normal(tuple(shape))


def f_multivariate_normal(mean, cov, size=None, check_valid="warn", tol=1e-8):
    mean, cov = np.asarray(mean), np.asarray(cov)
    w, v = np.linalg.eigh((cov + cov.T) / 2)
    if np.any(w < -1e-6 * max(1, np.abs(w).max())) or np.abs(cov - cov.T).max() > 1e-8:
        raise ValueError("covariance is not symmetric positive-semidefinite")
    L = v * np.sqrt(np.clip(w, 0, None))
    z = _p().normal(_size(size) + mean.shape)
    return mean + z @ L.T


def f_choice(a, size=None, replace=True, p=None):
    a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
    n = len(a)
    if n == 0:
        raise ValueError("a must be non-empty")
    probs = np.full(n, 1.0 / n) if p is None else np.asarray(p, dtype=float)
    if probs.shape != (n,):
        raise ValueError("'a' and 'p' must have same size")
    if np.any(np.isnan(probs)):
        raise ValueError("probabilities contain NaN")
    if np.any(probs < 0):
        raise ValueError("probabilities are not non-negative")
    if abs(probs.sum() - 1) > 1.5e-8:
        raise ValueError("probabilities do not sum to 1")
    shape = _size(size)
    if not replace:
        if int(np.prod(shape, dtype=int)) > n:
            raise ValueError("Cannot take a larger sample than population when replace is False")
        left, out = list(range(n)), []
        q = list(probs)
        for _ in range(int(np.prod(shape, dtype=int))):
            w = np.array([q[i] for i in left])
            j = _p().pick(w / w.sum())
            out.append(left.pop(j))
        ix = np.array(out, dtype=int).reshape(shape)
    else:
        ix = np.zeros(shape, dtype=int)
        for t in np.ndindex(*shape):
            ix[t] = _p().pick(probs)
    r = a[ix]
    return r if shape != () else r[()]


def f_randint(low, high=None, size=None, dtype=int):
    if high is None:
        low, high = 0, low
    n = int(high) - int(low)
    return low + _each(lambda k: np.full(int(k), 1.0 / k), (n,), size)


def f_multinomial(n, pvals, size=None):
    pv = np.asarray(pvals, dtype=float)
    shape = _size(size)
    out = np.zeros(shape + pv.shape, dtype=int)
    for t in np.ndindex(*shape):
        for _ in range(int(n)):
            out[t][_p().pick(pv)] += 1
    return out


def f_permutation(x):
    a = np.arange(x) if np.ndim(x) == 0 else np.array(x)
    n = len(a)
    left, out = list(range(n)), []
    while left:
        out.append(left.pop(_p().pick(np.full(len(left), 1 / len(left)))))
    return a[np.array(out, dtype=int)]


def f_seed(*a, **k):
    return None


def f_bad(name):
    def g(*a, **k):
        raise Unsupported("numpy.random.%s" % name)

    return g


TABLE = {
    "normal": f_normal, "standard_normal": f_standard_normal, "randn": f_randn,
    "multivariate_normal": f_multivariate_normal, "choice": f_choice, "randint": f_randint,
    "poisson": lambda lam=1.0, size=None: _each(poisson_law, (lam,), size),
    "negative_binomial": lambda n, p, size=None: _each(nb_law, (n, p), size),
    "binomial": lambda n, p, size=None: _each(binom_law, (n, p), size),
    "geometric": lambda p, size=None: 1 + _each(lambda q: nb_law(1, q), (p,), size),
    "multinomial": f_multinomial, "permutation": f_permutation, "seed": f_seed,
}
for _n in ("rand", "random", "random_sample", "uniform", "exponential", "gamma", "beta", "shuffle", "sample", "ranf",
           "standard_exponential", "chisquare", "laplace", "hypergeometric"):
    TABLE.setdefault(_n, f_bad(_n))


class patched:
    """numpy.random functions replaced by the branch points (module attributes)."""

    def __enter__(self):
        self.saved = {k: getattr(np.random, k) for k in TABLE if hasattr(np.random, k)}
        for k in self.saved:
            setattr(np.random, k, TABLE[k])
        return self

    def __exit__(self, *a):
        for k, v in self.saved.items():
            setattr(np.random, k, v)


def tree(fn, normals=(), prune=0.0, max_normals=None, max_choices=None, trace=False, stats=None, limit=10 ** 6):
    """Execute every discrete path of fn for fixed normal coordinates.
    Yields (weight, result or Retry, path)."""
    global _current
    stack = [[]]
    n = 0
    while stack:
        tape = stack.pop()
        p = Path(tape, list(normals), prune, max_normals, max_choices, trace)
        _current = p
        try:
            res = fn()
        except Retry:
            res = Retry
        except Cut:
            res = Cut
        finally:
            _current = None
        n += 1
        if n > limit:
            raise RuntimeError("too many paths")
        for pos, alts in p.alts:
            for a in reversed(alts):
                stack.append(p.tape[:pos] + [a])
        if stats is not None:
            stats["paths"] = stats.get("paths", 0) + 1
            stats["draws"] = stats.get("draws", 0) + p.pos + p.npos
            stats["lost"] = max(stats.get("lost", 0.0), 0.0) + 0.0
        yield p.weight, res, p


def gh(m):
    x, w = np.polynomial.hermite_e.hermegauss(m)
    return x, w / w.sum()


def tensor(dim, m):
    x, w = gh(m)
    for ix in itertools.product(range(m), repeat=dim):
        yield [x[i] for i in ix], float(np.prod([w[i] for i in ix]))


def smolyak(dim, level):
    """Sparse Gauss-Hermite rule by the combination technique, rules with 1, 3, 5, ... nodes."""
    rules = [gh(2 * l + 1) for l in range(level + 1)]
    acc = {}

    def comps(total, parts):
        if parts == 1:
            yield (total,)
            return
        for a in range(total + 1):
            for r in comps(total - a, parts - 1):
                yield (a,) + r

    for q in range(max(0, level - dim + 1), level + 1):
        c = (-1) ** (level - q) * math.comb(dim - 1, level - q)
        for ls in comps(q, dim):
            for ix in itertools.product(*(range(2 * l + 1) for l in ls)):
                key = tuple(round(float(rules[l][0][i]), 12) + 0.0 for l, i in zip(ls, ix))
                w = c * float(np.prod([rules[l][1][i] for l, i in zip(ls, ix)]))
                acc[key] = acc.get(key, 0.0) + w
    for k, w in acc.items():
        if w != 0:
            yield list(k), w


def _signature(fn, normals, prune, kw):
    out = []
    for w, res, p in tree(fn, normals, prune, trace=True, **kw):
        r = res if res is Retry or res is Cut else np.asarray(res).tolist()
        out.append((tuple(p.tape), r, p.trace))
    return out


def _same(a, b):
    if len(a) != len(b):
        return False
    for (t1, r1, c1), (t2, r2, c2) in zip(a, b):
        if t1 != t2 or r1 != r2 or len(c1) != len(c2):
            return False
        for x, y in zip(c1, c2):
            if x.shape != y.shape or np.abs(x - y).max() > 1e-10:
                return False
    return True


def relevant(fn, prune=1e-7, bases=2, **kw):
    """Indices of the normal coordinates that influence the program, and their total number."""
    tot = 0
    for _, _, p in tree(fn, [], prune, **kw):
        tot = max(tot, p.npos)
    rel = set()
    for b in range(bases):
        base = [0.37 * math.cos(1.3 * i + 2.1 * b) + 0.2 for i in range(tot)]
        ref = _signature(fn, base, prune, kw)

        def find(idx):
            """Bisect a group of coordinates that are moved together."""
            if not idx:
                return
            z = list(base)
            for q, i in enumerate(idx):
                z[i] += 0.9 + 0.13 * (q % 3)
            if _same(ref, _signature(fn, z, prune, kw)):
                return
            if len(idx) == 1:
                rel.add(idx[0])
                return
            find(idx[: len(idx) // 2])
            find(idx[len(idx) // 2:])

        find([i for i in range(tot) if i not in rel])
    return sorted(rel), tot


def law(fn, nodes, prune=1e-7, stats=None, **kw):
    """{result: probability} over all draws; nodes(dim) gives the cubature rule for the relevant coordinates.
    Results must be hashable after tolist/tuple conversion; Retry and Cut are keys too."""
    with patched():
        rel, tot = relevant(fn, prune, **kw)
        out = {}
        rule = list(nodes(len(rel))) if rel else [([], 1.0)]
        for z, wz in rule:
            full = [0.0] * tot
            for i, x in zip(rel, z):
                full[i] = x
            done = 0.0
            for w, res, _ in tree(fn, full, prune, stats=stats, **kw):
                key = res if res is Retry or res is Cut else freeze(res)
                out[key] = out.get(key, 0.0) + wz * w
                done += w
            out[Cut] = out.get(Cut, 0.0) + wz * (1 - done)
    if stats is not None:
        stats["nodes"] = stats.get("nodes", 0) + len(rule)
        stats["relevant"] = len(rel)
        stats["coords"] = tot
    return out


def freeze(x):
    if isinstance(x, np.ndarray):
        x = x.tolist()
    if isinstance(x, (list, tuple)):
        return tuple(freeze(y) for y in x)
    if isinstance(x, (float, np.floating)) and float(x) == int(x):
        return int(x)
    if isinstance(x, np.generic):
        return x.item()
    return x


class Lazy:
    """Stand-in for a dask task."""

    def __init__(self, f, a, k):
        self.f, self.a, self.k = f, a, k

    def run(self):
        return self.f(*[x.run() if isinstance(x, Lazy) else x for x in self.a], **self.k)

    def compute(self, **kw):
        return self.run()


class schedule:
    """dask.delayed / dask.compute replaced by in-process execution of the tasks in a given order."""

    def __init__(self, order=None):
        self.order = order
        self.batches = []

    def __enter__(self):
        import dask

        self.dask, self.saved = dask, (dask.delayed, dask.compute)

        def delayed(f=None, **kw):
            if f is None:
                return delayed
            return lambda *a, **k: Lazy(f, a, k)

        def compute(*tasks, **kw):
            if len(tasks) == 1 and isinstance(tasks[0], (list, tuple)):
                return (type(tasks[0])(compute(*tasks[0])),)
            self.batches.append(len(tasks))
            res = [None] * len(tasks)
            order = range(len(tasks)) if self.order is None else self.order(len(tasks))
            for i in order:
                res[i] = tasks[i].run() if isinstance(tasks[i], Lazy) else tasks[i]
            return tuple(res)

        dask.delayed, dask.compute = delayed, compute
        return self

    def __exit__(self, *a):
        self.dask.delayed, self.dask.compute = self.saved
