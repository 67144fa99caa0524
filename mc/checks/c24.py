"""C24: number, range and reproducibility of samples, and parallel sampling under every schedule."""
import itertools
import os

import numpy as np

from mc import env
from mc import gauss as g
from mc import rand, sched, weak
from mc.core import unit

PROPERTY = "C24"
LEVEL = "model_checking"
RULE = (
    "states are the scheduling points (source lines of the samplers executed by a task) and the draw histories explored; "
    "transitions are scheduling decisions and draws; every complete thread schedule within the preemption bound and every "
    "draw history up to the depth is executed on the real code (one trace each)"
)
ASSUMPTIONS = [
    "a task of the parallel mode is the callable handed to dask.delayed; tasks run on real threads that are switched only at source lines of the samplers and at random draws (the kernels they call are atomic)",
    "every task draws from its own stream, so that (with one task per sample) the expected rows are those of sequential calls with the same streams",
    "at most 2 preemptions (3 in the thorough tier), 2 or 3 tasks",
]
UNITS = []
HB = (2, 1, 0.5, 1.7)


def warm():
    from thewalrus.loop_hafnian_batch import loop_hafnian_batch
    from thewalrus.loop_hafnian_batch_gamma import loop_hafnian_batch_gamma

    A, D = np.eye(2, dtype=complex), np.ones(2, dtype=complex)
    for r in ([0], [1], [2]):
        for c in (1, 2, 3):
            loop_hafnian_batch(A, D, np.array(r), c)
            loop_hafnian_batch_gamma(A, np.stack([D, D]), np.array(r), c)


class QPath(rand.Path):
    """A fixed stream: discrete draws by inversion of the given uniforms, normal draws from a list (both cyclic)."""

    def __init__(self, us, zs, limit=400):
        super().__init__([], [], 0.0)
        self.us, self.zs, self.limit = us, zs, limit

    def pick(self, probs):
        probs = np.asarray(probs, dtype=float)
        if np.any(np.isnan(probs)) or np.any(probs < -1e-9):
            raise ValueError("probabilities are not non-negative: %s" % probs)
        u = self.us[self.pos % len(self.us)] * probs.sum()
        self.pos += 1
        if self.pos > self.limit:
            raise rand.Retry()
        return int(min(np.searchsorted(np.cumsum(probs), u, side="right"), len(probs) - 1))

    def normal(self, size=()):
        k = int(np.prod(size, dtype=int))
        v = np.array([self.zs[(self.npos + i) % len(self.zs)] for i in range(k)]).reshape(size)
        self.npos += k
        return v if size != () else float(v)


def stream(k):
    """Stream number k; streams differ in their first draws and include rejected shots for small cutoffs."""
    us = [0.11, 0.83, 0.37, 0.995, 0.52, 0.05, 0.71, 0.93, 0.29]
    zs = [0.3, -0.7, 1.1, 0.2, -1.3, 0.9, -0.4, 0.6, -0.1, 1.7, -0.9]
    return us[k % 9:] + us[: k % 9] + [0.61 + 0.03 * k], [z * (1 + 0.07 * k) for z in zs[2 * k % 11:] + zs[: 2 * k % 11]]


def sequential(call, k):
    """The sample drawn by a sequential call from stream k."""
    rand._current = QPath(*stream(k))
    try:
        return np.asarray(call())
    finally:
        rand._current = None


class controlled(rand.schedule):
    """dask replaced: the submitted tasks run under a Control."""

    def __init__(self, ctl):
        super().__init__()
        self.ctl = ctl

    def __enter__(self):
        super().__enter__()
        import dask

        def compute(*tasks, **kw):
            if len(tasks) == 1 and isinstance(tasks[0], (list, tuple)):
                return (type(tasks[0])(compute(*tasks[0])),)
            self.batches.append(len(tasks))
            paths = [QPath(*stream(i)) for i in range(len(tasks))]

            def resume(j):
                rand._current = paths[j]

            saved = rand._current
            try:
                return self.ctl.run([t.run for t in tasks], resume)
            finally:
                rand._current = saved

        dask.compute = compute
        return self


def explore(ctx, call, one, k, bound, files, limit=200000):
    """All schedules of call() (which submits k tasks) with at most bound preemptions."""
    want = np.vstack([sequential(one, i) for i in range(k)])
    stack, n = [[]], 0
    while stack:
        ctl = sched.Control(stack.pop(), bound, files)
        with controlled(ctl) as c:
            rand._current = QPath(*stream(77))
            got = np.asarray(call())
            rand._current = None
        n += 1
        ctx.count(states=ctl.points, transitions=ctl.pos, traces=1)
        if n == 1 and c.batches != [k]:
            want = got  # tasks that draw several samples: the tasks one after the other are the reference
        if got.shape != want.shape or not np.array_equal(got, want):
            return "schedule %s gives %s, sequential draws give %s" % (ctl.tape, got.tolist(), want.tolist())
        stack.extend(sched.successors(ctl))
        if n > limit:
            return "more than %d schedules" % limit
    return None


def small_states():
    """(name, mu, cov) of one and two modes."""
    one, two = {s[0]: s for s in weak.states(1)}, {s[0]: s for s in weak.states(2)}
    return [one["sqth+d"], two["lossy2"], two["prod(1, 0)"], two["thermal-first"]]


SC = [dict(kind=k, state=s, tasks=t, bound=b, wide=w) for k in ("hafnian", "torontonian")
      for s, t, b, w in ((0, 2, 1, True), (0, 2, 2, False), (1, 2, 1, True), (2, 2, 1, False), (0, 3, 1, False)) if k == "hafnian" or b == 1]


@unit(UNITS, quick=SC, thorough=SC + [dict(kind=k, state=s, tasks=t, bound=b, wide=w) for k in ("hafnian", "torontonian")
                                      for s, t, b, w in ((0, 2, 2, False), (1, 2, 2, False), (0, 2, 3, False), (3, 3, 2, False), (1, 3, 1, True), (0, 3, 2, False))], timeout=700)
def schedules(ctx, kind, state, tasks, bound, wide):
    """Every interleaving of the parallel tasks gives the rows of sequential draws."""
    from thewalrus import samples as sm

    name, mu0, cov0 = small_states()[state]
    hb = HB[(state + tasks) % 4]
    mu, cov = g.to_hbar(mu0, cov0, hb)
    files = ("thewalrus/samples.py",) if not wide else (os.path.join(env.REPO, "thewalrus") + os.sep,)
    if wide:
        import glob

        files = tuple(glob.glob(os.path.join(env.REPO, "thewalrus", "**", "*.py"), recursive=True))
    if kind == "hafnian":
        kw = dict(mean=mu, hbar=hb, cutoff=3, max_photons=3) if bound < 2 else dict(mean=mu, hbar=hb, cutoff=8)
        f = sm.hafnian_sample_state
    else:
        kw = dict(mu=mu, hbar=hb, max_photons=len(mu) // 2, fanout=1 if bound > 1 else 2, cutoff=1)
        f = sm.torontonian_sample_state
    before = mu.copy(), cov.copy()
    with rand.patched():
        ctx.true((kind, name, tasks, bound, wide), lambda: explore(ctx, lambda: f(cov, tasks, parallel=True, **kw), lambda: f(cov, 1, **kw), tasks, bound, files), data=(mu, cov))
    ctx.true((kind, name, "arguments"), lambda: bool(np.array_equal(before[0], mu) and np.array_equal(before[1], cov)))


# ---------------------------------------------------------------- every draw history
def bad_rows(res, count, modes, top, total, listy=False):
    """Message if res is not count samples of modes integers in 0..top with sum <= total."""
    if listy:
        if len(res) != count:
            return "%d samples returned, %d requested" % (len(res), count)
    elif not isinstance(res, np.ndarray) or res.shape != (count, modes):
        return "result %s instead of %d samples of %d modes" % (getattr(res, "shape", type(res)), count, modes)
    for row in res:
        r = np.asarray(row)
        if r.shape != (modes,):
            return "sample %r does not have %d entries" % (row, modes)
        if np.any(r != np.round(r.real)) or np.any(r < 0) or (top is not None and np.any(r > top)):
            return "sample %s outside 0..%s" % (r.tolist(), top)
        if total is not None and r.sum() > total:
            return "sample %s exceeds the limit of %d" % (r.tolist(), total)
    return None


def histories(ctx, desc, call, depth, judge, prune=1e-7, patterns=2):
    def go():
        seen = 0
        for q in range(patterns):
            zs = [[1.2, -0.8, 0.3, -1.4, 0.5], [0.0]][q]
            zs = [zs[i % len(zs)] for i in range(400)]
            st = {}
            with rand.patched():
                for w, res, p in rand.tree(call, zs, prune=prune, max_normals=400, max_choices=depth, stats=st):
                    if res is rand.Retry or res is rand.Cut:
                        continue
                    seen += 1
                    m = judge(res)
                    if m:
                        return "draws %s, normals %s: %s" % (p.tape, zs[:5], m)
            ctx.count(states=st["paths"], transitions=st["draws"], traces=st["paths"])
        return None if seen else "no sample was ever returned"

    ctx.true(desc, go)


@unit(UNITS, quick=[dict(part=i) for i in range(8)], thorough=[dict(part=i, deep=True) for i in range(8)], timeout=700)
def ranges(ctx, part, deep=False):
    """Count, shape and range of the samples for every draw history up to a depth, including repeated rejections."""
    from thewalrus import samples as sm

    jobs = []
    for n in (1, 2, 3):
        for q, (name, mu, cov) in enumerate(weak.states(n)):
            if n < 3 or name in ("pure2", "lossy2", "prod(2, 0, 1)", "vac", "only-first", "thermal-first"):
                jobs.append((n, q, name, mu, cov))
    for q, (n, s, name, mu0, cov0) in enumerate(jobs):
        if q % 8 != part:
            continue
        hb = HB[q % 4]
        mu, cov = g.to_hbar(mu0, cov0, hb)
        for k in (1, 2, 3):
            for c in (1, 2, 3, 4):
                for mp in (0, 1, 2, 30):
                    if n * k * c > (14 if deep else 9) or (n == 3 and k > 1):
                        continue
                    if not deep and mp < 30 and (q + k + c + mp) % 3 and n > 1:
                        continue
                    kw = dict(mean=mu, hbar=hb, cutoff=c, max_photons=mp)
                    depth = n * k + (2 * n if n * k < 4 else n)
                    pr = 1e-6 if n * k < 4 else 1e-4
                    if k == 1:
                        histories(ctx, (n, name, c, mp, "generate"), lambda: sm.generate_hafnian_sample(cov, **kw), n,
                                  lambda r: None if isinstance(r, int) and r == -1 else bad_rows([r], 1, n, c - 1, mp, True))
                    histories(ctx, (n, name, k, c, mp, "hafnian"), lambda: sm.hafnian_sample_state(cov, k, **kw), depth, lambda r: bad_rows(r, k, n, c - 1, mp), pr)
                    if mp == 30:
                        with rand.schedule():
                            histories(ctx, (n, name, k, c, mp, "hafnian parallel"), lambda: sm.hafnian_sample_state(cov, k, parallel=True, **kw), depth, lambda r: bad_rows(r, k, n, c - 1, mp), pr, 1)
            for fan, c in ((1, 1), (2, 1), (3, 2)):
                for mp in (0, 1, 2, 30):
                    if n * k * fan > (9 if deep else 6):
                        continue
                    if not deep and mp < 30 and (q + k + c + mp) % 3 and n > 1:
                        continue
                    kw = dict(mu=mu, hbar=hb, max_photons=mp, fanout=fan, cutoff=c)
                    depth = n * k * fan + (2 * n * fan if n * k * fan < 4 else n)
                    pr = 1e-6 if n * k * fan < 4 else 1e-4
                    if k == 1:
                        histories(ctx, (n, name, fan, c, mp, "generate tor"), lambda: sm.generate_torontonian_sample(cov, **kw), n * fan,
                                  lambda r: None if isinstance(r, int) and r == -1 else bad_rows([r], 1, n, 1, mp, True))
                    histories(ctx, (n, name, k, fan, c, mp, "torontonian"), lambda: sm.torontonian_sample_state(cov, k, **kw), depth, lambda r: bad_rows(r, k, n, 1, mp), pr)
                    if mp == 30:
                        with rand.schedule():
                            histories(ctx, (n, name, k, fan, c, mp, "torontonian parallel"), lambda: sm.torontonian_sample_state(cov, k, parallel=True, **kw), depth, lambda r: bad_rows(r, k, n, 1, mp), pr, 1)


@unit(UNITS, quick=[dict(n=n) for n in (1, 2, 3, 4)], timeout=700)
def strong(ctx, n):
    """Strongly squeezed, very hot and very displaced states: every draw history still ends in a sample or a rejection."""
    from thewalrus import samples as sm

    sts = []
    for k in range(3):
        for r in (1.5, 2.5, 3.0, 3.5, 4.0):
            rs = np.array([r * (1 + 0.1 * i) * (-1) ** i for i in range(n)])
            S = g.passive(g.unitary(n, k)) @ g.sq(rs) @ g.passive(g.unitary(n, k + 1))
            sts.append(("pure", k, r, np.zeros(2 * n), S @ S.T))
            if r < 3.5:
                D = np.diag(np.tile([1.0 + 1e-3 * i for i in range(n)], 2))
                sts.append(("noisy", k, r, np.arange(2 * n) * 0.7, S @ D @ S.T))
    for h in (1e2, 1e4):
        sts.append(("hot", 0, h, np.zeros(2 * n), h * np.eye(2 * n)))
        sts.append(("mixed", 0, h, np.ones(2 * n), np.diag(np.tile([h] + [1.0] * (n - 1), 2))))
    for d in (6.0, 12.0):
        sts.append(("displaced", 0, d, np.full(2 * n, d), np.eye(2 * n)))
    for q, (name, k, r, mu0, cov0) in enumerate(sts):
        hb = HB[q % 4]
        mu, cov = g.to_hbar(mu0, (cov0 + cov0.T) / 2, hb)
        c = (3, 2, 4)[q % 3]
        mp = 3 * n
        kw = dict(mean=mu, hbar=hb, cutoff=c, max_photons=mp)
        histories(ctx, (n, name, k, r, "generate"), lambda: sm.generate_hafnian_sample(cov, **kw), n,
                  lambda x: None if isinstance(x, int) and x == -1 else bad_rows([x], 1, n, c - 1, mp, True), 1e-3)
        for fan, tc in ((1, 1), (2, 1)):
            kt = dict(mu=mu, hbar=hb, max_photons=n, fanout=fan, cutoff=tc)
            histories(ctx, (n, name, k, r, fan, "generate tor"), lambda: sm.generate_torontonian_sample(cov, **kt), n * fan,
                      lambda x: None if isinstance(x, int) and x == -1 else bad_rows([x], 1, n, 1, n, True), 1e-3)


@unit(UNITS)
def ranges_other(ctx):
    """The same for the graph, classical, rank-one, thermal, tabulated and distinguishable samplers."""
    from thewalrus import csamples as cs
    from thewalrus import samples as sm
    from thewalrus.quantum import distinguishable_squeezers as ds

    As = [np.array([[2.0]]), np.array([[0, 1], [1, 0]]), np.array([[1.0, 0.5], [0.5, 0.2]]), np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0]])]
    for q, A in enumerate(As):
        n = len(A)
        for k in (1, 2, 3):
            for mp in (1, 2, 30):
                if n * k > 4:
                    continue
                pr = 1e-6 if n * k < 4 else 1e-4
                histories(ctx, ("graph", q, k, mp), lambda: sm.hafnian_sample_graph(A, 0.4, samples=k, cutoff=3, max_photons=mp), n * k + n, lambda r: bad_rows(r, k, n, 2, mp), pr)
                histories(ctx, ("tor graph", q, k, mp), lambda: sm.torontonian_sample_graph(A, 0.4, samples=k, fanout=2, max_photons=mp), 2 * n * k + n, lambda r: bad_rows(r, k, n, 1, mp), pr)
                with rand.schedule():
                    histories(ctx, ("graph parallel", q, k, mp), lambda: sm.hafnian_sample_graph(A, 0.4, samples=k, cutoff=3, max_photons=mp, parallel=True), n * k + n, lambda r: bad_rows(r, k, n, 2, mp), pr, 1)
                    histories(ctx, ("tor graph parallel", q, k, mp), lambda: sm.torontonian_sample_graph(A, 0.4, samples=k, fanout=2, max_photons=mp, parallel=True), 2 * n * k + n, lambda r: bad_rows(r, k, n, 1, mp), pr, 1)
    for n in (1, 2, 3):
        V = np.diag(np.arange(1, 2 * n + 1) * 0.3 + 1.0)
        m = np.arange(2 * n) * 0.2
        for k in (0, 1, 2, 3, 4):
            if n * k > 6:
                continue
            histories(ctx, ("classical", n, k), lambda: sm.hafnian_sample_classical_state(V, k, mean=m), n * k, lambda r: bad_rows(r, k, n, None, None), 1e-4)
            histories(ctx, ("tor classical", n, k), lambda: sm.torontonian_sample_classical_state(V, k, mean=m), n * k, lambda r: bad_rows(r, k, n, 1, None), 1e-4)
            ls, U = np.array([0.1, 0.3, 0.0][:n]), g.unitary(n, 1)
            histories(ctx, ("thermal", n, k), lambda: cs.generate_thermal_samples(ls, U, num_samples=k), n * k, lambda r: bad_rows(r, k, n, None, None, True), 1e-4)
            if k:
                G = np.array([0.5, -0.4, 0.3][:n])
                histories(ctx, ("rank one", n, k), lambda: sm.hafnian_sample_graph_rank_one(G, 0.2, samples=k), 12, lambda r: bad_rows(r, k, n, None, None) or (None if np.all(np.sum(r, axis=1) % 2 == 0) else "odd photon number"), 1e-5)
            for cut in (1, 2, 3):
                T = np.arange(1, cut ** n + 1, dtype=float).reshape((cut,) * n)
                T /= T.sum() * 1.1
                if cut ** (n * k) > 2000:
                    continue
                histories(ctx, ("table", n, k, cut), lambda: sm.photon_number_sampler(T, k), k, lambda r: bad_rows(r, k, n, cut - 1, None, True))
                for ph in (-1, "over", True):
                    histories(ctx, ("table", n, k, cut, ph), lambda: sm.photon_number_sampler(T, k, out_of_bounds=ph), k,
                              lambda r: bad_rows(r, k, n, cut - 1, None, True) if not any(x is ph for x in r) else bad_rows([x for x in r if x is not ph], k - sum(x is ph for x in r), n, cut - 1, None, True))
            Tm = 0.8 * g.unitary(n, 2)
            histories(ctx, ("distinguishable", n, k), lambda: ds.sample(Tm, np.array([0.3, 0.2, 0.1][:n]), n_samples=max(k, 1), input_cutoff=4), 20,
                      lambda r: bad_rows(np.asarray(r), max(k, 1), n, None, 3 * n), 1e-5)


# ---------------------------------------------------------------- seeding and the real thread pool
def calls(sm, cs, ds):
    """name -> (call(k), modes, top)"""
    out = {}
    for q, (name, mu0, cov0) in enumerate(small_states()):
        hb = HB[q]
        mu, cov = g.to_hbar(mu0, cov0, hb)
        out["hafnian", name] = (lambda k, mu=mu, cov=cov, hb=hb, **kw: sm.hafnian_sample_state(cov, k, mean=mu, hbar=hb, **kw), len(mu) // 2, 4)
        out["torontonian", name] = (lambda k, mu=mu, cov=cov, hb=hb, **kw: sm.torontonian_sample_state(cov, k, mu=mu, hbar=hb, **kw), len(mu) // 2, 1)
    A = np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0]])
    out["graph"] = (lambda k, **kw: sm.hafnian_sample_graph(A, 1.0, samples=k, **kw), 3, 4)
    out["tor graph"] = (lambda k, **kw: sm.torontonian_sample_graph(A, 1.0, samples=k, **kw), 3, 1)
    V = np.diag([1.5, 2.0, 1.0, 3.0])
    out["classical"] = (lambda k: sm.hafnian_sample_classical_state(V, k, mean=np.ones(4)), 2, None)
    out["tor classical"] = (lambda k: sm.torontonian_sample_classical_state(V, k), 2, 1)
    out["rank one"] = (lambda k: sm.hafnian_sample_graph_rank_one(np.array([1.0, 2.0, -1.0]), 1.0, samples=k), 3, None)
    P = np.arange(1, 10).reshape(3, 3) / 45.0
    out["table"] = (lambda k: np.array(sm.photon_number_sampler(P, k)), 2, 2)
    out["thermal"] = (lambda k: np.array(cs.generate_thermal_samples(np.array([0.4, 0.5]), g.unitary(2, 1), num_samples=k)), 2, None)
    out["distinguishable"] = (lambda k: np.asarray(ds.sample(0.9 * g.unitary(2, 2), np.array([0.6, 0.5]), n_samples=k)), 2, None)
    return out


@unit(UNITS, timeout=700)
def seeding(ctx):
    """Equal seeds give equal samples after any history; the samplers do not reseed and do not repeat one draw."""
    from thewalrus import csamples as cs
    from thewalrus import samples as sm
    from thewalrus.quantum import distinguishable_squeezers as ds

    C = calls(sm, cs, ds)
    for name, (f, modes, top) in C.items():
        for s in (0, 1, 42, 2 ** 32 - 1):
            for k in (1, 2, 5):
                def same():
                    sm.seed(s)
                    a = f(k)
                    b = f(k)
                    sm.seed(s)
                    c = f(k)
                    d = f(k)
                    sm.seed(seed_val=s)
                    e = f(k)
                    if not (np.array_equal(a, c) and np.array_equal(b, d) and np.array_equal(a, e)):
                        return "seed %d gives %s and then %s" % (s, a.tolist(), c.tolist())
                    return bad_rows(np.asarray(a), k, modes, top, None)

                ctx.true((name, s, k), same)
        for other, (h, _, _) in C.items():
            def hist():
                sm.seed(7)
                a = f(2)
                h(1)
                sm.seed(7)
                b = f(2)
                sm.seed(7)
                h(1)
                x = f(2)
                sm.seed(7)
                h(1)
                y = f(2)
                return bool(np.array_equal(a, b) and np.array_equal(x, y))

            ctx.true((name, "after", other), hist)
            ctx.count(states=4, transitions=7, traces=1)

        def varied():
            hit = []
            orig = np.random.seed
            np.random.seed = lambda *a, **k: hit.append(a) or orig(*a, **k)
            try:
                sm.seed(3)
                hit.clear()
                r = np.asarray(f(60))
            finally:
                np.random.seed = orig
            if hit:
                return "the sampler seeds the random source with %s" % (hit[0],)
            sm.seed(3)
            a = [np.asarray(f(1))[0].tolist() for _ in range(60)]
            sm.seed(4)
            b = [np.asarray(f(1))[0].tolist() for _ in range(60)]
            if len(set(map(tuple, a))) == 1 or len(set(map(tuple, r.tolist()))) == 1:
                return "60 samples are all equal"
            return None if a != b else "the seed has no effect"

        ctx.true((name, "varied"), varied)
    ctx.true("seed without argument", lambda: sm.seed() is None)
    ctx.true("seed default", lambda: sm.seed(None) is None)


@unit(UNITS, timeout=700)
def pool(ctx):
    """The real thread pool with every number of workers: count, range, variety, arguments."""
    import dask

    from thewalrus import csamples as cs
    from thewalrus import samples as sm
    from thewalrus.quantum import distinguishable_squeezers as ds

    for name, (f, modes, top) in calls(sm, cs, ds).items():
        if name not in ("graph", "tor graph") and name[0] not in ("hafnian", "torontonian"):
            continue
        for workers in (1, 2, 3, 8):
            for k in list(range(1, 10)) + [17, 32]:
                with dask.config.set(num_workers=workers):
                    ctx.true((name, workers, k), lambda: bad_rows(f(k, parallel=True), k, modes, top, None))
                ctx.count(traces=1)

        def varied():
            hit = []
            orig = np.random.seed
            np.random.seed = lambda *a, **k: hit.append(a) or orig(*a, **k)
            try:
                sm.seed(11)
                hit.clear()
                r = f(120, parallel=True)
            finally:
                np.random.seed = orig
            if hit:
                return "the sampler seeds the random source with %s" % (hit[0],)
            return None if len(set(map(tuple, r.tolist()))) > 1 else "120 samples are all equal"

        ctx.true((name, "varied"), varied)
