"""C26: parallel kernels under every chunking and interleaving."""
import itertools
import os
import pickle
import subprocess
import sys

import numpy as np

from mc import alphabet as al
from mc import api, env, prange
from mc import gauss as g
from mc.core import unit

PROPERTY = "C26"
LEVEL = "model_checking"
RULE = (
    "states are the scheduling points (statements of the loop bodies reached by a task), transitions the scheduling "
    "decisions; every schedule of the chunks of each parallel loop within the preemption bound is executed on the source "
    "of the kernel taken from the working tree, and the result compared with the sequential one; the compiled kernels are "
    "then run for every number of threads and chunk size (one trace each)"
)
ASSUMPTIONS = [
    "private, shared and reduction variables as in numba: names assigned in the loop are private, names updated with + - * are reductions, everything else is shared",
    "statements are atomic except element updates a[i] op= v (read and write are separate points); helper functions are atomic in the quick tier",
    "contiguous chunks, 2 or 3 tasks, at most 1 or 2 preemptions",
]
UNITS = []


def extra():
    """(name, call) with more repetitions than the general alphabet."""
    import thewalrus as tw
    from thewalrus.loop_hafnian_batch import loop_hafnian_batch
    from thewalrus.loop_hafnian_batch_gamma import loop_hafnian_batch_gamma

    out = []
    A2, A3, A4 = al.sym_gauss(2, 3) / 2.0, al.sym_real(3, 2), al.sym_real(4, 4)
    d2, d3, d4 = np.array([0.5, -0.3 + 0.2j]), np.array([0.4, 0.1, -0.2]), np.array([0.3, 0.2, -0.5, 0.1])
    for gl in (True, False):
        out.append(("haf6 %s" % gl, lambda gl=gl: tw.hafnian_repeated(A2, [3, 3], glynn=gl)))
        out.append(("haf 4 %s" % gl, lambda gl=gl: tw.hafnian_repeated(A4, [2, 2, 1, 1], glynn=gl)))
        out.append(("lhaf even %s" % gl, lambda gl=gl: tw.loop_hafnian(A2, d2, [2, 2], glynn=gl)))
        out.append(("lhaf odd %s" % gl, lambda gl=gl: tw.loop_hafnian(A3, d3, [2, 1, 2], glynn=gl)))
        out.append(("lhaf 4 %s" % gl, lambda gl=gl: tw.loop_hafnian(A4, d4, [1, 2, 1, 2], glynn=gl)))
        for fixed in ([1], [2], [3]):
            for c in (1, 2, 3):
                out.append(("batch %s %s %s" % (fixed, c, gl), lambda f=fixed, c=c, gl=gl: loop_hafnian_batch(A2, d2, np.array(f), c, glynn=gl)))
                out.append(("gamma %s %s %s" % (fixed, c, gl), lambda f=fixed, c=c, gl=gl: loop_hafnian_batch_gamma(A2, np.stack([d2, 2 * d2, -d2]), np.array(f), c, glynn=gl)))
        out.append(("batch 2 %s" % gl, lambda gl=gl: loop_hafnian_batch(A3 + 0j, d3 + 0j, np.array([1, 2]), 3, glynn=gl)))
        out.append(("gamma 2 %s" % gl, lambda gl=gl: loop_hafnian_batch_gamma(A3 + 0j, np.stack([d3, -d3]) + 0j, np.array([1, 2]), 3, glynn=gl)))
    B, C = al.mat_gauss(3, 2, 1), al.mat_gauss(2, 2, 2)
    out.append(("brs", lambda: tw.brs(B, C)))
    out.append(("ubrs", lambda: tw.ubrs(g.unitary(3, 1))))
    for n in (2, 3):
        mu, V = api.state(0, n)
        from thewalrus.quantum import Qmat

        O = np.eye(2 * n) - np.linalg.inv(Qmat(V))
        ga = np.concatenate([np.arange(n) * 0.1 + 0.2j, np.arange(n) * 0.1 - 0.2j])
        out.append(("tor %d" % n, lambda O=O: tw.numba_tor(O)))
        out.append(("ltor %d" % n, lambda O=O, ga=ga: tw.numba_ltor(O, ga)))
        out.append(("rec_tor %d" % n, lambda O=O: tw.rec_torontonian(O)))
        out.append(("rec_ltor %d" % n, lambda O=O, ga=ga: tw.rec_ltorontonian(O, ga)))
    for n in (4, 6):
        S = al.sym_real(n, 1)
        out.append(("mtl %d" % n, lambda S=S: tw.mtl(S)))
        out.append(("lmtl %d" % n, lambda S=S, n=n: tw.lmtl(S, np.arange(n) * 0.3)))
    return out


def calls():
    out = extra()
    for e in api.entries():
        a, k = e.args(0)
        out.append((e.name, lambda e=e, a=a, k=k: e.call(*api.snapshot((a, k)))))
    return out


PARTS = 8


@unit(UNITS, mode="py", quick=[dict(part=i) for i in range(PARTS)], thorough=[dict(part=i, deep=True) for i in range(PARTS)], timeout=840)
def interleavings(ctx, part, deep=False):
    """Every cut of every parallel loop into two chunks, every interleaving with one (small loops: two) preemptions, three chunks."""
    loops = prange.install()
    ctx.true("parallel kernels", lambda: None if all(v is not None for v in loops.values()) else str(loops), nontrivial=bool(loops))
    helpers = [os.path.join(env.REPO, "thewalrus", f) for f in os.listdir(os.path.join(env.REPO, "thewalrus")) if f.endswith(".py")]
    done = set()
    todo = []
    for name, call in calls():
        try:
            ref, seen = prange.run(call)
        except Exception:  # pylint: disable=broad-except
            continue  # failures of the kernels themselves belong to other properties
        for k, (fn, chunk, steps) in enumerate(seen):
            if steps < 2 or steps > (12 if deep else 9):
                continue
            key = (fn, chunk, steps)
            if sum(1 for d in done if d[:3] == key) >= (4 if deep else 1):
                continue
            done.add(key + (name,))
            todo.append((name, call, ref, k, fn, steps))
    todo.sort(key=lambda t: (t[5], t[0]))
    for q, (name, call, ref, k, fn, steps) in enumerate(todo):
        if q % PARTS != part:
            continue
        ctx.outcomes.add(fn)
        plans = []
        for c in range(1, steps) if deep or steps <= 4 else (1, steps // 2):
            plans.append(((c,), 1, ()))
        if steps <= (6 if deep else 2):
            plans.append(((steps // 2,), 2, ()))
        if 3 <= steps <= (8 if deep else 4):
            plans.append(((1, 2), 1, ()))
        if deep and steps <= 4:
            plans.append(((steps // 2,), 1, tuple(helpers)))
        for cuts, bound, more in plans:
            def go():
                for res, ctl in prange.schedules(call, (k, fn[len("/prange/"):]), cuts, bound, more):
                    ctx.count(states=ctl.points, transitions=ctl.pos, traces=1)
                    m = api.same(ref, res, 1e-9)
                    if m:
                        return "loop of %s, %d iterations cut at %s, schedule %s: %s" % (fn, steps, cuts, ctl.tape, m)

            ctx.true((name, k, steps, cuts, bound, bool(more)), go)


def sequential():
    """The calls of extra() evaluated by the Python source of the kernels in a process of its own."""
    out = os.path.join(os.environ["MC_SCRATCH"], "sequential%d.pickle" % os.getpid())
    code = ("import pickle, sys\nfrom mc import env\nenv.prepare('py')\nfrom mc.checks import c26\n"
            "pickle.dump([(n, f()) for n, f in c26.extra()], open(sys.argv[1], 'wb'))")
    subprocess.run([sys.executable, "-B", "-c", code, out], env=env.base_env("py", os.environ["MC_SCRATCH"]), cwd=env.VERIF, check=True)
    return dict(pickle.load(open(out, "rb")))


@unit(UNITS, mode="real", quick=[dict(part=i) for i in range(2)], thorough=[dict(part=i, full=True) for i in range(2)], timeout=840)
def compiled(ctx, part, full=False):
    """The compiled parallel kernels for every number of threads and chunk size."""
    import numba

    top = min(8, numba.config.NUMBA_NUM_THREADS)
    seq = sequential()
    for q, (name, call) in enumerate(extra()):
        kernel = name.split()[0]
        if (kernel in ("gamma", "brs", "ubrs", "tor", "ltor", "rec_tor", "rec_ltor")) != (part == 1):
            continue
        ref = seq[name]
        for threads in range(1, top + 1):
            for size in (0, 1, 2, 3, 5) if full or threads in (2, 3, top) else (0, 1):
                def go():
                    numba.set_num_threads(threads)
                    old = numba.set_parallel_chunksize(size)
                    try:
                        for _ in range(20 if full else 4):
                            m = api.same(ref, call(), 1e-9)
                            ctx.count(traces=1)
                            if m:
                                return m
                    finally:
                        numba.set_parallel_chunksize(old)
                        numba.set_num_threads(1)

                ctx.true((name, threads, size), go)
