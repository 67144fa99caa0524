"""Calls that reach every compiled routine, over all small shapes, multiplicities and cutoffs."""
import itertools

import numpy as np

from mc import alphabet as al
from mc import api
from mc import gauss as g

FAMILIES = ("hafnian", "repeated", "batch", "gamma", "hermite", "gates", "permanent", "torontonian", "montrealer", "misc", "samplers")


def vectors(n, top, most=None):
    """All multiplicity vectors with entries up to top, sorted by total, at most `most` of them (every k-th)."""
    vs = sorted(itertools.product(range(top + 1), repeat=n), key=lambda v: (sum(v), v))
    if most is not None and len(vs) > most:
        step = len(vs) / most
        vs = [vs[int(i * step)] for i in range(most)] + [vs[-1]]
    return vs


def otilde(n, k=0):
    from thewalrus.quantum import Qmat

    V = api.state(k, min(n, 3))[1] if n else np.zeros((0, 0))
    if n > 3:
        S = g.passive(g.unitary(n, k)) @ g.sq(0.2 + 0.1 * np.arange(n), 0.3 * np.arange(n))
        V = S @ S.T
    if n == 0:
        return np.zeros((0, 0))
    return np.eye(2 * n) - np.linalg.inv(Qmat(V))


def gam(n):
    a = 0.1 * np.arange(n) - 0.2 + 0.15j
    return np.concatenate([a, a.conj()])


def cases(family, deep=False):
    """(description, thunk) pairs."""
    import thewalrus as tw
    from thewalrus import charpoly as cp
    from thewalrus import fock_gradients as fg
    from thewalrus import quantum as q
    from thewalrus import samples as sm
    from thewalrus.loop_hafnian_batch import loop_hafnian_batch
    from thewalrus.loop_hafnian_batch_gamma import loop_hafnian_batch_gamma

    def mats(n):
        yield "int", al.sym_int(n, n, -2, 3)
        yield "real", al.sym_real(n, n)
        yield "complex", al.sym_gauss(n, n) / 2.0
        yield "zero", np.zeros((n, n))
        yield "ones", np.ones((n, n))
        if n > 1:
            Z = al.sym_real(n, n)
            Z[n // 2] = Z[:, n // 2] = 0
            yield "zero row", Z
            B = np.zeros((n, n))
            B[: n // 2, n // 2:] = 1
            yield "bipartite", B + B.T

    if family == "hafnian":
        for n in range(0, 11 if deep else 9):
            for nm, A in mats(n):
                for meth in ("glynn", "inclexcl", "recursive"):
                    for loop in (False, True):
                        yield (nm, n, meth, loop), lambda A=A, m=meth, l=loop: tw.hafnian(A, loop=l, method=m)
        for n in range(1, 9):
            A = np.abs(al.sym_real(n, n))
            yield ("banded", n), lambda A=A: tw.hafnian_banded(np.triu(np.tril(A, 2), -2), loop=True)
            yield ("sparse", n), lambda A=A: tw.hafnian_sparse(A, loop=True)
            if n % 2 == 0:
                yield ("approx", n), lambda A=A: tw.hafnian(A, approx=True, num_samples=3) * 0
    elif family == "repeated":
        for n in range(1, 6 if deep else 5):
            for k, v in enumerate(vectors(n, {1: 9, 2: 5, 3: 3}.get(n, 2), 400 if deep else 60)):
                for nm, A in list(mats(n))[k % 3:: 3]:
                    d = al.vec_int(n, k) / 2.0 + 0.25
                    for gl in (True, False):
                        yield (nm, v, gl, "rep"), lambda A=A, v=v, gl=gl: tw.hafnian_repeated(A, list(v), glynn=gl)
                        yield (nm, v, gl, "loop"), lambda A=A, v=v, gl=gl, d=d: tw.loop_hafnian(A, D=d, reps=list(v), glynn=gl)
                        yield (nm, v, gl, "mu"), lambda A=A, v=v, gl=gl, d=d: tw.hafnian_repeated(A, list(v), mu=d, loop=True, glynn=gl)
    elif family in ("batch", "gamma"):
        for n in range(1, 6 if deep else 5):
            for k, v in enumerate(vectors(n - 1, {1: 4, 2: 5, 3: 3}.get(n, 2), 200 if deep else 30)):
                A = al.sym_gauss(n, k + n) / 2.0 if k % 2 else al.sym_real(n, k + n) + 0j
                d = al.vec_gauss(n, k) / 2.0 + 0.25
                for c in range(0, 8 if deep else 6):
                    for gl in (True, False):
                        if family == "batch":
                            yield (v, c, gl), lambda A=A, d=d, v=v, c=c, gl=gl: loop_hafnian_batch(A, d, np.array(v, dtype=int), c, glynn=gl)
                        else:
                            for m in (1, 2, 3) if c in (1, 4) else (2,):
                                D = np.stack([d * (i + 1) for i in range(m)])
                                yield (v, c, gl, m), lambda A=A, D=D, v=v, c=c, gl=gl: loop_hafnian_batch_gamma(A, D, np.array(v, dtype=int), c, glynn=gl)
    elif family == "hermite":
        for n in (1, 2, 3, 4):
            A = al.sym_gauss(n, n) / 2.0
            y = al.vec_gauss(n, n) / 2.0
            top = {1: 9, 2: 5, 3: 3}.get(n, 2)
            cut = [tuple(c) for c in itertools.product(range(1, top + 1), repeat=n)]
            cut = cut[:: max(1, len(cut) // (120 if deep else 30))] + [cut[-1]]
            for c in cut:
                for rn in (False, True):
                    yield ("hermite", c, rn), lambda A=A, y=y, c=c, rn=rn: tw.hermite_multidimensional(A, c, y=y, renorm=rn)
                    yield ("real", c, rn), lambda A=A, y=y, c=c, rn=rn: tw.hermite_multidimensional(A.real, c, y=y.real, renorm=rn, modified=True)
                    yield ("batched", c, rn), lambda A=A, y=y, c=c, rn=rn: tw.hafnian_batched(A, c, mu=y, renorm=rn)
                    T = tw.hermite_multidimensional(A, c, y=y, renorm=rn, modified=True)
                    yield ("grad", c, rn), lambda T=T, A=A, y=y, rn=rn: tw.grad_hermite_multidimensional(T, A, y, renorm=rn)
        for n in (1, 2, 3):
            U = g.unitary(n, n)
            R = np.block([[np.zeros((n, n)), U], [U.T, np.zeros((n, n))]])
            for c in range(1, {1: 8, 2: 5, 3: 3}[n]):
                for rn in (False, True):
                    yield ("interferometer", n, c, rn), lambda R=R, c=c, rn=rn: tw.interferometer(R, c, renorm=rn)
    elif family == "gates":
        for c in range(1, 11 if deep else 8):
            for nm in ("displacement", "squeezing", "two_mode_squeezing", "beamsplitter", "mzgate"):
                if c > (7 if deep else 5) and nm not in ("displacement", "squeezing"):
                    continue
                for r in (0.0, 0.4, -0.7):
                    fn, gr = getattr(fg, nm), getattr(fg, "grad_" + nm)
                    yield (nm, c, r), lambda fn=fn, r=r, c=c: fn(r, 0.3, c)
                    yield ("grad " + nm, c, r), lambda fn=fn, gr=gr, r=r, c=c: gr(fn(r, 0.3, c), r, 0.3)
            yield ("loss", c), lambda c=c: q.loss_mat(0.3, c)
    elif family == "permanent":
        for n in range(0, 9 if deep else 8):
            for nm, A in (("int", al.mat_int(n, n, n)), ("real", al.mat_int(n, n, n) / 3.0), ("gauss", al.mat_gauss(n, n, n)), ("ones", np.ones((n, n)))):
                for meth in ("bbfg", "ryser"):
                    yield (n, nm, meth), lambda A=A, m=meth: tw.perm(A, method=m)
        for n in (1, 2, 3):
            for v in vectors(n, 3, 40):
                yield ("rep", v), lambda n=n, v=v: tw.permanent_repeated(al.mat_int(n, n, n) + 0.5, list(v))
        for m, n in itertools.product(range(6), range(6)):
            if n:
                yield ("brs", m, n), lambda m=m, n=n: tw.brs(al.mat_gauss(m, n, 1), al.mat_gauss(n, n, 2))
                yield ("ubrs", m, n), lambda m=m, n=n: tw.ubrs(al.mat_gauss(m, n, 1))
        for n in range(0, 6):
            yield ("ubrs", n), lambda n=n: tw.ubrs(al.mat_gauss(n, n, 1))
        for n in (1, 2, 3):
            U = g.unitary(n, 2)
            for a in vectors(n, 2):
                for b in vectors(n, 2 if n < 3 else 1):
                    if sum(a) == sum(b):
                        yield ("fock_prob", a, b), lambda a=a, b=b, U=U: _fp("fock_prob")(list(a), list(b), U)
                    if max(b) <= 1 and sum(a) >= sum(b):
                        yield ("fock_threshold", a, b), lambda a=a, b=b, U=U: _fp("fock_threshold_prob")(list(a), list(b), U)
    elif family == "torontonian":
        for n in range(0, 7 if deep else 6):
            for k in (0, 1):
                O = otilde(n, k)
                for real in (False, True):
                    M = np.ascontiguousarray(O.real) if real else O
                    for fn, a in ((tw.numba_tor, (M,)), (tw.rec_torontonian, (M,)), (tw.numba_ltor, (M, gam(n))), (tw.rec_ltorontonian, (M, gam(n))),
                                  (tw.tor, (M,)), (tw.tor, (M, False)), (tw.ltor, (M, gam(n))), (tw.ltor, (M, gam(n), False))):
                        if n == 0 and len(a) > 1:
                            a = (a[0], gam(0)) + a[2:] if len(a) > 2 or fn in (tw.numba_ltor, tw.rec_ltorontonian, tw.ltor) else a
                        yield (getattr(fn, "__name__", "f"), n, k, real, len(a)), lambda fn=fn, a=a: fn(*a)
        for n in (1, 2, 3):
            mu, V = api.state(0, n)
            for pat in itertools.product((0, 1), repeat=n):
                yield ("threshold", pat), lambda mu=mu, V=V, pat=pat: tw.threshold_detection_prob(mu, V, np.array(pat))
                yield ("threshold 0", pat), lambda mu=mu, V=V, pat=pat: tw.threshold_detection_prob(0 * mu, V, np.array(pat))
    elif family == "montrealer":
        for n in range(2, 13 if deep else 11, 2):
            for nm, A in mats(n):
                yield (n, nm, "mtl"), lambda A=A: tw.mtl(A)
                yield (n, nm, "lmtl"), lambda A=A, n=n: tw.lmtl(A, al.vec_int(n, 3) / 2.0)
    elif family == "misc":
        for n in range(1, 9):
            for nm, A in (("int", al.mat_int(n, n, n) + 0.0), ("gauss", al.mat_gauss(n, n, n)), ("zero", np.zeros((n, n))), ("tri", np.triu(np.ones((n, n)))), ("sub0", np.tril(np.ones((n, n))))):
                yield ("charpoly", n, nm), lambda A=A: cp.charpoly(A)
                for p in sorted({1, 2, n, n + 1, 2 * n, 3 * n + 1}):
                    yield ("powertrace", n, nm, p), lambda A=A, p=p: cp.powertrace(A, p)
        for n in range(1, 7):
            for r in (1, 2, 3):
                yield ("low rank", n, r), lambda n=n, r=r: tw.low_rank_hafnian(al.mat_int(n, r, n) + 0.5)
    elif family == "samplers":
        for n in (1, 2, 3):
            mu, V = api.state(0, n)
            for m in (mu, 0 * mu):
                for cutoff in (1, 2, 5):
                    yield ("haf", n, cutoff, bool(m.any())), lambda V=V, m=m, c=cutoff: _seed(lambda: sm.generate_hafnian_sample(V, mean=m, cutoff=c, max_photons=4))
                yield ("tor", n, bool(m.any())), lambda V=V, m=m: _seed(lambda: sm.generate_torontonian_sample(V, mu=m))
            for c in (1, 2, 4):
                yield ("probabilities", n, c), lambda mu=mu, V=V, c=c: q.probabilities(mu, V, c)
                yield ("density", n, c), lambda mu=mu, V=V, c=c: q.density_matrix(mu, V, cutoff=c) if n < 3 else 0
        for e in api.entries():
            for v in e.variants:
                yield ("api", e.name, v), lambda e=e, v=v: e.call(*e.args(v))


def _fp(nm):
    import thewalrus._permanent as p

    return getattr(p, nm)


def _seed(f):
    np.random.seed(3)
    return f()
