"""Boring reference models, written from the definitions; none of them imports thewalrus."""
import itertools
import math
from functools import lru_cache

import numpy as np


def plain(A):
    """Matrix as nested python lists (exact for integer entries)."""
    return np.asarray(A).tolist()


def matchings(n):
    """All perfect matchings of range(n) as tuples of pairs."""
    if n == 0:
        return [()]
    if n % 2:
        return []
    out = []

    def rec(rest, acc):
        if not rest:
            out.append(tuple(acc))
            return
        a = rest[0]
        for k in range(1, len(rest)):
            rec(rest[1:k] + rest[k + 1:], acc + [(a, rest[k])])

    rec(tuple(range(n)), [])
    return out


def loop_matchings(n):
    """All single-pair matchings: perfect matchings where (i, i) is allowed."""
    out = []

    def rec(rest, acc):
        if not rest:
            out.append(tuple(acc))
            return
        a = rest[0]
        rec(rest[1:], acc + [(a, a)])
        for k in range(1, len(rest)):
            rec(rest[1:k] + rest[k + 1:], acc + [(a, rest[k])])

    rec(tuple(range(n)), [])
    return out


def haf(A, loop=False, D=None):
    """Sum over perfect matchings (single-pair matchings if loop), by dynamic programming on subsets."""
    A = plain(A)
    n = len(A)
    d = None
    if loop:
        d = [A[i][i] for i in range(n)] if D is None else plain(D)
    if not loop and n % 2:
        return 0

    @lru_cache(maxsize=None)
    def rec(mask):
        if mask == 0:
            return 1
        i = (mask & -mask).bit_length() - 1
        rest = mask ^ (1 << i)
        s = 0
        if loop and d[i] != 0:
            s += d[i] * rec(rest)
        m = rest
        row = A[i]
        while m:
            b = m & -m
            j = b.bit_length() - 1
            if row[j] != 0:
                s += row[j] * rec(rest ^ b)
            m ^= b
        return s

    return rec((1 << n) - 1)


def haf_reps(A, reps, mu=None):
    """(Loop) hafnian with multiplicities by the defining recursion
    H(k) = mu_i H(k-e_i) + sum_j (k-e_i)_j A_ij H(k-e_i-e_j); mu=None: no loops."""
    A = plain(A)
    n = len(A)
    m = [0] * n if mu is None else plain(mu)

    @lru_cache(maxsize=None)
    def rec(k):
        i = next((q for q in range(n) if k[q]), None)
        if i is None:
            return 1
        low = list(k)
        low[i] -= 1
        s = 0
        if m[i] != 0:
            s += m[i] * rec(tuple(low))
        for j in range(n):
            if low[j] and A[i][j] != 0:
                c = low[j]
                low[j] -= 1
                s += c * A[i][j] * rec(tuple(low))
                low[j] += 1
        return s

    return rec(tuple(int(r) for r in reps))


def lhaf_lattice(A, mu, box):
    """The whole lattice {H(k): k < box} of loop hafnians with multiplicities, and the number of
    lowering transitions evaluated.  box: tuple of cutoffs."""
    A = np.asarray(A)
    mu = np.asarray(mu)
    n = len(mu)
    out = np.zeros(box, dtype=complex)
    trans = 0
    for k in itertools.product(*(range(b) for b in box)):
        i = next((q for q in range(n) if k[q]), None)
        if i is None:
            out[k] = 1
            continue
        low = list(k)
        low[i] -= 1
        s = mu[i] * out[tuple(low)]
        trans += 1
        for j in range(n):
            if low[j]:
                c = low[j]
                low[j] -= 1
                s = s + c * A[i, j] * out[tuple(low)]
                low[j] += 1
                trans += 1
        out[k] = s
    return out, trans


def permanent(M):
    """Sum over permutations by dynamic programming on column subsets (Ryser-free)."""
    M = plain(M)
    n = len(M)

    @lru_cache(maxsize=None)
    def rec(mask):
        i = bin(mask).count("1")
        if i == n:
            return 1
        s = 0
        for j in range(n):
            if not mask >> j & 1 and M[i][j] != 0:
                s += M[i][j] * rec(mask | 1 << j)
        return s

    return rec(0)


def factorials(k):
    out = 1
    for x in k:
        out *= math.factorial(int(x))
    return out


def absmat(A):
    return np.abs(np.asarray(A))


def fock_evolve(U, n):
    """Amplitudes of the Fock state |n> sent through a_j^dag -> sum_i U_ij a_i^dag (U may be non-square).
    Returns ({output pattern: amplitude}, states, transitions)."""
    U = np.asarray(U)
    M = U.shape[0]
    cur = {(0,) * M: 1.0}
    states, trans = 1, 0
    for j, r in enumerate(n):
        for _ in range(int(r)):
            new = {}
            for k, a in cur.items():
                for i in range(M):
                    u = U[i, j]
                    if u == 0:
                        continue
                    kk = k[:i] + (k[i] + 1,) + k[i + 1:]
                    new[kk] = new.get(kk, 0) + a * u * math.sqrt(k[i] + 1)
                    trans += 1
            cur = new
            states += len(cur)
    norm = math.sqrt(factorials(n))
    return {k: a / norm for k, a in cur.items()}, states, trans
