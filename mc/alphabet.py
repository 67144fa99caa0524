"""Deterministic finite alphabets of matrices.  No random numbers: entry (i, j) of variant k is a
fixed arithmetic hash, so a case is identified by its name alone."""
import itertools

import numpy as np


def h(*args):
    x = 2166136261
    for a in args:
        x = (x ^ (int(a) & 0xFFFF)) * 16777619 & 0xFFFFFFFF
        x ^= x >> 15
    x = x * 2246822519 & 0xFFFFFFFF
    return (x ^ x >> 13) & 0xFFFFFFFF


def ent(lo, hi, *args):
    return lo + h(*args) % (hi - lo + 1)


def sym_int(n, k=0, lo=-2, hi=2):
    A = np.zeros((n, n), dtype=np.int64)
    for i in range(n):
        for j in range(i, n):
            A[i, j] = A[j, i] = ent(lo, hi, 11, k, i, j)
    return A


def sym_gauss(n, k=0):
    return sym_int(n, k) + 1j * sym_int(n, k + 1000)


def sym_real(n, k=0):
    return sym_int(n, k, -8, 8) / 8.0 + sym_int(n, k + 500, -1, 1) / 3.0


def mat_int(n, m, k=0, lo=-2, hi=2):
    A = np.zeros((n, m), dtype=np.int64)
    for i in range(n):
        for j in range(m):
            A[i, j] = ent(lo, hi, 23, k, i, j)
    return A


def mat_gauss(n, m, k=0):
    return mat_int(n, m, k) + 1j * mat_int(n, m, k + 1000)


def vec_int(n, k=0, lo=-2, hi=2):
    return np.array([ent(lo, hi, 37, k, i) for i in range(n)], dtype=np.int64)


def vec_gauss(n, k=0):
    return vec_int(n, k) + 1j * vec_int(n, k + 1000)


def sym_families(n):
    """(name, matrix) pairs covering the structures the implementations branch on."""
    out = []
    I = np.eye(n, dtype=np.int64)
    J = np.ones((n, n), dtype=np.int64)
    out.append(("zero", 0 * J))
    out.append(("ident", I.copy()))
    out.append(("diag", np.diag(vec_int(n, 3, 1, 3))))
    out.append(("ones", J.copy()))
    out.append(("ones-diag", J - I))
    if n == 0:
        return out
    path = np.zeros((n, n), dtype=np.int64)
    for i in range(n - 1):
        path[i, i + 1] = path[i + 1, i] = 1 + i % 2
    out.append(("path", path))
    out.append(("path+loops", path + 2 * I))
    cyc = path.copy()
    if n > 2:
        cyc[0, n - 1] = cyc[n - 1, 0] = 3
    out.append(("cycle", cyc))
    anti = I[::-1].copy()
    out.append(("antidiag", anti))
    out.append(("antidiag+loops", anti + np.diag(vec_int(n, 5, 0, 2))))
    bip = np.zeros((n, n), dtype=np.int64)
    hlf = n // 2
    B = mat_int(hlf, n - hlf, 7, -2, 3)
    bip[:hlf, hlf:] = B
    bip[hlf:, :hlf] = B.T
    out.append(("bipartite", bip))
    for w in (1, 2, 3):
        if w < n:
            S = sym_int(n, 40 + w, -2, 3)
            out.append(("band%d" % w, np.where(np.abs(np.subtract.outer(range(n), range(n))) <= w, S, 0)))
    star = np.zeros((n, n), dtype=np.int64)
    star[0, :] = star[:, 0] = 1
    out.append(("star", star))
    blk = np.kron(np.eye((n + 1) // 2, dtype=np.int64), np.array([[1, 2], [2, -1]]))[:n, :n]
    out.append(("blocks", blk))
    Z = sym_int(n, 60, 1, 3)
    Z[n // 2, :] = Z[:, n // 2] = 0
    out.append(("zero-row", Z))
    u = vec_int(n, 70, -2, 2)
    u[u == 0] = 1
    out.append(("rank1", np.outer(u, u)))
    for k in range(3):
        out.append(("int%d" % k, sym_int(n, k)))
        out.append(("real%d" % k, sym_real(n, k)))
        out.append(("gauss%d" % k, sym_gauss(n, k)))
    out.append(("imag", 1j * sym_int(n, 90)))
    out.append(("neg", -J))
    # structures whose sums cancel: diagonals, rows, traces
    sg = np.array([(-1) ** i for i in range(n)], dtype=np.int64)
    out.append(("alternate", np.array([[1 + abs(i - j) % 3 if (min(i, j) % 2 == 0) else -1 - abs(i - j) % 3
                                        for j in range(n)] for i in range(n)], dtype=np.int64)))
    out.append(("laplacian", n * I - J))
    out.append(("trace0", np.diag(sg) + sym_int(n, 95) * (1 - I)))
    out.append(("units", np.array([1, 1j, -1, -1j])[np.mod(sym_int(n, 96, 0, 3), 4)]))
    out.append(("units0", np.array([0, 1j, -1j, 1])[np.mod(sym_int(n, 97, 0, 3), 4)]))
    out.append(("small", sym_real(n, 5) * 1e-2))
    out.append(("large", sym_real(n, 6) * 50.0))
    return out


LAYOUTS = ("C", "F", "ro", "stride", "neg", "slice")


def layout(A, kind):
    """The same array in another memory layout."""
    A = np.asarray(A)
    if kind == "C":
        return np.ascontiguousarray(A).copy()
    if kind == "F":
        return np.asfortranarray(A).copy(order="F")
    if kind == "ro":
        B = A.copy()
        B.setflags(write=False)
        return B
    if kind == "stride":
        B = np.zeros(tuple(2 * s for s in A.shape), dtype=A.dtype)
        sl = tuple(slice(None, None, 2) for _ in A.shape)
        B[sl] = A
        return B[sl]
    if kind == "neg":
        sl = tuple(slice(None, None, -1) for _ in A.shape)
        return A[sl].copy()[sl]
    if kind == "slice":
        B = np.full(tuple(s + 2 for s in A.shape), 7, dtype=A.dtype)
        sl = tuple(slice(1, -1) for _ in A.shape)
        B[sl] = A
        return B[sl]
    raise ValueError(kind)


def graphs(n):
    """Every labelled graph on n vertices, as 0/1 adjacency matrices."""
    pairs = list(itertools.combinations(range(n), 2))
    for bits in itertools.product((0, 1), repeat=len(pairs)):
        A = np.zeros((n, n), dtype=np.int64)
        for (i, j), b in zip(pairs, bits):
            A[i, j] = A[j, i] = b
        yield bits, A


def graph_classes(n):
    """One representative of every isomorphism class of graphs on n vertices."""
    pairs = list(itertools.combinations(range(n), 2))
    idx = {p: q for q, p in enumerate(pairs)}
    perms = []
    for p in itertools.permutations(range(n)):
        perms.append([idx[tuple(sorted((p[i], p[j])))] for i, j in pairs])
    seen = bytearray(1 << len(pairs))
    out = []
    P = np.array(perms)
    pw = 1 << np.arange(len(pairs), dtype=np.int64)
    for code in range(1 << len(pairs)):
        if seen[code]:
            continue
        bits = (code >> np.arange(len(pairs))) & 1
        codes = (bits[P] * pw).sum(axis=1)
        for c in set(codes.tolist()):
            seen[c] = 1
        A = np.zeros((n, n), dtype=np.int64)
        for (i, j), b in zip(pairs, bits):
            A[i, j] = A[j, i] = b
        out.append((code, A))
    return out


def multi(n, maxrep, maxsum=None):
    """Every multiplicity vector of length n with entries <= maxrep and bounded sum, simplest first."""
    out = [k for k in itertools.product(range(maxrep + 1), repeat=n) if maxsum is None or sum(k) <= maxsum]
    out.sort(key=lambda k: (sum(k), k))
    return out


def compositions(total, parts):
    if parts == 0:
        if total == 0:
            yield ()
        return
    if parts == 1:
        yield (total,)
        return
    for a in range(total + 1):
        for rest in compositions(total - a, parts - 1):
            yield (a,) + rest
