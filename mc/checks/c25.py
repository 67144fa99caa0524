"""C25: calls leave their arguments alone and do not depend on history, layout or aliasing."""
import itertools
import os
import pickle

import numpy as np

from mc import alphabet as al
from mc import api
from mc.core import unit

PROPERTY = "C25"
LEVEL = "model_checking"
RULE = (
    "states are the points between public calls of a history, transitions the calls; every history is executed on the "
    "real code and the result of its last call compared with the result of the same call in a fresh process"
)
ASSUMPTIONS = [
    "the alphabet is every public function with up to three argument sets (two of equal shape and different values, one of another shape)",
    "random functions are reseeded before every call; history units run the Python source of the kernels, layout units the compiled kernels",
]
UNITS = []


def fresh(entries):
    """Result of every (entry, variant) in a process that made no other call."""
    out = {}
    for q, e in enumerate(entries):
        for v in e.variants:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    a, k = e.args(v)
                    try:
                        res = ("ok", e.call(a, k))
                    except Exception as x:  # pylint: disable=broad-except
                        res = ("raised", "%s: %s" % (type(x).__name__, x))
                    with os.fdopen(w, "wb") as f:
                        pickle.dump(res, f)
                finally:
                    os._exit(0)
            os.close(w)
            with os.fdopen(r, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
            out[q, v] = pickle.loads(data) if data else ("raised", "the process died")
    return out


def expect(base, got):
    if base[0] != "ok":
        return "in a fresh process the call fails: %s" % base[1]
    return api.same(base[1], got)


def step(e, v):
    a, k = e.args(v)
    return e.call(a, k)


ALL8 = [dict(part=i) for i in range(8)]


@unit(UNITS, mode="py", quick=ALL8, thorough=[dict(part=i, full=True) for i in range(8)], timeout=800)
def pairs(ctx, part, full=False):
    """Every ordered pair of calls: the second is not affected by the first."""
    E = api.entries()
    items = [(q, v) for q, e in enumerate(E) for v in e.variants]
    base = fresh(E)
    mine = [it for i, it in enumerate(items) if i % 8 == part]
    for q, v in mine:
        msgs = []

        def row():
            for p, u in items:
                if not full and p != q and (v == 2 or u != (1 if v == 0 and 1 in E[p].variants else 0)):
                    continue
                step(E[q], v)
                m = expect(base[p, u], step(E[p], u))
                ctx.count(states=3, transitions=2, traces=1)
                if m:
                    return "%s (arguments %d) after %s (arguments %d): %s" % (E[p].name, u, E[q].name, v, m)

        ctx.true((E[q].name, v), row)


@unit(UNITS, mode="py", quick=[dict(part=i) for i in range(4)], thorough=[dict(part=i, depth=6) for i in range(4)], timeout=800)
def words(ctx, part, depth=4):
    """Every sequence of calls of one function up to the depth, and calls on one array object refilled between calls."""
    E = api.entries()
    base = fresh(E)
    for q, e in enumerate(E):
        if q % 4 != part:
            continue

        def run():
            d = depth if len(e.variants) > 2 else depth + 1
            for word in itertools.product(e.variants, repeat=d):
                for v in word:
                    m = expect(base[q, v], step(e, v))
                    if m:
                        return "calls with arguments %s: %s" % (word, m)
                ctx.count(states=d + 1, transitions=d, traces=1)

        ctx.true((e.name, "words"), run)

        def refill():
            for v, u in itertools.permutations([x for x in e.variants if x < 2], 2):
                a, k = e.args(v)
                b, l = e.args(u)
                try:
                    e.call(a, k)
                except Exception as x:  # pylint: disable=broad-except
                    return "raised %s" % x
                if not put(a, b) or not put(k, l):
                    continue
                m = expect(base[q, u], e.call(a, l if not put(k, l) else k))
                ctx.count(states=3, transitions=2, traces=1)
                if m:
                    return "same array objects with new contents (%d -> %d): %s" % (v, u, m)

        ctx.true((e.name, "refilled"), refill)

        def corrupt():
            for v in e.variants:
                r = step(e, v)
                api.map_arrays(r, spoil)
                m = expect(base[q, v], step(e, v))
                ctx.count(states=3, transitions=2, traces=1)
                if m:
                    return "after the caller overwrote an earlier result: %s" % m

        ctx.true((e.name, "overwritten result"), corrupt)


def surroundings():
    st = np.random.get_state()
    return (st[1].tobytes(), st[2]), repr(np.geterr()), repr(np.get_printoptions()), os.getcwd(), dict(os.environ)


def put(a, b):
    """Copy the arrays of b into those of a; False when the structures differ otherwise."""
    if isinstance(a, np.ndarray):
        if not isinstance(b, np.ndarray) or a.shape != b.shape or a.dtype != b.dtype:
            return False
        a[...] = b
        return True
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all([put(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all([put(a[k], b[k]) for k in a])
    return a == b


def spoil(x):
    try:
        if x.dtype != object:
            x[...] = 7
    except ValueError:
        pass  # a read-only result cannot be overwritten
    return x


@unit(UNITS, quick=ALL8, thorough=ALL8, timeout=800)
def arguments(ctx, part):
    """Compiled code: arguments stay bitwise the same, in every memory layout the result is the same, twice in a row."""
    E = api.entries()
    for q, e in enumerate(E):
        if q % 8 != part:
            continue
        for v in e.variants:
            def kept():
                a, k = e.args(v)
                s = api.snapshot((a, k))
                np.random.seed(9)
                before = surroundings()
                r1 = e.fn(*a, **k)
                if hasattr(r1, "__next__"):
                    list(itertools.islice(r1, 300))
                after = surroundings()
                if before[1:] != after[1:]:
                    return "the call changes global settings"
                if not e.random and before[0] != after[0]:
                    return "a call that draws nothing changes the state of the random source"
                if not api.bitwise(s, (a, k)):
                    return "the arguments %s became %s" % (s, (a, k))
                r1 = e.call(a, k)
                if not api.bitwise(s, (a, k)):
                    return "the arguments %s became %s" % (s, (a, k))
                r2 = e.call(a, k)
                ctx.count(states=3, transitions=2, traces=1)
                return api.same(r1, r2)

            ctx.true((e.name, v, "kept"), kept)
            if v == 2 or (v == 1 and not ctx.thorough):
                continue
            ref = None
            for kind in ("F", "stride", "neg", "slice", "ro"):
                if kind in ("neg", "slice") and not ctx.thorough and q % 3:
                    continue
                a, k = e.args(v)
                if ref is None:
                    ref = [e.call(*e.args(v))]
                if not any(isinstance(x, np.ndarray) for x in flatten((a, k))):
                    continue
                a, k = api.map_arrays(a, lambda x: al.layout(x, kind)), api.map_arrays(k, lambda x: al.layout(x, kind))

                def lay():
                    s = api.snapshot((a, k))
                    r = e.call(a, k)
                    if not all(np.array_equal(x, y) for x, y in zip([z for z in flatten(s) if isinstance(z, np.ndarray)], [z for z in flatten((a, k)) if isinstance(z, np.ndarray)])):
                        return "the arguments changed"
                    ctx.count(states=2, transitions=1, traces=1)
                    return api.same(ref[0], r, 1e-9)

                ctx.true((e.name, v, kind), lay)


def flatten(x):
    if isinstance(x, (list, tuple)):
        for y in x:
            yield from flatten(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from flatten(y)
    else:
        yield x


@unit(UNITS, mode="py")
def aliases(ctx):
    """The same array (or overlapping views) given for several parameters."""
    E = api.entries()
    for e in E:
        for v in e.variants:
            a, k = e.args(v)
            arrs = [(i, x) for i, x in list(enumerate(a)) + list(k.items()) if isinstance(x, np.ndarray)]
            for (i, x), (j, y) in itertools.combinations(arrs, 2):
                if x.shape != y.shape:
                    continue

                def shared():
                    def build(copy):
                        b, l = e.args(v)
                        b = list(b)
                        src = b[i] if isinstance(i, int) else l[i]
                        val = src.copy() if copy else src
                        if isinstance(j, int):
                            b[j] = val
                        else:
                            l[j] = val
                        return tuple(b), l

                    try:
                        want = ("ok", e.call(*build(True)))
                    except Exception as x:  # pylint: disable=broad-except
                        want = ("raised", type(x).__name__)
                    b, l = build(False)
                    s = api.snapshot((b, l))
                    try:
                        got = ("ok", e.call(b, l))
                    except Exception as x:  # pylint: disable=broad-except
                        got = ("raised", type(x).__name__)
                    ctx.count(states=2, transitions=2, traces=1)
                    if not api.bitwise(s, (b, l)):
                        return "the shared argument changed"
                    return api.same(want, got)

                ctx.true((e.name, v, "shared", i, j), shared)
            # all arrays as adjacent views of one buffer: writing past or into an argument shows in its neighbour
            if len(arrs) >= 1:
                def packed():
                    want = e.call(*e.args(v))
                    b, l = e.args(v)
                    tot = sum(x.nbytes + 64 for _, x in arrs) + 64
                    buf = np.full(tot, 0x5A, dtype=np.uint8)
                    pos = [64 - buf.ctypes.data % 64]
                    used = []

                    def place(x):
                        o = pos[0]
                        z = buf[o:o + x.nbytes].view(x.dtype).reshape(x.shape)
                        z[...] = x
                        used.append((o, x.nbytes))
                        pos[0] = o + (x.nbytes + 63) // 64 * 64
                        return z

                    b = tuple(place(x) if isinstance(x, np.ndarray) else x for x in b)
                    l = {n: place(x) if isinstance(x, np.ndarray) else x for n, x in l.items()}
                    img = buf.copy()
                    got = e.call(b, l)
                    ctx.count(states=2, transitions=2, traces=1)
                    if not np.array_equal(img, buf):
                        return "the call wrote to the memory of its arguments"
                    return api.same(want, got)

                ctx.true((e.name, v, "packed"), packed)
    # documented call forms with one array in two roles
    import thewalrus as tw
    from thewalrus import quantum as q

    for n in (2, 4):
        A = al.sym_real(n, 3)
        d = np.diag(A)
        ctx.eq((n, "loop_hafnian diagonal view"), lambda: tw.loop_hafnian(A, D=A.diagonal()), tw.loop_hafnian(A, D=d.copy()))
        ctx.eq((n, "lmtl row view"), lambda: tw.lmtl(A, A[0]), tw.lmtl(A, A[0].copy()))
        ctx.eq((n, "hermite row view"), lambda: tw.hermite_multidimensional(A, 3, y=A[0]), tw.hermite_multidimensional(A, 3, y=A[0].copy()))
        ctx.eq((n, "hafnian_repeated mu view"), lambda: tw.hafnian_repeated(A, [1] * n, mu=A[:, 0], loop=True), tw.hafnian_repeated(A, [1] * n, mu=A[:, 0].copy(), loop=True))
        ctx.eq((n, "low_rank transposed"), lambda: tw.low_rank_hafnian(A[:, :2]), tw.low_rank_hafnian(A[:, :2].copy()))
        B = al.mat_int(n, n, 1) + 0.5
        ctx.eq((n, "perm transposed"), lambda: tw.perm(B.T), tw.perm(B.T.copy()))
        ctx.eq((n, "brs same"), lambda: tw.brs(B, B), tw.brs(B.copy(), B.copy()))
    mu, V = api.state(0)
    ctx.eq("fidelity same", lambda: q.fidelity(mu, V, mu, V), 1.0)
