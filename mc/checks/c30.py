"""C30: reference enumerators, for every history of their memoised iterators."""
import itertools

import numpy as np

from mc import alphabet as al
from mc.core import unit

PROPERTY = "C30"
LEVEL = "model_checking"
RULE = (
    "states are the histories (open, advance, drain, abandon, restart, evict) of the iterators over memoised arguments, "
    "transitions the operations; every history up to the bound is executed on the real enumerators with fresh labels, each "
    "emitted matching is checked against the set enumerated by an independent recursion, and every iterator left open is "
    "drained at the end (one trace per history)"
)
ASSUMPTIONS = ["the order of the matchings is not specified, only that each is listed exactly once"]
UNITS = []


def ref():
    import thewalrus.reference as r

    return r


def match(points, singles, pairs):
    """All partitions of the points into singles and pairs, as sets of frozensets."""
    if not points:
        return [frozenset()]
    a, rest = points[0], points[1:]
    out = []
    if singles:
        out += [m | {frozenset((a,))} for m in match(rest, singles, pairs)]
    if pairs:
        for i, b in enumerate(rest):
            out += [m | {frozenset((a, b))} for m in match(rest[:i] + rest[i + 1:], singles, pairs)]
    return out


def reduced(points):
    """Perfect matchings which close a single cycle with the pairs (i, i + m)."""
    m = len(points) // 2
    out = []
    for mm in match(tuple(range(2 * m)), False, True):
        nxt = {}
        for p in mm:
            a, b = tuple(p)
            nxt[a], nxt[b] = b, a
        k, steps = 0, 0
        while True:
            k = (nxt[k] + m) % (2 * m)
            steps += 1
            if k == 0:
                break
        if steps == m:
            out.append(frozenset(frozenset(points[i] for i in p) for p in mm))
    return out


def reduced_loops(points):
    """The reduced matchings and those with one pair replaced by two loops."""
    out = []
    for mm in reduced(points):
        out.append(mm)
        for p in mm:
            out.append((mm - {p}) | {frozenset((i,)) for i in p})
    return out


def norm(p):
    """A matching as a set of frozensets; loops (i, i) are singles."""
    if not isinstance(p, tuple) or not all(isinstance(q, tuple) and 1 <= len(q) <= 2 for q in p):
        raise ValueError("not a tuple of tuples: %r" % (p,))
    s = frozenset(frozenset(q) for q in p)
    if len(s) != len(p):
        raise ValueError("a block occurs twice: %r" % (p,))
    return s


def complete(it, want):
    got = [norm(p) for p in it]
    if len(set(got)) != len(got):
        return "listed twice: %r" % (next(tuple(map(tuple, g)) for g in got if got.count(g) > 1),)
    if set(got) != set(want):
        return "%d matchings, missing %s, extra %s" % (len(got), [tuple(map(tuple, g)) for g in list(set(want) - set(got))[:3]], [tuple(map(tuple, g)) for g in list(set(got) - set(want))[:3]])
    return None


def loops_marked(it, n):
    """spm and rspm write loops as (i, i), covering n points."""
    for p in it:
        if any(len(q) != 2 for q in p):
            return "loops must be written (i, i): %r" % (p,)
    return None


LABELS = {
    "range": lambda n: tuple(range(n)), "shifted": lambda n: tuple(range(7, 7 + n)), "strings": lambda n: tuple("abcdefghij"[:n]),
    "reversed": lambda n: tuple(range(n))[::-1], "gaps": lambda n: tuple(i * i + 3 for i in range(n)), "tuples": lambda n: tuple((i, -i) for i in range(n)),
}


@unit(UNITS, quick=[dict(top=8)], thorough=[dict(top=11)])
def lists(ctx, top):
    """Every enumerator, number of points and kind of labels."""
    r = ref()
    for ln, lab in LABELS.items():
        for n in range(1, top + 1):
            s = lab(n)
            for rep in range(2):
                for singles, pairs in ((True, True), (False, True), (True, False)):
                    ctx.true(("partitions", ln, n, singles, pairs, rep), lambda: complete(r.partitions(s, singles, pairs), match(s, singles, pairs)))
                ctx.true(("partitions default", ln, n, rep), lambda: complete(r.partitions(s), match(s, True, True)))
                ctx.true(("spm", ln, n, rep), lambda: complete(r.spm(s), match(s, True, True)) or loops_marked(r.spm(s), n))
                ctx.true(("pmp", ln, n, rep), lambda: complete(r.pmp(s), match(s, False, True)), nontrivial=n % 2 == 0)
                if n % 2 == 0:
                    ctx.true(("rpmp", ln, n, rep), lambda: complete(r.rpmp(s), reduced(s)) or loops_marked(r.rpmp(s), n))
                    ctx.true(("rspm", ln, n, rep), lambda: complete(r.rspm(s), reduced_loops(s)) or loops_marked(r.rspm(s), n))
    for n in range(1, 12):
        ctx.true(("bitstrings", n), lambda: None if sorted(r.bitstrings(n)) == sorted("0" + format(i, "b").zfill(n - 1)[-(n - 1):] if n > 1 else "0" for i in range(2 ** (n - 1))) else "%r" % list(r.bitstrings(n)))
    tel = [1, 1]
    for n in range(2, 150):
        tel.append(tel[-1] + (n - 1) * tel[-2])
    for n in list(range(0, 150)) + [149, 80, 3, 0, 1, 2]:
        ctx.true(("T", n), lambda: None if r.T(n) == tel[n] and isinstance(r.T(n), int) else "T(%d) = %r" % (n, r.T(n)))
    for n in (1, 2, 3, 5, 6):
        s = tuple(range(100, 100 + n))
        ctx.true(("keywords", n), lambda: complete(r.partitions(s, singles=False, pairs=True), match(s, False, True)) or complete(r.partitions(s, pairs=True), match(s, True, True))
                 or complete(r.partitions(s, pairs=False), match(s, True, False)) or complete(r.partitions(s=s, singles=True), match(s, True, True)))


@unit(UNITS, quick=[dict(top=6)], thorough=[dict(top=8)])
def functions(ctx, top):
    """The sums over the matchings."""
    r = ref()
    for n in range(1, top + 1):
        idx = tuple(range(n))
        for nm, A in list(al.sym_families(n)) + [("gauss", al.sym_gauss(n, 2)), ("real", al.sym_real(n, 3)), ("rows", al.sym_int(n, 9, -4, 4))]:
            def total(ms):
                t = 0
                for m in ms:
                    x = 1
                    for p in m:
                        p = tuple(p)
                        x = x * A[p[0], p[-1]]
                    t = t + x
                return t

            for loop in (False, True):
                ctx.eq(("hafnian", nm, n, loop), lambda: r.hafnian(A, loop=loop), total(match(idx, loop, True)))
                if n % 2 == 0:
                    ctx.eq(("mtl", nm, n, loop), lambda: r.mtl(A, loop=loop), total(reduced_loops(idx) if loop else reduced(idx)))


COUNTER = [10 ** 6]


def targets(kind):
    """(function, arguments builder from fresh labels, reference)."""
    r = ref()
    S = lambda f, a, b: (lambda L: f(L[a:b]), lambda L: None)
    return {
        "pmp": [(lambda L: r.pmp(L[:4]), lambda L: match(L[:4], False, True)), (lambda L: r.pmp(L[:6]), lambda L: match(L[:6], False, True)), (lambda L: r.pmp(L[2:6]), lambda L: match(L[2:6], False, True))],
        "spm": [(lambda L: r.spm(L[:3]), lambda L: match(L[:3], True, True)), (lambda L: r.spm(L[1:3]), lambda L: match(L[1:3], True, True)), (lambda L: r.partitions(L[:4], True, True), lambda L: match(L[:4], True, True))],
        "mixed": [(lambda L: r.partitions(L[:3], True, True), lambda L: match(L[:3], True, True)), (lambda L: r.partitions(L[:3], False, True), lambda L: match(L[:3], False, True)),
                  (lambda L: r.partitions(L[:3], True, False), lambda L: match(L[:3], True, False))],
        "reduced": [(lambda L: r.rpmp(L[:4]), lambda L: reduced(L[:4])), (lambda L: r.rspm(L[:4]), lambda L: reduced_loops(L[:4])), (lambda L: r.pmp(L[:4]), lambda L: match(L[:4], False, True))],
    }[kind]


def history(kind, ops, cache):
    """Run one history: ops are ('open', slot, target), ('next', slot), ('drain', slot), ('drop', slot)."""
    COUNTER[0] += 10
    L = tuple(range(COUNTER[0], COUNTER[0] + 6))
    tg = cache[0]
    want = {}
    slots = {}

    def ref_of(t):
        if t not in want:  # the reference sets are computed once, on generic labels
            if t not in cache[1]:
                cache[1][t] = [tuple(sorted(tuple(sorted(p)) for p in m)) for m in tg[t][1](tuple(range(6)))]
            want[t] = set(frozenset(frozenset(L[i] for i in p) for p in m) for m in cache[1][t])
        return want[t]

    def step(slot):
        it, t, seen = slots[slot]
        try:
            p = norm(next(it))
        except StopIteration:
            if seen != ref_of(t):
                return "an iterator over target %d ended after %d of %d matchings" % (t, len(seen), len(ref_of(t)))
            return "end"
        if p in seen:
            return "an iterator over target %d listed %s twice" % (t, tuple(map(tuple, p)))
        if p not in ref_of(t):
            return "an iterator over target %d listed the foreign %s" % (t, tuple(map(tuple, p)))
        seen.add(p)
        return None

    def drain(slot):
        for _ in range(10 ** 5):
            m = step(slot)
            if m:
                return None if m == "end" else m
        return "does not end"

    for op in ops:
        m = None
        if op[0] == "open":
            slots[op[1]] = (iter(tg[op[2]][0](L)), op[2], set())
        elif op[1] not in slots:
            continue
        elif op[0] == "next":
            m = step(op[1])
            if m == "end":
                m = None
        elif op[0] == "drain":
            m = drain(op[1])
        elif op[0] == "drop":
            del slots[op[1]]
        if m:
            return m
    for s in list(slots):
        m = drain(s)
        if m:
            return m
    for t in range(len(tg)):  # and the next call still lists everything
        slots["last"] = (iter(tg[t][0](L)), t, set())
        m = drain("last")
        if m:
            return "after the history: " + m
    return None


@unit(UNITS, quick=[dict(kind=k, depth=5) for k in ("pmp", "spm", "mixed", "reduced")], thorough=[dict(kind=k, depth=6) for k in ("pmp", "spm", "mixed", "reduced")], timeout=840)
def histories(ctx, kind, depth):
    """All histories of two iterators."""
    tg = targets(kind)
    cache = (tg, {})
    alphabet = [("open", s, t) for s in (0, 1) for t in range(len(tg))] + [(o, s) for o in ("next", "drain", "drop") for s in (0, 1)]
    for d in range(1, depth + 1):
        for first in range(len(tg)):
            def go():
                for rest in itertools.product(alphabet, repeat=d - 1):
                    ops = (("open", 0, first),) + rest
                    # an operation on a slot that is not open changes nothing: such histories are shorter ones
                    opened = {0}
                    ok = True
                    for op in rest:
                        if op[0] == "open":
                            opened.add(op[1])
                        elif op[1] not in opened:
                            ok = False
                            break
                        elif op[0] == "drop":
                            opened.discard(op[1])
                    if not ok:
                        continue
                    ctx.count(states=1, transitions=len(ops), traces=1)
                    try:
                        m = history(kind, ops, cache)
                    except Exception as e:  # pylint: disable=broad-except
                        m = "raised %s: %s" % (type(e).__name__, e)
                    if m:
                        return "history %s: %s" % (list(ops), m)

            ctx.true((kind, d, first), go)


@unit(UNITS, quick=[dict(depth=8)], thorough=[dict(depth=10)])
def memo(ctx, depth):
    """The memoising decorator itself: all histories of calls and advances on small caches; generator results are replayed in full, values are computed once while they are kept."""
    r = ref()
    for maxsize in (1, 2, 3):
        for length in (0, 1, 3):
            alphabet = [("call", a) for a in (0, 1, 2)] + [("next",), ("other",)]

            def go():
                for ops in itertools.product(alphabet, repeat=depth if length == 1 and maxsize == 2 and ctx.thorough else min(depth, 5)):
                    if ops[0][0] != "call":
                        continue

                    def gen(a):
                        for i in range(length):
                            yield (a, i)

                    f = r.memoized(gen, maxsize)
                    its = []
                    for op in ops:
                        if op[0] == "call":
                            its.append([iter(f(op[1])), op[1], 0])
                        elif its:
                            it = its[-1] if op[0] == "next" else its[0]
                            x = next(it[0], None)
                            if x != ((it[1], it[2]) if it[2] < length else None):
                                return "maxsize %d, history %s: %r" % (maxsize, ops, x)
                            it[2] = min(it[2] + 1, length)
                    for it in its:
                        if list(it[0]) != [(it[1], i) for i in range(it[2], length)]:
                            return "maxsize %d, history %s" % (maxsize, ops)
                    ctx.count(states=1, transitions=len(ops), traces=1)

            ctx.true(("generators", maxsize, length), go)

        def values():
            for ops in itertools.product(range(4), repeat=6):
                calls = []

                def val(a, b=0):
                    calls.append(a)
                    return [a, b]

                f = r.memoized(val, maxsize)
                kept = []  # the arguments of the last distinct insertions, oldest first
                for a in ops:
                    n0 = len(calls)
                    if f(a) != [a, 0]:
                        return "f(%d) after %s" % (a, ops)
                    if a in kept and len(calls) != n0:
                        return "maxsize %d, calls %s: f(%d) was computed again" % (maxsize, ops, a)
                    if a not in kept:
                        if len(calls) == n0:
                            return "maxsize %d, calls %s: f(%d) was kept beyond the size of the cache" % (maxsize, ops, a)
                        kept = (kept + [a])[-maxsize:]
                ctx.count(states=1, transitions=len(ops), traces=1)

        ctx.true(("values", maxsize), values)
    for size in (1, 2, 5):
        def limited():
            d = r.LimitedSizeDict(size_limit=size)
            for i in range(12):
                d[i] = i * i
                if list(d) != list(range(max(0, i + 1 - size), i + 1)) or any(d[k] != k * k for k in d):
                    return "%r after %d insertions" % (d, i + 1)

        ctx.true(("limited", size), limited)


@unit(UNITS)
def eviction(ctx):
    """Iterators that are open while more than the size of the cache is evicted, and calls after that."""
    r = ref()
    for start in range(0, 6):
        def go():
            COUNTER[0] += 10
            L = tuple(range(COUNTER[0], COUNTER[0] + 6))
            a, b = iter(r.pmp(L)), iter(r.spm(L[:4]))
            ga = [norm(next(a)) for _ in range(start)]
            gb = [norm(next(b)) for _ in range(start)]
            for k in range(getattr(r, "MAXSIZE", 1000) + 5):
                COUNTER[0] += 10
                list(r.pmp((COUNTER[0], COUNTER[0] + 1)))
            c = [norm(p) for p in r.pmp(L)]
            ga += [norm(p) for p in a]
            gb += [norm(p) for p in b]
            ctx.count(states=1, transitions=getattr(r, "MAXSIZE", 1000) + 5, traces=1)
            for got, want in ((ga, match(L, False, True)), (gb, match(L[:4], True, True)), (c, match(L, False, True))):
                if len(got) != len(want) or set(got) != set(want):
                    return "%d matchings instead of %d" % (len(got), len(want))

        ctx.true(("evicted after", start), go)
