"""C27: no access outside arrays, no use of uninitialised memory."""
import numpy as np

from mc import api, shapes
from mc.core import unit

PROPERTY = "C27"
LEVEL = "exploration"
RULE = (
    "every (routine, shape, multiplicity, cutoff, option) in the stated boxes is executed on the compiled routine with "
    "index checking, and on its Python source with every uninitialised allocation filled with two different poisons; one "
    "evaluation per call, non-trivial unless the result is identically zero"
)
ASSUMPTIONS = [
    "index checking is that of numba (NUMBA_BOUNDSCHECK=1), parallel loops run as ordinary loops",
    "uninitialised memory comes from numpy.empty and numpy.empty_like (the only allocators without initial value the package uses)",
]
UNITS = []


def finite(x):
    if isinstance(x, np.ndarray):
        return x.dtype.kind not in "fc" or bool(np.all(np.isfinite(x)))
    if isinstance(x, dict):
        return all(finite(y) for y in x.values())
    if isinstance(x, (list, tuple)):
        return all(finite(y) for y in x)
    if isinstance(x, (float, complex, np.floating, np.complexfloating)):
        return bool(np.isfinite(x))
    return True


@unit(UNITS, mode="bounds", quick=[dict(family=f) for f in shapes.FAMILIES], thorough=[dict(family=f, deep=True) for f in shapes.FAMILIES], timeout=840)
def indices(ctx, family, deep=False):
    """Compiled routines with index checking."""
    for desc, call in shapes.cases(family, deep):
        def go():
            try:
                r = call()
            except IndexError as e:
                return "access outside an array: %s" % e
            return None if finite(r) else "result is not finite: %r" % (r,)

        ctx.true(desc, go)


POISON = [{"f": np.nan, "c": complex(np.nan, np.nan), "i": 7, "u": 7, "b": True}, {"f": -37.25, "c": -37.25 + 11.5j, "i": -5, "u": 3, "b": False}]


@unit(UNITS, mode="py", quick=[dict(family=f) for f in shapes.FAMILIES], thorough=[dict(family=f, deep=True) for f in shapes.FAMILIES], timeout=840)
def uninitialised(ctx, family, deep=False):
    """Python sources with poisoned allocations."""
    real = np.empty, np.empty_like
    used = [0]

    def poisoned(p):
        def fill(a):
            used[0] += 1
            if a.dtype.kind in p:
                a[...] = p[a.dtype.kind]
            return a

        return (lambda *a, **k: fill(real[0](*a, **k))), (lambda *a, **k: fill(real[1](*a, **k)))

    def run(call, p):
        np.empty, np.empty_like = poisoned(p)
        try:
            return call()
        finally:
            np.empty, np.empty_like = real

    for desc, call in shapes.cases(family, deep):
        def go():
            try:
                a, b = run(call, POISON[0]), run(call, POISON[1])
            except IndexError as e:
                return "access outside an array: %s" % e
            m = api.same(a, b, 1e-9)
            if m:
                return "the result depends on uninitialised memory: %s" % m
            return None if finite(a) else "result is not finite: %r" % (a,)

        ctx.true(desc, go)
