"""Process environment: which code is loaded and in which numba mode.

Modes
  strip   numba kernels compiled, but with parallel= and cache= removed: single threaded, safe to fork
  real    thewalrus exactly as a user imports it (parallel kernels, threading layer)
  py      NUMBA_DISABLE_JIT=1: every kernel is the Python source itself
  bounds  strip + NUMBA_BOUNDSCHECK=1: an out-of-range index raises IndexError
"""
import os
import sys

REPO = os.environ.get("MC_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def base_env(mode, scratch):
    env = dict(os.environ)
    env.update(
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        OMP_WAIT_POLICY="passive",
        NUMBA_CACHE_DIR=os.path.join(scratch, "numba"),
        MC_MODE=mode,
        MC_SCRATCH=scratch,
        PYTHONPATH=VERIF,
    )
    for k in ("NUMBA_DISABLE_JIT", "NUMBA_BOUNDSCHECK", "NUMBA_NUM_THREADS"):
        env.pop(k, None)
    if mode == "py":
        env["NUMBA_DISABLE_JIT"] = "1"
    if mode == "bounds":
        env["NUMBA_BOUNDSCHECK"] = "1"
    return env


def prepare(mode):
    """Import thewalrus from the working tree in the given mode."""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    import warnings

    warnings.simplefilter("ignore")
    import numba

    if mode in ("strip", "bounds"):
        for name in ("jit", "njit"):
            orig = getattr(numba, name)

            def wrapped(*args, _orig=orig, **kw):
                kw.pop("parallel", None)
                kw.pop("cache", None)
                return _orig(*args, **kw)

            setattr(numba, name, wrapped)
    if mode == "py":  # remember the compilation options of every kernel
        for name in ("jit", "njit"):
            orig = getattr(numba, name)

            def noted(*args, _orig=orig, **kw):
                def tag(f):
                    try:
                        f.__mc_jit__ = dict(kw)
                    except AttributeError:
                        pass
                    return f

                r = _orig(*args, **kw)
                if args and callable(args[0]):
                    return tag(r)
                return lambda f: tag(r(f))

            setattr(numba, name, noted)
    if mode == "py":  # the only intrinsic the kernels use that has no Python implementation
        import numba.cpython.unsafe.tuple as nt

        nt.tuple_setitem = lambda t, i, v: t[:i] + (v,) + t[i + 1:]
    import thewalrus

    path = os.path.realpath(thewalrus.__file__)
    if not path.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("thewalrus was not imported from %s but from %s" % (REPO, path))
    import thewalrus.charpoly, thewalrus.csamples, thewalrus.decompositions  # noqa
    import thewalrus.fock_gradients, thewalrus.grouped_click_probabilities  # noqa
    import thewalrus.loop_hafnian_batch, thewalrus.loop_hafnian_batch_gamma  # noqa
    import thewalrus.quantum, thewalrus.random, thewalrus.reference  # noqa
    import thewalrus.samples, thewalrus.symplectic  # noqa

    if mode == "py":  # compiled loops accept integral float bounds
        import builtins
        import thewalrus._hermite_multidimensional as hm

        hm.range = lambda *a: builtins.range(*(int(x) for x in a))
    return thewalrus
