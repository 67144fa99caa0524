"""Units, the case recorder, and the per-process unit executor."""
import hashlib
import importlib
import json
import os
import time
import traceback

import numpy as np

MAX_FAILS = 4  # a unit stops after this many violations
DEFAULT_TOL = 1e-7


class Unit:
    def __init__(self, name, fn, mode, quick, thorough, timeout):
        self.name, self.fn, self.mode = name, fn, mode
        self.quick, self.thorough, self.timeout = quick, thorough, timeout


class StopUnit(Exception):
    pass


def unit(registry, mode="strip", quick=({},), thorough=None, timeout=600):
    """Register a unit: one process per element of quick (or thorough), called with it as kwargs."""

    def deco(fn):
        registry.append(
            Unit(fn.__name__, fn, mode, list(quick), list(quick if thorough is None else thorough), timeout)
        )
        return fn

    return deco


def short(x, limit=900):
    if isinstance(x, np.ndarray):
        s = "%s%r" % (x.dtype, np.array2string(x, threshold=200, precision=9, separator=",").replace("\n", ""))
    elif isinstance(x, (list, tuple)):
        s = "[" + ", ".join(short(y, 300) for y in x) + "]"
    else:
        s = repr(x)
    return s if len(s) <= limit else s[:limit] + "..."


class Ctx:
    """Every case goes through one of eq / true / raises; each has an ordinal used for replay."""

    def __init__(self, tier="quick", only=None):
        self.tier = tier
        self.only = only
        self.n = 0
        self.evals = 0
        self.seen = set()
        self.nontrivial = 0
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.fails = []
        self.outcomes = set()
        self.maxerr = 0.0

    # -- bookkeeping ---------------------------------------------------------------------------
    @property
    def thorough(self):
        return self.tier == "thorough"

    def _enter(self):
        k = self.n
        self.n += 1
        return self.only is None or k == self.only

    def _seen(self, desc, nontrivial):
        self.evals += 1
        if nontrivial:
            h = hash(repr(desc))
            if h not in self.seen:
                self.seen.add(h)
                self.nontrivial += 1

    def _sample(self, desc, data, outcome):
        k = self.evals
        if len(self.samples) < 3 and (k in (1, 17, 400)):
            self.samples.append({"case": short(desc, 300), "data": short(data, 400), "outcome": short(outcome, 200)})

    def fail(self, desc, message, data=None):
        self.fails.append(
            {"ordinal": self.n - 1, "case": short(desc, 600), "data": short(data, 3000), "message": message[:2500]}
        )
        if len(self.fails) >= MAX_FAILS:
            raise StopUnit()

    def count(self, states=0, transitions=0, traces=0):
        self.states += states
        self.transitions += transitions
        self.traces += traces

    # -- oracles -------------------------------------------------------------------------------
    def eq(self, desc, fn, want, scale=None, tol=DEFAULT_TOL, data=None, shape=True, zero_scale=1.0):
        """fn() must equal want up to tol * scale (scale defaults to max(|want|), at least zero_scale)."""
        if not self._enter():
            return None
        try:
            got = fn()
        except StopUnit:
            raise
        except Exception as e:  # pylint: disable=broad-except
            self._seen(desc, True)
            self.fail(desc, "raised %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-4)), data)
            return None
        try:
            g = np.asarray(got)
            if g.dtype == object:
                g = g.astype(complex)
        except Exception as e:  # pylint: disable=broad-except
            self._seen(desc, True)
            self.fail(desc, "result is not numeric (%s): %s" % (e, short(got)), data)
            return None
        w = np.asarray(want)
        if g.dtype.kind not in "biufc":
            self._seen(desc, True)
            self.fail(desc, "result is not numeric: %s" % short(got), data)
            return None
        g, w = (z.astype(int) if z.dtype == bool else z for z in (g, w))
        if shape and g.shape != w.shape:
            self._seen(desc, True)
            self.fail(desc, "shape %s, expected %s" % (g.shape, w.shape), data)
            return got
        if not shape:
            try:
                g, w = np.broadcast_arrays(g, w)
            except ValueError:
                self._seen(desc, True)
                self.fail(desc, "shape %s, expected %s" % (g.shape, w.shape), data)
                return got
        mw = float(np.max(np.abs(w))) if w.size else 0.0
        sc = scale if scale is not None else max(mw, zero_scale)
        with np.errstate(all="ignore"):
            err = np.abs(g - w)
        bad = ~(err <= tol * sc)
        self._seen(desc, mw > 0)
        self._sample(desc, data, want)
        if np.any(bad):
            idx = np.unravel_index(int(np.argmax(np.where(np.isnan(err), np.inf, err))), err.shape) if err.shape else ()
            gi = g[idx] if idx != () else g
            wi = w[idx] if idx != () else w
            self.fail(
                desc,
                "got %s, expected %s (at index %s, |error| %.3g, allowed %.3g)"
                % (short(gi), short(wi), tuple(int(i) for i in idx), float(np.abs(gi - wi)), float(np.max(tol * np.asarray(sc)))),
                data,
            )
        elif err.size:
            with np.errstate(all="ignore"):
                r = np.max(err / np.where(np.asarray(sc) == 0, 1, sc))
            self.maxerr = max(self.maxerr, float(r))
        return got

    def true(self, desc, fn, data=None, nontrivial=True):
        """fn() returns None/True when the property holds, otherwise a message (or False)."""
        if not self._enter():
            return None
        try:
            r = fn()
        except StopUnit:
            raise
        except Exception as e:  # pylint: disable=broad-except
            self._seen(desc, True)
            self.fail(desc, "raised %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-4)), data)
            return None
        self._seen(desc, nontrivial)
        self._sample(desc, data, r)
        if r is None or r is True or (isinstance(r, np.bool_) and bool(r)):
            return True
        self.fail(desc, "violated" if r is False or isinstance(r, np.bool_) else str(r), data)
        return False

    def raises(self, desc, fn, exc=Exception, data=None):
        if not self._enter():
            return
        try:
            r = fn()
        except exc:
            self._seen(desc, True)
            self._sample(desc, data, "rejected")
            return
        except Exception as e:  # pylint: disable=broad-except
            self._seen(desc, True)
            self.fail(desc, "raised %s (%s) instead of %s" % (type(e).__name__, e, exc), data)
            return
        self._seen(desc, True)
        self.fail(desc, "accepted an invalid input and returned %s" % short(r, 300), data)


def load_check(pid):
    return importlib.import_module("mc.checks." + pid.lower())


def find_unit(mod, name):
    for u in mod.UNITS:
        if u.name == name:
            return u
    raise KeyError(name)


def run_unit(pid, name, kwargs, tier, only=None):
    """Run one unit in this process and return its JSON-able report."""
    t0 = time.time()
    mod = load_check(pid)
    u = find_unit(mod, name)
    ctx = Ctx(tier, only)
    err = None
    try:
        u.fn(ctx, **kwargs)
    except StopUnit:
        pass
    except Exception as e:  # pylint: disable=broad-except
        tb = traceback.extract_tb(e.__traceback__)
        text = traceback.format_exc()
        if any(os.sep + "thewalrus" + os.sep in f.filename for f in tb):
            ctx.fails.append({"ordinal": None, "case": "outside a case", "data": "", "message": text[-2500:]})
        else:
            err = text
    return {
        "unit": name,
        "kwargs": kwargs,
        "evals": ctx.evals,
        "nontrivial": ctx.nontrivial,
        "states": ctx.states,
        "transitions": ctx.transitions,
        "traces": ctx.traces,
        "samples": ctx.samples,
        "fails": ctx.fails,
        "outcomes": len(ctx.outcomes),
        "maxerr": ctx.maxerr,
        "error": err,
        "wall": time.time() - t0,
    }


def replay_id(obj):
    return hashlib.sha1(json.dumps(obj, sort_keys=True).encode()).hexdigest()[:10]
