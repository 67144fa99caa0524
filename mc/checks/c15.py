"""C15: reductions, marginals and relabelling of modes."""
import itertools
import math

import numpy as np

from mc import alphabet as al
from mc import gauss as g
from mc.core import unit

PROPERTY = "C15"
LEVEL = "exploration"
RULE = (
    "every ordered list of distinct modes (all containers) of every state in the alphabet is reduced; every tensor of "
    "marginals is compared entry by entry; every permutation of the modes is applied"
)
ASSUMPTIONS = ["agreement up to 1e-9 absolute for probabilities"]
UNITS = []
HB = (2, 1, 0.5, 1.7)


def lists(n, sizes=None):
    for r in range(1, n + 1):
        if sizes is not None and r not in sizes:
            continue
        yield from itertools.permutations(range(n), r)


def containers(p):
    out = [("list", list(p)), ("array", np.array(p))]
    out.append(("int32", np.array(p, dtype=np.int32)))
    out.append(("tuple", tuple(p)))
    out.append(("uint8", np.array(p, dtype=np.uint8)))
    out.append(("numbers", [np.int16(x) for x in p]))
    if len(p) == 1:
        out.append(("int", p[0]))
    if list(p) == list(range(p[0], p[-1] + 1)):
        out.append(("range", range(p[0], p[-1] + 1)))
    return out


@unit(UNITS, quick=[dict(n=n) for n in (1, 2, 3, 4, 5)], thorough=[dict(n=n) for n in (1, 2, 3, 4, 5, 6)])
def reductions(ctx, n):
    from thewalrus import symplectic as sy
    from thewalrus.quantum import conversions as cv

    # entries identify their position: entry (i, j) = 100 i + j symmetrised
    ix = np.arange(2 * n)
    label = np.add.outer(ix, ix) + 100.0 * np.outer(ix + 1, ix + 1)
    pool = [("labels", ix * 1.0 + 1, label)] + [(s[0], s[1], s[2]) for s in g.states(n) if s[0] in ("mixed+d", "coh-last", "lossy-last")]
    pool.append(("int", ix + 1, label.astype(np.int64)))
    asym = label + np.subtract.outer(ix, ix) * 0.25
    pool += [("asym " + k, al.layout(ix * 1.0 - 2, k), al.layout(asym, k)) for k in al.LAYOUTS]
    sizes = None if n < 6 else (1, 2, 6)
    for name, mu, cov in pool:
        for p in lists(n, sizes):
            ind = list(p) + [q + n for q in p]
            wm, wc = mu[ind], cov[np.ix_(ind, ind)]
            for cname, c in containers(p):
                ctx.eq((n, name, p, cname, "gaussian-mu"), lambda: cv.reduced_gaussian(mu, cov, c)[0], wm, tol=0)
                ctx.eq((n, name, p, cname, "gaussian-cov"), lambda: cv.reduced_gaussian(mu, cov, c)[1], wc, tol=0)
                ctx.eq((n, name, p, cname, "state-mu"), lambda: sy.reduced_state(mu, cov, c)[0], wm, tol=0)
                ctx.eq((n, name, p, cname, "state-cov"), lambda: sy.reduced_state(mu, cov, c)[1], wc, tol=0)
        ctx.count(states=1)


@unit(UNITS, quick=[dict(n=n) for n in (1, 2, 3, 4)])
def bad_modes(ctx, n):
    from thewalrus import symplectic as sy
    from thewalrus.quantum import conversions as cv

    mu, cov = np.zeros(2 * n), np.eye(2 * n)
    for bad in (n, n + 1, 2 * n, 2 * n + 1, -1, -n):
        for c in (bad, [bad], [0, bad], [bad, 0], np.array([bad])):
            ctx.raises((n, repr(c), "gaussian"), lambda: cv.reduced_gaussian(mu, cov, c))
            ctx.raises((n, repr(c), "state"), lambda: sy.reduced_state(mu, cov, c))


def exact_probs(mu, cov, cutoff):
    n = len(mu) // 2
    rho, _ = g.dm_lattice(mu, cov, cutoff)
    d = cutoff ** n
    return np.real(np.diagonal(rho.reshape(d, d))).reshape((cutoff,) * n)


@unit(UNITS, quick=[dict(M=M, n=n, c=c) for M, n, c in ((1, 1, 5), (2, 1, 4), (2, 2, 4), (3, 2, 3), (3, 3, 3), (4, 2, 3), (4, 3, 2), (5, 2, 2), (4, 4, 2), (9, 2, 2))],
      thorough=[dict(M=M, n=n, c=c) for M, n, c in ((1, 1, 8), (2, 1, 6), (2, 2, 6), (3, 2, 5), (3, 3, 4), (4, 2, 4), (4, 3, 3), (5, 2, 3), (5, 3, 3), (4, 4, 3), (5, 4, 2), (9, 2, 2), (11, 2, 2), (10, 3, 2))])
def marginals(ctx, M, n, c):
    """n_body_marginals against the exact distribution of every ordered list of modes."""
    from thewalrus import quantum as qm

    which = ("vac", "coh", "sq", "mixed+d", "lossy+d", "tms", "pure+d") if M < 5 else ("mixed+d", "tms")
    for name, mu0, cov0, _ in g.states(M, which=which):
        want = []
        for r in range(1, n + 1):
            T = np.full((M,) * r + (c,) * r, np.nan)
            for p in itertools.permutations(range(M), r):
                s = tuple(sorted(p))
                if p == s:
                    ind = list(s) + [q + M for q in s]
                    T[p] = exact_probs(mu0[ind], cov0[np.ix_(ind, ind)], c)
                else:
                    # the existing tests pin this axis order; it differs from the documented one for cycles (see cyclic_order)
                    T[p] = T[s].transpose(np.argsort(p))
                ctx.count(states=1)
            want.append(T)
        for hb in (HB if M < 4 else (2, 0.5)):
            mu, cov = g.to_hbar(mu0, cov0, hb)
            got = {}

            def call():
                if not got:
                    got["r"] = qm.n_body_marginals(mu, cov, c, n, hbar=hb)
                return got["r"]

            ctx.eq((M, n, c, name, hb, "orders"), lambda: len(call()), n)
            for r in range(1, n + 1):
                ctx.eq((M, n, c, name, hb, r, "shape"), lambda: np.array(call()[r - 1].shape), np.array((M,) * r + (c,) * r))
                for p in itertools.permutations(range(M), r):
                    ctx.eq((M, n, c, name, hb, p), lambda: call()[r - 1][p], want[r - 1][p], tol=1e-9)
                    ctx.count(traces=1)
            if M > 4:
                break


@unit(UNITS)
def cyclic_order(ctx):
    """The documented meaning p_{k,l,m}[i,j,h] of an entry, for a cyclic order of the modes."""
    from thewalrus import quantum as qm

    mu, cov = g.states(3, which=("mixed+d",))[0][1:3]
    P = exact_probs(mu, cov, 3)
    ctx.eq("n_body_marginals cyclic order", lambda: qm.n_body_marginals(mu, cov, 3, 3)[2][2, 0, 1], P.transpose(2, 0, 1), tol=1e-9)


@unit(UNITS, quick=[dict(n=2, c=8), dict(n=3, c=5)], thorough=[dict(n=2, c=12), dict(n=3, c=8), dict(n=4, c=5)])
def sums(ctx, n, c):
    """Marginals bracket the sums of the library's own full distribution (no reduced-state formula used)."""
    from thewalrus import quantum as qm
    from thewalrus import symplectic as sy

    for name, mu, cov, _ in g.states(n):
        full = {}

        def probs():
            if not full:
                full["p"] = np.asarray(qm.probabilities(mu, cov, c))
            return full["p"]

        for r in range(1, n):
            for s in itertools.combinations(range(n), r):
                def bracket():
                    P = probs()
                    tail = 1 - P.sum()
                    part = P.sum(axis=tuple(i for i in range(n) if i not in s))
                    m = np.asarray(qm.probabilities(*sy.reduced_state(mu, cov, list(s)), c))
                    if np.any(m < part - 1e-9) or np.any(m > part + tail + 1e-9):
                        return "marginal of modes %s not between the partial sums and the partial sums plus the tail %.3g: %s vs %s" % (s, tail, m, part)

                ctx.true((n, c, name, s), bracket)


@unit(UNITS, quick=[dict(n=2), dict(n=3), dict(n=4)], thorough=[dict(n=2), dict(n=3), dict(n=4), dict(n=5)])
def relabel(ctx, n):
    """Permuting the modes of the state permutes every probability, amplitude and statistic."""
    from thewalrus import quantum as qm
    from thewalrus import threshold_detection_prob

    c = {2: 5, 3: 3, 4: 2, 5: 2}[n]
    perms = list(itertools.permutations(range(n)))
    if n == 5:
        perms = perms[::5]
    pats = al.multi(n, 2, 3)
    names = None if n < 4 else ("pure+d", "mixed+d", "lossy-last", "tms")
    for name, mu, cov, pure in g.states(n, which=names):
        base = {}

        def get(key, fn):
            if key not in base:
                base[key] = fn()
            return base[key]

        for p in perms:
            ind = list(p) + [q + n for q in p]
            m2, c2 = mu[ind], cov[np.ix_(ind, ind)]
            P = np.asarray(get("prob", lambda: qm.probabilities(mu, cov, c)))
            ctx.eq((n, name, p, "prob"), lambda: qm.probabilities(m2, c2, c), np.transpose(P, p), tol=1e-9)
            if n < 4:
                rho = np.asarray(get("dm", lambda: qm.density_matrix(mu, cov, cutoff=3)))
                axes = [ax for q in p for ax in (2 * q, 2 * q + 1)]
                ctx.eq((n, name, p, "dm"), lambda: qm.density_matrix(m2, c2, cutoff=3), np.transpose(rho, axes), tol=1e-9)
            if pure and n < 5:
                psi = np.asarray(get("sv", lambda: qm.state_vector(mu, cov, cutoff=3, check_purity=False)))
                ph = {}

                def upto_phase():
                    b = np.asarray(qm.state_vector(m2, c2, cutoff=3, check_purity=False))
                    a = np.transpose(psi, p)
                    k = np.unravel_index(np.argmax(np.abs(a)), a.shape)
                    z = b[k] / a[k]
                    ph["z"] = abs(z)
                    return b / (z / abs(z)) if z != 0 else b

                ctx.eq((n, name, p, "sv"), upto_phase, np.transpose(psi, p), tol=1e-9)
            for clicks in itertools.product((0, 1), repeat=n):
                t = get(("t", clicks), lambda: threshold_detection_prob(mu, cov, np.array(clicks)))
                ctx.eq((n, name, p, clicks, "click"), lambda: threshold_detection_prob(m2, c2, np.array([clicks[q] for q in p])), t, tol=1e-9)
            mean = np.asarray(get("mean", lambda: qm.photon_number_mean_vector(mu, cov)))
            ctx.eq((n, name, p, "mean"), lambda: qm.photon_number_mean_vector(m2, c2), mean[list(p)], tol=1e-9)
            cm = np.asarray(get("cm", lambda: qm.photon_number_covmat(mu, cov)))
            ctx.eq((n, name, p, "covmat"), lambda: qm.photon_number_covmat(m2, c2), cm[np.ix_(p, p)], tol=1e-9)
            for k in pats[: 12]:
                e = get(("e", k), lambda: qm.density_matrix_element(mu, cov, list(k), list(k)))
                ctx.eq((n, name, p, k, "elem"), lambda: qm.density_matrix_element(m2, c2, [k[q] for q in p], [k[q] for q in p]), e, tol=1e-9)
            ctx.count(transitions=1)


@unit(UNITS, quick=[dict(n=n) for n in (1, 2, 3, 4)], thorough=[dict(n=n) for n in (1, 2, 3, 4, 5)])
def classical_prefix(ctx, n):
    """find_classical_subsystem over every arrangement of mode kinds."""
    from thewalrus import quantum as qm

    kinds = "VTCS" + ("E" if n > 1 else "")
    r = 0.4  # squeezed modes have smallest eigenvalue 1 - 0.5507, entangled pairs 1 - 0.6988
    for word in itertools.product(kinds, repeat=n):
        V = np.eye(2 * n)
        es = [i for i, w in enumerate(word) if w == "E"]
        if len(es) % 2:
            continue
        for i, w in enumerate(word):
            if w == "T":
                V[i, i] = V[i + n, i + n] = 1.5 + i
            elif w == "C":  # classical squeezed thermal, smallest eigenvalue above vacuum
                V[i, i], V[i + n, i + n], V[i, i + n], V[i + n, i] = 3.0, 1.6, 0.4, 0.4
            elif w == "S":  # squeezed below vacuum only along a rotated direction
                th = 0.7
                R = np.array([[math.cos(th), -math.sin(th)], [math.sin(th), math.cos(th)]])
                B = R @ np.diag([math.exp(2 * r), math.exp(-2 * r)]) @ R.T
                V[np.ix_([i, i + n], [i, i + n])] = B
        for a, b in zip(es[::2], es[1::2]):
            ch, sh = math.cosh(3 * r), math.sinh(3 * r)
            V[a, a] = V[b, b] = V[a + n, a + n] = V[b + n, b + n] = ch
            V[a, b] = V[b, a] = sh
            V[a + n, b + n] = V[b + n, a + n] = -sh
        want = n
        second = {b: a for a, b in zip(es[::2], es[1::2])}
        for i, w in enumerate(word):
            if w == "S" or i in second:
                want = i
                break
        for hb in HB:
            ctx.eq((n, "".join(word), hb), lambda: qm.find_classical_subsystem(V * hb / 2, hbar=hb), want, tol=0)
        # with a tolerance larger than the squeezing only a fully entangled pair (it has more squeezing) is not classical
        want2 = min(second, default=n)
        ctx.eq((n, "".join(word), "atol"), lambda: qm.find_classical_subsystem(V, atol=0.552), want2, tol=0)


@unit(UNITS, quick=[dict(n=n) for n in (3, 5, 7, 10, 12)])
def prefix_wide(ctx, n):
    """find_classical_subsystem on many modes, where the nonclassical correlation involves any two or all of the modes."""
    from thewalrus import quantum as qm

    def ask(tag, V):
        want = n
        for k in range(1, n + 1):
            ind = list(range(k)) + list(range(n, n + k))
            if np.linalg.eigvalsh(V[np.ix_(ind, ind)])[0] < 1 - 1e-6:
                want = k - 1
                break
        for hb in HB:
            ctx.eq((n, tag, hb), lambda: qm.find_classical_subsystem(V * hb / 2, hbar=hb), want, tol=0)
        ctx.count(states=n, transitions=n, traces=1)

    ch, sh = math.cosh(0.3), math.sinh(0.3)
    for a, b in itertools.combinations(range(n), 2):
        V = np.eye(2 * n) * 1.0
        V[a, a] = V[b, b] = V[a + n, a + n] = V[b + n, b + n] = ch
        V[a, b] = V[b, a] = sh
        V[a + n, b + n] = V[b + n, a + n] = -sh
        ask(("pair", a, b), V)
        hot = V + np.diag([0.0 if i % n in (a, b) else 0.5 for i in range(2 * n)])
        ask(("pair hot", a, b), hot)
    # one squeezed mode spread evenly over the first m modes, heated so that only a long prefix is nonclassical
    for m in range(2, n + 1):
        for k in range(1, m + 1):
            u = np.zeros(2 * n)
            u[n : n + m] = 1 / math.sqrt(m)
            # on the first j modes the smallest eigenvalue is 1 + t - (j / m) * c
            t = 0.4 * (k - 0.5) / m
            ask(("spread", m, k), np.eye(2 * n) * (1 + t) - 0.4 * np.outer(u, u))


@unit(UNITS, quick=[dict(n=1), dict(n=2), dict(n=3)])
def forms(ctx, n):
    """Marginals and distributions of states in every layout and dtype, hot and bright."""
    from thewalrus import quantum as qm

    c = 3
    for q, (name, mu0, cov0, _) in enumerate(g.formed(n)):
        hb = HB[q % 4] if "int" not in name else 2
        mu, cov = (mu0, cov0) if hb == 2 else g.to_hbar(mu0, cov0, hb)
        m, V = np.array(mu0, dtype=float), np.array(cov0, dtype=float)
        got = {}

        def call():
            if not got:
                got["r"] = qm.n_body_marginals(mu, cov, c, min(n, 2), hbar=hb)
            return got["r"]

        for r in range(1, min(n, 2) + 1):
            for p in itertools.permutations(range(n), r):
                ind = list(p) + [x + n for x in p]
                ctx.eq((n, name, hb, p), lambda: call()[r - 1][p], exact_probs(m[ind], V[np.ix_(ind, ind)], c), tol=1e-9, data=(mu, cov))
                ctx.count(states=1, traces=1)
