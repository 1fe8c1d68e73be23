"""C18: roots, extrema and sign changes found are correct and complete"""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Property
from . import c15

Poly = c15.Poly
FT = gen.si.poly.PiecewiseLegendreFT
PROP = Property(
    "C18",
    "Piecewise polynomials with planted simple roots (global products on "
    "random pieces and intervals, even, odd or neither; piecewise linear "
    "ones with zeros on and between knots), basis functions and their "
    "derivatives scanned for sign changes, Fourier transforms of random "
    "polynomials on dense grids and of basis functions on the default one "
    "against a scan of all frequencies. Non-trivial: at least 2 features.",
    ["Roots are planted at most one per cell of the refined grid. For sparse "
     "grids, only basis functions are used, as these have one extremum "
     "between two sign changes.",
     "Flips and extrema not exceeding rounding may or may not be found."])


def run_roots(rec, p, alpha):
    r = p.roots() if alpha is None else p.roots(alpha)
    rec.true(r.ndim == 1, "one-dimensional")
    rec.true((np.diff(r) > 0).all(), lambda: "not ascending: %r" % (r,))
    rec.true(((r >= p.xmin) & (r <= p.xmax)).all(), "inside")
    return r


@st.composite
def planted_case(draw):
    nseg = draw(st.integers(1, 6))
    return {"widths": [draw(gen.loguniform(.1, 1)) for _ in range(nseg)],
            "left": draw(st.one_of(st.just(-1.0), st.just(0.0),
                                   st.floats(-5, 5).map(gen.cround))),
            "length": draw(st.one_of(st.just(2.0), gen.loguniform(.1, 100))),
            "parity": draw(st.sampled_from([0, 0, 1, -1])),
            "midknot": draw(st.booleans()),
            "alpha": draw(st.sampled_from([None, 1, 2, 3, 4])),
            "cells": draw(st.lists(st.integers(0, 40), max_size=10)),
            "frac": draw(st.lists(st.floats(.15, .85).map(gen.cround),
                                  min_size=10, max_size=10)),
            "factor": draw(gen.loguniform(1e-8, 1e8))}


@PROP.family(planted_case(), quick=2500)
def planted(case, rec):
    """Products of (x - root), with at most one root in each cell"""
    w = np.array(case["widths"])
    par = case["parity"]
    alpha = case["alpha"] or 2
    # unit knots on [-1, 1]
    if par:
        h = w.cumsum() / w.sum()
        if case["midknot"]:
            t = np.hstack([-h[::-1], 0, h])
        else:
            t = np.hstack([-h[::-1], h])
    else:
        t = 2 * np.hstack([0, w.cumsum() / w.sum()]) - 1
    t[0], t[-1] = -1, 1
    mid, half = case["left"] + case["length"] / 2, case["length"] / 2
    knots = mid + half * t
    if par:
        # exactly symmetric
        lo, hi = knots[0], knots[-1]
        knots[t < 0] = (lo + hi) - knots[t > 0][::-1]
        knots[0] = lo
        if case["midknot"]:
            knots[t.size // 2] = (lo + hi) / 2
        if not (np.diff(knots) > 0).all():
            return
    # cells searched
    base = t
    if par:
        base = t[t >= 0]
        if base[0] > 0:
            base = np.hstack([0, base])
    cells = np.unique(np.hstack([a + (b - a) * np.arange(alpha + 1) / alpha
                                 for a, b in zip(base, base[1:])]))
    cells = cells[np.hstack([True, np.diff(cells) > 1e-9])]
    which = sorted({c % (cells.size - 1) for c in case["cells"]})
    if par == -1:
        # the first cell has the one in the centre
        which = [i for i in which if i > 0]
    roots = np.array([cells[i] + (cells[i+1] - cells[i]) * f
                      for i, f in zip(which, case["frac"])])
    if par:
        roots = roots[roots > 1e-3][:5]
        every = np.hstack([-roots[::-1], [0] * (par == -1), roots])
    else:
        every = roots
    deg = every.size
    # expansion on each piece
    x0, w0 = ref.gauss(deg + 3)
    vander = np.polynomial.legendre.legvander(x0, deg)
    proj = vander.T * w0 * (np.arange(deg + 1) + .5)[:, None]
    tk = (knots - mid) / half
    dx = np.diff(knots)
    data = np.zeros((deg + 1, dx.size))
    scale = case["factor"] / max(
        np.prod(np.abs(np.linspace(-1, 1, 41)[:, None] - every), 1).max(),
        1e-300)
    for i in range(dx.size):
        z = .5 * (tk[i] + tk[i + 1]) + .5 * (tk[i + 1] - tk[i]) * x0
        val = scale * np.prod(z[:, None] - every, 1)
        data[:, i] = proj @ val / np.sqrt(2 / dx[i])
    p = Poly(data, knots, symm=par if par else None)
    r = run_roots(rec, p, case["alpha"])
    # conditioning of the roots
    slope = np.array([np.prod(np.delete(t - every, j)) for j, t in
                      enumerate(every)]) * scale
    noise = 1e-14 * (deg + 1) * case["factor"] * (
        1 + np.abs(mid) / dx.min() * deg)
    tol = noise / np.abs(slope) + 1e-15 * (3 + np.abs(mid) / half)
    if (tol > 1e-4).any():
        return
    want = mid + half * every
    rec.true(r.size == want.size, lambda: "found %r, planted %r" % (r, want))
    rec.close("roots", np.abs(r - want) / half, tol)
    rec.interesting(want.size > 1)
    rec.label("parity %d" % par)
    rec.label("%d roots" % min(want.size, 6))


@PROP.family(st.fixed_dictionaries({
    "widths": st.lists(gen.loguniform(.1, 1), min_size=1, max_size=4),
    "left": st.one_of(st.just(-1.0), st.floats(-5, 5).map(gen.cround)),
    "length": st.one_of(st.just(2.0), gen.loguniform(.1, 100)),
    "alpha": st.integers(1, 4),
    "frac": st.lists(st.lists(st.floats(0.01, .99).map(gen.cround),
                              max_size=4), min_size=4, max_size=4)}),
    quick=1500)
def crowded(case, rec):
    """Up to alpha roots per piece, wherever they are"""
    w = np.array(case["widths"])
    knots = case["left"] + case["length"] * np.hstack([0, w.cumsum()
                                                       / w.sum()])
    dx = np.diff(knots)
    want, data = [], np.zeros((case["alpha"] + 1, dx.size))
    x0, w0 = ref.gauss(8)
    vander = np.polynomial.legendre.legvander(x0, case["alpha"])
    proj = vander.T * w0 * (np.arange(case["alpha"] + 1) + .5)[:, None]
    end = 1.
    tol = []
    for i in range(dx.size):
        fr = []
        for f in sorted(case["frac"][i]):
            if len(fr) < case["alpha"] and (not fr or f > fr[-1] + .05):
                fr.append(f)
        z = 2 * np.array(fr) - 1
        # continuous up to rounding
        lead = end / np.prod(-1 - z)
        data[:, i] = proj @ (lead * np.prod(x0[:, None] - z, 1)) \
            * np.sqrt(.5 * dx[i])
        end = lead * np.prod(1 - z)
        want += (knots[i] + dx[i] * np.array(fr)).tolist()
        slope = [abs(lead * np.prod(np.delete(t - z, j)))
                 for j, t in enumerate(z)]
        noise = 1e-14 * (np.abs(proj @ (lead * np.prod(x0[:, None] - z, 1)))
                         .sum() * (1 + np.abs(knots).max() / dx[i] * 4))
        tol += [dx[i] * noise / s for s in slope]
    p = Poly(data, knots)
    r = run_roots(rec, p, case["alpha"])
    want, tol = np.array(want), np.array(tol)
    if (tol > 1e-4 * dx.min()).any():
        return
    rec.true(r.size == want.size, lambda: "found %r, planted %r" % (r, want))
    rec.close("crowded", np.abs(r - want), tol + 1e-15 * np.abs(knots).max()
              * 4)
    rec.interesting(want.size > 1)


@PROP.family(st.fixed_dictionaries({
    "n": st.integers(1, 12), "seed": gen.SEED,
    "left": st.floats(-5, 5).map(gen.cround), "length": gen.loguniform(.1, 50),
    "zeros": st.lists(st.integers(0, 12), max_size=4),
    "alpha": st.sampled_from([None, 1, 3])}), quick=1500)
def linear(case, rec):
    """Piecewise linear and continuous, may vanish on knots"""
    n = case["n"]
    rng = gen.rng(case["seed"])
    knots = case["left"] + case["length"] * np.hstack(
        [0, rng.uniform(.1, 1, n).cumsum()])
    val = rng.choice([-1, 1], n + 1) * rng.uniform(.2, 2, n + 1)
    for z in case["zeros"]:
        z = z % (n + 1)
        # change sign there
        if 0 < z < n and val[z - 1] * val[z + 1] < 0:
            val[z] = 0
    dx = np.diff(knots)
    norm = np.sqrt(.5 * dx)
    half = .5 * (val[1:] - val[:-1])
    mean = np.where(val[:-1] == 0, half, .5 * (val[1:] + val[:-1]))
    data = np.array([mean * norm, half * norm])
    p = Poly(data, knots)
    r = run_roots(rec, p, case["alpha"])
    want = []
    for i in range(n + 1):
        if val[i] == 0:
            want.append(knots[i])
        elif i < n and val[i] * val[i + 1] < 0:
            want.append(knots[i] - val[i] * dx[i] / (val[i + 1] - val[i]))
    rec.true(r.size == len(want), lambda: "found %r instead of %r" % (
        r, want))
    rec.close("linear", np.abs(r - want), 1e-14 * (
        np.abs(knots).max() + np.ptp(knots)))
    rec.interesting(len(want) > 1)
    rec.label("%d knots" % (val == 0).sum())


@PROP.family(st.fixed_dictionaries({
    "b": gen.basis_cfg(ext=.04, lam_max=1e4, big=4), "seed": gen.SEED,
    "n": st.integers(0, 1)}), quick=500, cost=3)
def basis_functions(case, rec):
    """Roots of basis functions and their first derivatives"""
    b = gen.basis(case["b"])
    rng = gen.rng(case["seed"])
    which = rng.integers(2)
    f = (b.u, b.v)[which]
    l = int(rng.integers(f.size))
    p = f[l].deriv(case["n"])
    r = run_roots(rec, p, None)
    if case["n"] == 0:
        rec.true(r.size == l, "found %d roots of function %d" % (r.size, l))
    # all sign changes on a dense grid beyond noise
    t = (np.arange(40) + .5) / 40
    x = (p.knots[:-1, None] + p.dx[:, None] * t).ravel()
    x = np.sort(np.hstack([x, p.xmin, p.xmax]))
    fx = p(x)
    noise = 1e-10 * np.abs(fx).max()
    good = np.abs(fx) > noise
    xs, fs = x[good], fx[good]
    flips = np.flatnonzero(np.sign(fs[:-1]) != np.sign(fs[1:]))
    if case["n"] == 1:
        # derivatives are not continuous, and might touch zero
        left = p.knots[1:-1]
        jump = np.abs(p(left) - p(left - 1e-13 * (p.xmax - p.xmin)))
        if (jump > np.abs(p(left)) * .5).any():
            rec.label("rough derivative")
            return
    for i in flips:
        n = ((r >= xs[i]) & (r <= xs[i + 1])).sum()
        rec.true(n == 1, "%d roots between %r and %r" % (n, xs[i], xs[i+1]))
    rec.true(r.size == flips.size, "found %d roots, %d sign changes"
             % (r.size, flips.size))
    # each of them is one
    d = 4e-13 * (p.xmax - p.xmin)
    a, c = p((r - d).clip(p.xmin)), p((r + d).clip(None, p.xmax))
    rec.true(((a * c < 0) | (np.minimum(np.abs(a), np.abs(c)) < 1e-11 *
                             np.abs(fx).max())).all(), "sign flips at roots")
    # symmetric
    rec.close("symmetric", np.abs(r + r[::-1] - (p.xmin + p.xmax)),
              1e-12 * (p.xmax - p.xmin))
    rec.interesting(r.size > 1)
    rec.label("%s deriv %d" % ("uv"[which], case["n"]))


def flips_of(fx):
    return set(np.flatnonzero(np.signbit(fx[:-1])
                              != np.signbit(fx[1:])).tolist())


def check_symmetric(rec, got, nonneg, zeta):
    want = np.hstack([-nonneg[::-1], nonneg])
    if nonneg.size and nonneg[0] == 0:
        want = np.hstack([-nonneg[::-1], nonneg[1:]])
    rec.true(np.array_equal(got, want), lambda: "both signs %r of %r" % (
        got, nonneg))


def check_sequence(rec, fx, grid0, changes, extrema, zeta, noise):
    """Compare with scan of fx, values for n = 2 * k + zeta, k = grid0 ..."""
    last = fx.size - 1
    rec.true(np.issubdtype(changes.dtype, np.integer) or not changes.size,
             "integers")
    for r, name in ((changes, "changes"), (extrema, "extrema")):
        rec.true((np.diff(r) > 0).all(), lambda: "%s ascending %r" % (name, r))
        rec.true(((r - zeta) % 2 == 0).all(), name + " parity")
    # sign changes: k such that sign flips between k and k + 1, or zeros
    k = (changes - zeta) // 2 - grid0
    k = k[k < last]
    ok = np.abs(fx) > noise
    for i in k.tolist():
        near = fx[i] * fx[i + 1] <= 0 or not ok[i] or not ok[i + 1]
        rec.true(near, "no sign change at %d: %r" % (i, fx[i:i + 2]))
    flips = [i for i in sorted(flips_of(fx)) if ok[i] and ok[i + 1]]
    for i in flips:
        rec.true((k == i).sum() == 1, "missed sign change at %d, %r of %r"
                 % (i, fx[i:i + 2], k))
    # extrema
    k = (extrema - zeta) // 2 - grid0
    k = k[k < last]
    d = np.diff(fx)
    for i in k.tolist():
        if i == 0:
            good = (abs(fx[0]) > abs(fx[1]) - noise or fx[0] * fx[1] <= 0
                    or not ok[:2].all())
        else:
            good = d[i - 1] * d[i] <= 0 or min(abs(d[i-1:i+1])) < 2 * noise
        rec.true(good, "no extremum at %d: %r" % (
            i, fx[max(i - 1, 0):i + 2]))
    found = 0
    for i in range(1, last):
        if d[i - 1] * d[i] < 0 and min(abs(d[i - 1:i + 1])) > 2 * noise:
            found += 1
            rec.true((k == i).sum() == 1, "missed extremum at %d: %r not in "
                     "%r" % (i, fx[i - 1:i + 2], k))
    if grid0 == 0 and abs(fx[0]) > abs(fx[1]) + noise:
        rec.true((k == 0).sum() == 1, "missed extremum at the beginning")
    return len(flips) + found


@PROP.family(st.fixed_dictionaries({
    "nseg": st.integers(1, 4), "order": st.integers(1, 10),
    "freq": st.sampled_from(["even", "odd"]), "par": st.sampled_from([0, 1, -1]),
    "part": st.sampled_from([None, "real", "imag"]),
    "decay": st.floats(0, 1).map(gen.cround),
    "start": st.sampled_from([0, 0, 0, 3]), "top": st.integers(10, 90),
    "seed": gen.SEED}),
    quick=1500, cost=2)
def dense(case, rec):
    """Transforms of any polynomials, where the grid has all frequencies"""
    rng = gen.rng(case["seed"])
    par = case["par"]
    h = rng.uniform(.2, 1, case["nseg"]).cumsum()
    order = case["order"]
    if par:
        knots = np.hstack([-h[::-1], 0, h]) / h[-1]
        c = rng.normal(size=(order, case["nseg"]))
        sg = (-1.)**np.arange(order)[:, None] * par
        c = np.hstack([(c * sg)[:, ::-1], c])
    else:
        knots = 2 * np.hstack([0, h / h[-1]]) - 1
        c = rng.normal(size=(order, case["nseg"]))
    knots[0], knots[-1] = -1, 1
    c = c * np.exp(-case["decay"] * np.arange(order))[:, None]
    p = Poly(c, knots, symm=par)
    zeta = {"even": 0, "odd": 1}[case["freq"]]
    f = FT(p, case["freq"])
    grid = np.arange(case["start"], case["start"] + case["top"])
    part = case["part"]
    kw = {"part": part, "grid": grid, "positive_only": True}
    if par == 0 and part is None:
        rec.raises(lambda: f.sign_changes(grid=grid), "parity unknown")
        rec.raises(lambda: f.extrema(grid=grid), "parity unknown")
        return
    if part is None:
        part = "real" if (par == 1) == (zeta == 0) else "imag"
    changes, extrema = f.sign_changes(**kw), f.extrema(**kw)
    norm = np.sqrt(2 / np.diff(knots))
    full = ref.fourier(c * norm, knots, 2 * grid + zeta) / np.sqrt(2)
    fx = full.real if part == "real" else full.imag
    noise = 1e-12 * (np.abs(c) * norm).max() * order
    n = check_sequence(rec, fx, grid[0], changes, extrema, zeta, noise)
    kw["positive_only"] = False
    check_symmetric(rec, f.sign_changes(**kw), changes, zeta)
    check_symmetric(rec, f.extrema(**kw), extrema, zeta)
    rec.raises(lambda: f.extrema(part="abs"), "part")
    rec.raises(lambda: f.sign_changes(part="abs"), "part")
    vec = FT(Poly(c[:, :, None], knots, symm=[par]), case["freq"])
    rec.raises(lambda: vec.extrema(), "vector")
    rec.raises(lambda: vec.sign_changes(), "vector")
    rec.interesting(n > 1)
    rec.label("%s par %d %s" % (case["freq"], par, case["part"]))


@PROP.family(st.fixed_dictionaries({
    "b": gen.basis_cfg(ext=.04, huge=True, lam_max=1e5, big=4), "seed": gen.SEED,
    "grid": st.sampled_from(["default", "default", "custom"]),
    "top": st.integers(100, 1500)}), quick=400, cost=5)
def basis_transforms(case, rec):
    b = gen.basis(case["b"])
    rng = gen.rng(case["seed"])
    l = int(rng.integers(b.size))
    # as basis functions have the frequency domain in polynomials of tau, use
    # the transform in the interval [-1, 1]
    f = b.uhat_full[l] if hasattr(b, "uhat_full") else b.uhat[l]
    zeta = 0 if b.statistics == "B" else 1
    s = b.significance[l]
    top = case["top"]
    k = np.arange(top)
    n = 2 * k + zeta
    uh = f(n)
    part = "imag" if (l % 2 == 1) == (zeta == 0) else "real"
    fx = uh.real if part == "real" else uh.imag
    # truly real or imaginary
    other = uh.imag if part == "real" else uh.real
    rec.close("parity", np.abs(other), 1e-9 * np.abs(uh).max())
    kw = {"positive_only": True}
    if case["grid"] == "custom":
        # coarser towards high frequencies
        kw["grid"] = np.unique(np.hstack([
            np.arange(80), (80 * 1.03**np.arange(400)).astype(int)]))
    changes, extrema = f.sign_changes(**kw), f.extrema(**kw)
    noise = (3e-13 / min(1, max(s, 1e-4)) + 1e-12) * np.abs(uh).max()
    cnt = check_sequence(rec, fx, 0, changes, extrema, zeta, noise)
    # those beyond are still local
    for e in extrema[(extrema > n[-2]) & (extrema < 1e6)][:8].tolist():
        t = f([e - 2, e, e + 2])
        t = t.real if part == "real" else t.imag
        d = np.diff(t)
        rec.true(d[0] * d[1] <= 0 or min(abs(d)) < noise,
                 "no extremum at %d: %r" % (e, t))
    for e in changes[changes > n[-2]][:8].tolist():
        t = f([e, e + 2])
        t = t.real if part == "real" else t.imag
        rec.true(t[0] * t[1] <= 0 or min(abs(t)) < noise,
                 "no change at %d: %r" % (e, t))
    kw["positive_only"] = False
    every = f.sign_changes(**kw)
    check_symmetric(rec, every, changes, zeta)
    check_symmetric(rec, f.extrema(**kw), extrema, zeta)
    if case["grid"] == "default" and l % 2 == 1 - zeta:
        # there are (at least) as many as the function has zeros in time
        rec.true(every.size >= l, lambda: "%d sign changes of function %d"
                 % (every.size, l))
    rec.interesting(cnt > 1)
    rec.label("%s %s" % (b.statistics, case["grid"]))
