"""C16: overlap integrals are correct to the requested tolerance"""
import warnings

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Property
from . import c15

PROP = Property(
    "C16",
    "Random piecewise polynomials times scalar, array, real or complex "
    "functions (polynomial, exponential, oscillating, Lorentzian, and with "
    "jumps, kinks, roots and logarithms at announced points) for random "
    "tolerances, against Gauss quadrature on the analytic pieces, graded "
    "towards singularities. Non-trivial: more than one piece and a function "
    "that is not constant.",
    ["The estimate may be exceeded thirty times; rounding is 6e-15 of the "
     "integral of absolute values. No claim where the library warns, but it "
     "must not warn for smooth functions and announced mild singularities "
     "unless the tolerance is close to what can be reached."])

SMOOTH = ["const", "power", "exp", "cos", "expi", "lorentz"]
SINGULAR = ["sign", "abs", "sqrt", "log", "rsqrt"]

# from which tolerance on there must not be any warning
HARD = {"sqrt": 5e-15, "lorentz": 5e-15, "log": 5e-12, "rsqrt": 1e-5}


@st.composite
def func_cfg(draw, kinds):
    return {"f": draw(st.sampled_from(kinds)),
            "a": draw(st.floats(-3, 3).map(gen.cround)),
            "m": draw(st.integers(0, 6)),
            "where": draw(st.floats(0, 1).map(gen.cround)),
            "width": draw(gen.loguniform(1e-3, 1))}


def evaluator(f, c, length):
    """Function of x and of (signed) x - c"""
    kind, a, m = f["f"], f["a"], f["m"]
    if kind == "const":
        return lambda x, d: 0 * x + a
    if kind == "power":
        return lambda x, d: (x / length)**m
    if kind == "exp":
        return lambda x, d: np.exp(a * x / length)
    if kind == "cos":
        return lambda x, d: np.cos(3 * m * x / length + a)
    if kind == "expi":
        return lambda x, d: np.exp(4j * a * x / length)
    if kind == "lorentz":
        g = f["width"] * length
        return lambda x, d: 1 / (d**2 + g**2)
    if kind == "sign":
        return lambda x, d: np.where(d > 0, 1., -a)
    if kind == "abs":
        return lambda x, d: np.abs(d) / length
    if kind == "sqrt":
        return lambda x, d: np.sqrt(np.abs(d))
    if kind == "log":
        return lambda x, d: np.log(np.maximum(np.abs(d), 1e-300))
    if kind == "rsqrt":
        return lambda x, d: 1 / np.sqrt(np.maximum(np.abs(d), 1e-300))
    raise ValueError(kind)


def shape_result(vals, fshape):
    """Make scalar, vector or matrix from list of components"""
    if fshape == "scalar":
        return vals[0]
    if fshape == "matrix":
        return np.array([[vals[0], vals[-1]], [0 * vals[0], 2 * vals[0]],
                         [vals[-1], -vals[0]]])
    return np.array(vals)


def reference(data, knots, comps, cs):
    """Integrals and those of absolute values, for each component"""
    lo, hi = knots[0], knots[-1]
    nc = len(comps)
    fdims = data.shape[2:]
    tot = np.zeros(fdims + (nc,), complex)
    mag = np.zeros(fdims + (nc,))
    x0, w0 = ref.gauss(24)
    grade = np.hstack([0, 2.0**-np.arange(100, 0, -1), 1])
    for j, ev in enumerate(comps):
        c = cs[j]
        for i in range(knots.size - 1):
            a, b = knots[i], knots[i + 1]
            parts = [(a, b)] if not a < c < b else [(a, c), (c, b)]
            for p, q in parts:
                # distance from c to near end, far end
                near, far = (p, q) if abs(p - c) <= abs(q - c) else (q, p)
                sg = 1 if far > near else -1
                t = abs(far - near)
                d0 = abs(near - c)
                if d0 > 3 * t:
                    e = np.linspace(0, 1, 9)
                else:
                    e = np.unique(np.hstack([grade, np.linspace(0, 1, 9)]))
                h = .5 * np.diff(e) * t
                m = .5 * (e[1:] + e[:-1]) * t
                s = (m[:, None] + h[:, None] * x0).ravel()
                w = (h[:, None] * w0).ravel()
                x = (near + sg * s).clip(lo, hi)
                d = np.sign(sg) * s + (near - c)
                if near == c:
                    d = sg * s
                seg = np.full(x.size, i)
                pv, _ = c15.evaluate(data, knots, x, seg)
                fv = ev(x, d)
                prod = np.asarray(pv, complex) * fv * w
                tot[..., j] += prod.sum(-1)
                mag[..., j] += np.abs(prod).sum(-1)
    return tot, mag


@st.composite
def overlap_case(draw, kinds):
    p = draw(c15.poly_cfg([(), (3,), (2, 2), (1,)]))
    p["order"] = min(p["order"], 12)
    # a mere rounding does not separate pieces
    p["widths"] = p["widths"][:5]
    nf = draw(st.integers(1, 3))
    return {"p": p, "f": [draw(func_cfg(kinds)) for _ in range(nf)],
            "fshape": draw(st.sampled_from(["scalar", "vector", "matrix"])),
            "rtol": draw(st.sampled_from([None, 1e-14, 1e-12, 1e-10, 1e-6, 1e-3])),
            "extra": draw(st.lists(st.floats(0, 1), max_size=3)),
            "aspoints": draw(st.sampled_from(["list", "array", "reversed",
                                              "tuple"])),
            "error": draw(st.booleans())}


def perform(case, rec, singular):
    c = case["p"]
    p, data, knots, _ = c15.build(c)
    lo, hi = knots[0], knots[-1]
    length = hi - lo
    flist = case["f"][:1] if case["fshape"] == "scalar" else case["f"]
    cs, comps = [], []
    for f in flist:
        pt = lo + f["where"] * length
        if f["f"] == "rsqrt":
            # x - c must be exact close to the singularity
            if not lo <= 0 <= hi:
                f = dict(f, f="sqrt")
            else:
                pt = 0.0
        cs.append(min(max(pt, lo), hi))
        comps.append(evaluator(f, cs[-1], length))
    seen = []

    def func(x):
        seen.append(x)
        vals = [ev(x, x - ci) for ev, ci in zip(comps, cs)]
        return shape_result(vals, case["fshape"])

    kw = {}
    if case["rtol"] is not None:
        kw["rtol"] = case["rtol"]
    rtol = case["rtol"] or 2.3e-16
    if singular or case["extra"]:
        pts = (cs if singular else []) + [lo + t * length for t in
                                          case["extra"]]
        pts = np.clip(pts, lo, hi)
        kw["points"] = {"list": lambda: pts.tolist(), "array": lambda: pts,
                        "reversed": lambda: np.sort(pts)[::-1],
                        "tuple": lambda: tuple(pts.tolist())}[
                            case["aspoints"]]()
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        res = p.overlap(func, return_error=True, **kw)
    rec.true(isinstance(res, tuple) and len(res) == 2, "pair")
    res, err = res
    if case["error"]:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            only = p.overlap(func, **kw)
        rec.true(np.array_equal(only, res), "same without error")
    fx = np.asarray(func(lo + .3 * length))
    rec.true(np.shape(res) == p.shape + fx.shape, "shape of result")
    rec.true(np.shape(err) == p.shape + fx.shape, "shape of error")
    rec.true(all(np.ndim(t) == 0 for t in seen[:40]), "called with points")
    s = np.array(seen)
    rec.true(s.min() >= lo and s.max() <= hi, "inside")
    warned = any("ntegration did not" in str(i.message)
                 or "efinement" in str(i.message) for i in w)
    rec.label("warned" if warned else "converged")
    for f in flist:
        rec.label(f["f"])
    if warned:
        hard = max(HARD.get(f["f"], 0) for f in flist)
        rec.true(rtol < hard, "warning for simple function")
        return
    tot, mag = reference(data, knots, comps, cs)
    pd = len(c["shape"])
    vals = [tot[..., j] for j in range(len(comps))]
    mags = [mag[..., j] for j in range(len(comps))]
    want = np.moveaxis(np.asarray(shape_result(vals, case["fshape"])),
                       range(-pd, 0), range(pd)) if pd else \
        np.asarray(shape_result(vals, case["fshape"]))
    # same relative magnitudes as for the values
    scale = np.abs(mag).reshape(*p.shape, -1).max(-1) * 2
    scale = scale.reshape(p.shape + (1,) * fx.ndim)
    if fx.ndim == 0:
        scale = mags[0]
    steep = max([1] + [1 + 4 * abs(f["a"]) + 3 * f["m"]
                       + 1 / f["width"] * (f["f"] == "lorentz")
                       for f in flist])
    offs = 1 + max(abs(lo), abs(hi)) / np.diff(knots).min() * c["order"]**2
    rec.close("overlap", np.abs(res - want),
              30 * (err + rtol * scale) + 6e-15 * scale
              + 2e-16 * scale * steep * offs)
    rec.true((np.asarray(err) >= 0).all(), "error is non-negative")
    # the error estimate is not excessive either
    rec.close("estimate", err, 2 * rtol * scale * max(len(seen) / 31, 1)
              + 1e-290)
    rec.interesting(len(c["widths"]) > 1
                    and any(f["f"] != "const" for f in flist))
    if np.isrealobj(fx) and np.isrealobj(data):
        rec.true(np.isrealobj(res), "real")


@PROP.family(overlap_case(SMOOTH), quick=1000, cost=5)
def smooth(case, rec):
    perform(case, rec, False)


@PROP.family(overlap_case(SINGULAR + ["exp"]), quick=800, cost=6)
def singular(case, rec):
    perform(case, rec, True)


@PROP.family(st.fixed_dictionaries({
    "p": c15.poly_cfg([(), (3,)]), "where": gen.loguniform(1e-9, 10),
    "what": st.sampled_from(["point above", "point below", "shape",
                             "point nan"])}), quick=200)
def rejected(case, rec):
    c = case["p"]
    p, data, knots, _ = c15.build(c)
    e = case["where"] * max(1, abs(knots[0]), abs(knots[-1]))
    what = case["what"]
    if what == "point above":
        rec.raises(lambda: p.overlap(np.cos, points=[knots[-1] + e]), what)
    elif what == "point below":
        rec.raises(lambda: p.overlap(np.cos, points=[knots[0] - e]), what)
    elif what == "point nan":
        rec.raises(lambda: p.overlap(np.cos, points=[np.nan]), what)
    else:
        rec.raises(lambda: p.overlap(
            lambda x: np.ones(2 + (x > knots[0] + .4 * (knots[-1]
                                                        - knots[0])))), what)
    r = p.overlap(np.cos, points=[knots[0], knots[-1]])
    # on the boundary is fine, and changes nothing
    rec.close("ends", np.abs(r - p.overlap(np.cos)), 1e-14 * np.abs(
        data).sum() * np.sqrt(c["length"]) * 10)
    rec.interesting()
