"""C14: kernels evaluate accurately everywhere, consistently with symmetry"""
import mpmath
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Property

si = gen.si
ker = si.kernel
gauss = gen.env.sparse_ir._gauss
DD = ref.DD
PROP = Property(
    "C14",
    "Random kernels (also reduced), cutoffs from 1e-3 to 1e8 and points with "
    "weight on edges and the vicinity of zero, as scalars, arrays, integers, "
    "single and extended precision, with and without distances from the "
    "boundaries, against the defining formula in 60-digit arithmetic. "
    "Non-trivial: value below half of the maximum.",
    ["Relative precision: rounding times (10 + 4 |log K|), as the exponent "
     "itself is rounded. Values below 1e-290 (1e-35 for odd reduced kernels, "
     "1e-30 in single precision) are compared absolutely."])

MAXV = {"log": 1.0, "bose": 1.0}


def reference(c, x, y, xp=None, xm=None):
    """Value, also of reduced kernels, to 60 digits.  x is exact unless the
    distances are given, which are exact then."""
    kind, lam, red = c["kind"], c["lam"], c["red"]
    with mpmath.workdps(60):
        one = mpmath.mpf(1)
        if red == 0:
            xpp = one + x if xp is None else xp
            return ref.kernel_mp(kind, lam, x, y, 60, xpp)
        if red == 1:
            return (ref.kernel_mp(kind, lam, x, y, 60, one + x)
                    + ref.kernel_mp(kind, lam, x, -y, 60, one + x))
        v = mpmath.mpf(lam) * y / 2
        if kind == "log":
            return -mpmath.sinh(v * x) / mpmath.cosh(v)
        if v == 0:
            return -x * y
        return -y * mpmath.sinh(v * x) / mpmath.sinh(v)


def build(c):
    k = gen.kernel_of(c["kind"], c["lam"])
    return k if c["red"] == 0 else k.get_symmetrized(c["red"])


def tolerance(c, want, eps):
    want = abs(want)
    if want == 0:
        rel = 0.
    else:
        rel = eps * (10 + 4 * abs(float(mpmath.log(want))))
    floor = 1e-290
    if c["red"] == -1:
        floor = 1e-35
    if eps > 1e-10:
        floor = 1e-30
    if eps < 1e-20:
        floor = max(floor, 1e-260)
    return rel * float(want) + floor


@st.composite
def kcfg(draw):
    return {"kind": draw(st.sampled_from(["log", "bose"])),
            "lam": draw(st.one_of(gen.lam(), gen.loguniform(1e-3, 1e8),
                                  st.integers(1, 1000))),
            "red": draw(st.sampled_from([0, 0, 1, -1]))}


def points(c):
    p = gen.unit_points()
    if c["red"]:
        p = p.map(abs)
    # vicinity of the scale 1/lambda
    scale = st.floats(-3, 4).map(
        lambda t: float(min(1., 10**t / c["lam"])))
    if not c["red"]:
        scale = st.one_of(scale, scale.map(lambda t: -t))
    p = p.map(lambda t: 0.0 if abs(t) < 1e-280 else t)
    return st.one_of(p, scale)


@st.composite
def value_case(draw):
    c = draw(kcfg())
    n = draw(st.integers(1, 5))
    return {"k": c, "x": draw(st.lists(points(c), min_size=n, max_size=n)),
            "y": draw(st.lists(points(c), min_size=1, max_size=4)),
            "type": draw(st.sampled_from(["u1", "u2", "u4", "u8", "i1", "i2",
                                          "i4", "?"])),
            "form": draw(st.sampled_from(["array", "scalar", "list", "int",
                                          "f4", "dd", "grid", "0d"]))}


@PROP.family(value_case(), quick=3500)
def values(case, rec):
    c, form = case["k"], case["form"]
    k = build(c)
    x, y = np.array(case["x"]), np.array(case["y"])
    lam = c["lam"]
    eps = 2.3e-16
    if form == "int":
        x, y = np.round(x).astype(int), np.round(y).astype(int)
    elif form == "f4":
        # products of small numbers underflow early in single precision
        x, y = (np.where(np.abs(t) < 1e-14, 0, t).astype("f4") for t in (x, y))
        eps = 1.2e-7
    x0, y0 = np.asarray(x, float), np.asarray(y, float)
    want = [[reference(c, float(a), float(b)) for b in y0] for a in x0]
    xa, ya = x[:, None], y[None, :]
    if form == "dd":
        xa, ya = xa.astype(DD), ya.astype(DD)
        eps = 1e-30
    if form == "scalar":
        conv = float
        got = np.array([[k(conv(a), conv(b)) for b in y] for a in x])
        r = k(conv(x[0]), conv(y[0]))
        rec.true(np.shape(r) == (), "scalar arguments give scalar")
    elif form == "int":
        got = np.array([[k(int(a), int(b)) for b in y] for a in x], float)
        rec.true(np.array_equal(got, np.asarray(k(xa, ya), float)),
                 "integer arrays")
        for s, t in (1, 1), (1, -1), (-1, 1), (-1, -1):
            # reflected to non-negative ones for unsigned types
            xs, ys = (np.abs(xa), np.abs(ya)) if s == t == 1 else (s*xa, t*ya)
            if min(s, t) < 0 and (case["type"][0] in "u?" or c["red"]):
                continue
            z = k(xs.astype(case["type"]), ys.astype(case["type"]))
            rec.close("type " + case["type"], np.abs(
                z - k(xs.astype(float), ys.astype(float))), 0)
        rec.label("type " + case["type"])
    elif form == "0d":
        got = np.array([[k(np.array(a), np.array(b)) for b in y] for a in x])
    elif form == "list":
        got = k(xa.tolist(), ya.tolist())
    elif form == "grid":
        g = np.broadcast_arrays(xa, ya)
        got = k(g[0][None], g[1][None])[0]
    else:
        got = k(xa, ya)
        if form == "dd":
            rec.true(got.dtype == DD, "extended precision is kept")
        if form == "f4":
            rec.true(got.dtype == np.float32, "single precision is kept")
    rec.true(np.shape(got) == (x.size, y.size), "shape")
    rec.true(not np.isnan(np.asarray(got, float)).any(), "NaN")
    for i in range(x.size):
        for j in range(y.size):
            w = want[i][j]
            if form == "dd":
                hi = float(got[i, j])
                lo = float(got[i, j] - hi)
                with mpmath.workdps(60):
                    err = abs(float(mpmath.mpf(hi) + mpmath.mpf(lo) - w))
            else:
                with mpmath.workdps(60):
                    err = abs(float(mpmath.mpf(float(got[i, j])) - w))
            rec.close("value %s" % form, err, tolerance(c, w, eps),
                      "at x=%r y=%r want %s got %s" % (
                          x[i], y[j], mpmath.nstr(w, 20), got[i, j]))
            if w:
                rec.interesting(abs(w) < .5 * (1 if c["kind"] == "log"
                                               else max(1, 1 / lam)))
    rec.label("%s %d" % (c["kind"], c["red"]))
    rec.label(form)

    # symmetries, including the analytic relation of reduced kernels
    if c["red"] == 0 and form in ("array", "grid"):
        other = k(-xa, -ya)
        g = np.abs(got)
        rec.close("centrosymmetric", np.abs(other - got),
                  1e-15 * g * (1 + np.abs(np.log(np.maximum(g, 1e-300)))))
        rec.true(k.is_centrosymmetric, "is_centrosymmetric")
    elif c["red"]:
        rec.true(not k.is_centrosymmetric, "reduced is not centrosymmetric")
        if form == "array":
            full = gen.kernel_of(c["kind"], lam)
            a, b = full(xa, ya), full(xa, -ya)
            w = a + c["red"] * b
            m = np.maximum(np.abs(a), np.abs(b))
            rec.close("symmetrised", np.abs(got - w), 1e-15 * m * (
                5 + 2 * np.abs(np.log(np.maximum(m, 1e-300)))) + 1e-290)


@PROP.family(kcfg().flatmap(lambda c: st.fixed_dictionaries({
    "k": st.just(c),
    "d": st.lists(st.one_of(gen.loguniform(1e-18, 1), gen.loguniform(1e-30, 1),
                            st.just(0.0)), min_size=1, max_size=6),
    "side": st.sampled_from(["plus", "minus"]),
    "y": st.lists(points(c), min_size=1, max_size=4),
    "dd": st.booleans()})), quick=2000)
def distances(case, rec):
    """x given through its distances to the boundaries"""
    c = case["k"]
    k = build(c)
    d, y = np.array(case["d"]), np.array(case["y"])
    dtype, eps = (DD, 1e-30) if case["dd"] else (float, 2.3e-16)
    lo = -1 if c["red"] == 0 else 0
    length = 1 - lo
    dd = d.astype(dtype)
    if case["side"] == "plus":
        x, xp, xm = lo + dd, dd, length - dd
    else:
        x, xp, xm = 1 - dd, length - dd, dd
    ya = y.astype(dtype)
    got = k(x[:, None], ya, xp[:, None], xm[:, None])
    rec.true(got.dtype == dtype and got.shape == (d.size, y.size), "result")
    rec.true(np.isfinite(np.asarray(got, float)).all(), "finite")
    with mpmath.workdps(60):
        one = mpmath.mpf(1)
        for i in range(d.size):
            di = mpmath.mpf(float(d[i]))
            xx = lo + di if case["side"] == "plus" else one - di
            for j in range(y.size):
                yj = float(y[j])
                w = reference(c, xx, yj)
                hi = float(got[i, j])
                low = float(got[i, j] - hi) if case["dd"] else 0.
                err = abs(float(mpmath.mpf(hi) + mpmath.mpf(low) - w))
                # distance to the other end and x itself are rounded
                t = tolerance(c, w, eps)
                if c["red"] == -1:
                    # explicit forms use x
                    t += float(2 * eps * (1 + abs(c["lam"] * yj)) * abs(w))
                rec.close("distances", err, t, "at %s=%r y=%r want %s got %s"
                          % (case["side"], d[i], y[j], mpmath.nstr(w, 20),
                             got[i, j]))
    # same as without
    plain = np.asarray(k(x[:, None], ya), float)
    g = np.asarray(got, float)
    rec.close("without", np.abs(plain - g), 3e-16 * np.abs(g) * (
        10 + 4 * c["lam"] * np.abs(y)
        + np.abs(np.log(np.maximum(np.abs(g), 1e-300)))) + 1e-35)
    if c["lam"] > 1e-2:
        # only one of them given
        for kw in ({"x_plus": xp[:, None]}, {"x_minus": xm[:, None]}):
            one_only = np.asarray(k(x[:, None], ya, **kw), float)
            rec.close("one", np.abs(one_only - g), 3e-16 * np.abs(g) * (
                10 + 4 * c["lam"] * np.abs(y)
                + np.abs(np.log(np.maximum(np.abs(g), 1e-300)))) + 1e-35)
    if c["red"] == 0:
        # distance from the end which is closer is all that matters
        kw = ({"x_plus": xp[:, None]} if case["side"] == "plus"
              else {"x_minus": xm[:, None]})
        part = np.asarray(k(x[:, None], ya, **kw), float)
        near = (ya > 0) == (case["side"] == "plus")
        rec.close("near", np.abs(part - g)[:, near], 1e-15 * np.abs(g)[:, near]
                  + 1e-300)
    rec.interesting(np.any(d < 1e-10))
    rec.label(case["side"])


@PROP.family(kcfg().flatmap(lambda c: st.fixed_dictionaries({
    "k": st.just(c), "n": st.integers(2, 7), "m": st.integers(2, 7),
    "ends": st.lists(st.floats(0.05, .95).map(gen.cround), min_size=1,
                     max_size=3, unique=True)})), quick=500)
def matrix(case, rec):
    """Kernel on quadrature rules"""
    c = case["k"]
    k = build(c)
    lo = -1 if c["red"] == 0 else 0
    seg = lo + (1 - lo) * np.array([0] + sorted(case["ends"]) + [1])
    rx = gauss.legendre(case["n"]).piecewise(seg)
    ry = gauss.legendre(case["m"]).piecewise(seg[[0, -1]])
    mat = ker.matrix_from_gauss(k, rx, ry)
    rec.true(mat.shape == (rx.x.size, ry.x.size), "shape")
    with mpmath.workdps(60):
        for i in range(0, rx.x.size, 3):
            for j in range(0, ry.x.size, 2):
                xf, xb = float(rx.x_forward[i]), float(rx.x_backward[i])
                xx = (lo + mpmath.mpf(xf) if xf < xb
                      else 1 - mpmath.mpf(xb))
                y = float(ry.x[j])
                w = reference(c, xx, y)
                e = abs(float(mpmath.mpf(float(mat[i, j])) - w))
                t = tolerance(c, w, 2.3e-16)
                # the node itself is subject to rounding of x
                t += 4e-16 * float(abs(w)) * (1 + c["lam"] * abs(y)) \
                    * min(xf, xb)
                rec.close("matrix", e, 2 * t)
    rec.interesting()


@PROP.family(kcfg().flatmap(lambda c: st.fixed_dictionaries({
    "k": st.just(c), "y": st.lists(points(c), min_size=1, max_size=6),
    "eps": st.sampled_from([1e-15, 2.3e-16, 1e-10, 1e-8, 1e-6]),
    "excess": gen.loguniform(3e-16, 10),
    "where": st.sampled_from(["x high", "x low", "y high", "y low", "x nan",
                              "y nan", "array"])})), quick=900)
def documented(case, rec):
    """Weight functions, ranges, hints; and errors outside the domain"""
    c = case["k"]
    k = build(c)
    full = gen.kernel_of(c["kind"], c["lam"])
    lam = c["lam"]
    lo = -1 if c["red"] == 0 else 0
    rec.true(tuple(k.xrange) == (lo, 1) and tuple(k.yrange) == (lo, 1),
             "range")
    rec.true(k.ypower == {"log": 0, "bose": 1}[c["kind"]], "ypower")
    y = np.array([t for t in case["y"] if abs(t) > 1e-290] or [.5])
    if c["kind"] == "log":
        wf = full.weight_func("F")(y)
        rec.true(np.array_equal(wf, np.ones_like(y)), "fermionic weight")
        wb = full.weight_func("B")(y)
        with mpmath.workdps(40):
            want = np.array([float(1 / mpmath.tanh(mpmath.mpf(lam) * t / 2))
                             for t in y.tolist()])
    else:
        rec.raises(lambda: full.weight_func("F"), "fermionic weight")
        wb = full.weight_func("B")(y)
        want = 1 / y
    rec.close("bosonic weight", np.abs(wb - want), 2e-15 * np.abs(want))
    rec.raises(lambda: full.weight_func("X"), "statistics")
    # weight turns the bosonic kernel into the logistic one:
    # exp(-Λy(x+1)/2)/(1 - exp(-Λy)) = w(y) K(x, y)
    x = np.linspace(-1, 1, 5)[:, None]
    yy = y[np.abs(y * lam) > 1e-3]
    num = (np.exp(-lam * np.abs(yy) * np.where(yy > 0, 1 + x, 1 - x) / 2)
           / -np.expm1(-lam * np.abs(yy)) * np.sign(yy))
    got = full.weight_func("B")(yy) * full(x, yy)
    rec.close("weighted kernel", np.abs(got - num), 1e-14 * np.abs(num)
              * (10 + np.abs(np.log(np.maximum(np.abs(num), 1e-300))))
              + 1e-290)

    # hints
    if lam >= .05 and lam <= 1e7:
        h = k.sve_hints(case["eps"])
        for seg in (h.segments_x, h.segments_y):
            rec.true(seg[0] == lo and seg[-1] == 1
                     and (np.diff(seg) > 0).all(), "segments")
            if lo == -1:
                rec.close("symmetric segments", np.abs(seg + seg[::-1]), 1e-15)
        rec.true(h.ngauss >= 8 and h.nsvals >= 8, "ngauss, nsvals")

    # outside
    e = case["excess"]
    bad = {"x high": (1 + e, .5), "x low": (lo - e, .5),
           "y high": (.5, 1 + e), "y low": (.5, lo - e),
           "x nan": (np.nan, .5), "y nan": (.5, np.nan),
           "array": (np.array([.1, .2, 1 + e]), .5)}[case["where"]]
    rec.raises(lambda: k(*bad), case["where"])
    if c["red"]:
        rec.raises(lambda: k.get_symmetrized(1), "symmetrised twice")
    else:
        rec.raises(lambda: k.get_symmetrized(2), "sign")
    # boundary itself is fine
    k(np.array([lo, 1, 1., lo]), np.array([lo, 1, lo, 1.]))
    rec.interesting()
    rec.label(case["where"])


@PROP.family(st.fixed_dictionaries({
    "k": gen.custom_kernel_cfg(), "x": gen.unit_points(),
    "y": gen.unit_points(), "sign": st.sampled_from([1, -1])}), quick=300)
def custom(case, rec):
    """Symmetrisation of user-defined kernels"""
    k = gen.CustomKernel(case["k"])
    if not k.is_centrosymmetric:
        rec.raises(lambda: k.get_symmetrized(case["sign"]), "no symmetry")
        return
    r = k.get_symmetrized(case["sign"])
    (_, hx), (_, hy) = k.xrange, k.yrange
    rec.true(tuple(r.xrange) == (0, hx) and tuple(r.yrange) == (0, hy),
             "range")
    x, y = hx * abs(case["x"]), hy * abs(case["y"])
    want = k(x, y) + case["sign"] * k(x, -y)
    rec.close("custom", abs(r(x, y) - want), 1e-14 * abs(k(x, y)))
    rec.close("custom", abs(r(np.array([x]), [y], x_plus=np.array([x]))[0]
                            - want), 1e-14 * abs(k(x, y)))
    minus = r(np.array([x]), [y], x_minus=np.array([hx - x]))[0]
    rec.close("custom", abs(minus - want), 1e-14 * abs(k(x, y)))
    rec.raises(lambda: r(hx * 1.001, y), "above")
    rec.raises(lambda: r(-.1, y), "below")
    h, f = r.sve_hints(1e-6), k.sve_hints(1e-6)
    rec.true(h.segments_x[0] == 0 and h.segments_x[-1] == f.segments_x[-1]
             and h.ngauss == f.ngauss, "hints")
    rec.interesting(x != 0 and y != 0)
