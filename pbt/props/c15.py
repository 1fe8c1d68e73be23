"""C15: piecewise polynomials evaluate, index and differentiate correctly"""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Property

Poly = gen.si.poly.PiecewiseLegendrePoly
LD = np.longdouble
PROP = Property(
    "C15",
    "Random piecewise polynomials: 1 to 8 pieces of random widths on random "
    "intervals, order 1 to 14, real, complex or integer coefficients of 0 to "
    "3 function dimensions, points anywhere including knots and their "
    "neighbours, any shape; against the recurrence in long double. "
    "Non-trivial: at least 2 pieces and order 3.",
    ["On an interior knot, where the polynomial may jump, the value of either "
     "adjacent piece is accepted; pieces of zero width are not generated.",
     "Rounding: 2e-16 times order squared times the sum of coefficients."])

SHAPES = [(), (1,), (4,), (3,), (2, 3), (2, 1, 2), (0,)]


@st.composite
def poly_cfg(draw, shapes=SHAPES):
    nseg = draw(st.integers(1, 8))
    return {"widths": [draw(gen.loguniform(1e-3, 1)) for _ in range(nseg)],
            "left": draw(st.one_of(st.just(-1.0),
                                   st.floats(-5, 5).map(gen.cround))),
            "length": draw(st.one_of(st.just(2.0), gen.loguniform(.1, 10))),
            "order": draw(st.integers(1, 14)),
            "shape": list(draw(st.sampled_from(shapes))),
            "kind": draw(st.sampled_from(["real", "real", "complex", "int"])),
            "dx": draw(st.booleans()), "symm": draw(st.booleans()),
            "decay": draw(st.sampled_from([0, 0, 1.])),
            "seed": draw(gen.SEED)}


def ingredients(c):
    rng = gen.rng(c["seed"])
    w = np.array(c["widths"])
    knots = c["left"] + c["length"] * np.hstack([0, w.cumsum() / w.sum()])
    if c["length"] == 2.0 and c["left"] == -1.0:
        knots[-1] = 1
    shape = (c["order"], w.size, *c["shape"])
    data = rng.normal(size=shape)
    if c["kind"] == "complex":
        data = data + 1j * rng.normal(size=shape)
    elif c["kind"] == "int":
        data = rng.integers(-5, 6, shape)
    if c["decay"] and c["kind"] != "int":
        data = data * np.exp(-c["decay"] * np.arange(c["order"])).reshape(
            -1, *[1] * (data.ndim - 1))
    symm = rng.integers(-1, 2, c["shape"]) if c["symm"] else None
    return data, knots, symm


def build(c):
    data, knots, symm = ingredients(c)
    dx = np.diff(knots) if c["dx"] else None
    return Poly(data, knots, dx=dx, symm=symm), data, knots, symm


def segments(knots, x):
    """For each point, the pieces it belongs to"""
    n = knots.size - 1
    right = np.array([min(max(int((knots <= t).sum()) - 1, 0), n - 1)
                      for t in x], int)
    left = np.array([i - 1 if i > 0 and knots[i] == t else i
                     for i, t in zip(right, x)], int)
    return right, left


def legendre_table(order, xi):
    p = np.zeros((order, xi.size), LD)
    p[0] = 1
    if order > 1:
        p[1] = xi
    for k in range(1, order - 1):
        p[k + 1] = ((2*k + 1) * xi * p[k] - k * p[k - 1]) / (k + 1)
    return p


def derive(data, knots, n):
    """Coefficients of n-th derivative, where p = sum c P_k on each piece"""
    order = data.shape[0]
    c = data.astype(np.clongdouble)
    d = np.zeros((order, order), LD)
    for k in range(order):
        for j in range(k - 1, -1, -2):
            d[j, k] = 2 * j + 1
    w = (2 / np.diff(knots.astype(LD))).reshape(1, -1, *[1] * (c.ndim - 2))
    for _ in range(n):
        c = np.tensordot(d, c, (1, 0)) * w
    return c


def evaluate(data, knots, x, seg):
    """Values with function dimensions first, and scale of the rounding"""
    a, b = knots[:-1].astype(LD)[seg], knots[1:].astype(LD)[seg]
    xi = (2 * x.astype(LD) - a - b) / (b - a)
    p = legendre_table(data.shape[0], xi)
    norm = np.sqrt(2 / (b - a))
    cs = np.asarray(data, np.clongdouble)[:, seg]       # k, pt, ...
    res = np.einsum("kp,kp...->...p", p * norm, cs)
    k = np.arange(data.shape[0])
    m = max(abs(knots[0]), abs(knots[-1]))
    amp = 1 + k[:, None]**2 * (1 + m / (b - a))
    scale = np.einsum("kp,kp...->...p", (amp * norm).astype(float),
                      np.abs(cs).astype(float))
    return res, scale


def check_values(rec, name, got, data, knots, x, tol=2.5e-16):
    x = np.asarray(x, float).ravel()
    right, left = segments(knots, x)
    got = np.asarray(got).reshape(*data.shape[2:], x.size)
    want, scale = evaluate(data, knots, x, right)
    err = np.abs(got - want).astype(float)
    if (left != right).any():
        want2, scale2 = evaluate(data, knots, x, left)
        err = np.minimum(err, np.abs(got - want2).astype(float))
        scale = np.maximum(scale, scale2)
    rec.close(name, err, tol * (4 + data.shape[0]) * scale + 1e-290)


@st.composite
def points(draw, n=8):
    """Points relative to knots: list of [index, kind, fraction]"""
    return draw(st.lists(st.tuples(
        st.integers(0, 8), st.sampled_from(["in", "in", "in", "knot", "up",
                                            "down"]),
        st.floats(0, 1).map(gen.cround)).map(list), min_size=0, max_size=n))


def make_points(pts, knots):
    res = []
    for i, kind, f in pts:
        i = i % (knots.size - (kind == "in"))
        t = knots[i]
        if kind == "in":
            t = knots[i] + f * (knots[i + 1] - knots[i])
        elif kind == "up":
            t = np.nextafter(t, np.inf)
        elif kind == "down":
            t = np.nextafter(t, -np.inf)
        res.append(min(max(t, knots[0]), knots[-1]))
    return np.array(res, float)


def nontrivial(c, rec):
    rec.interesting(len(c["widths"]) > 1 and c["order"] > 2)
    rec.label(c["kind"])
    rec.label("dims %d" % len(c["shape"]))


@PROP.family(st.fixed_dictionaries({
    "p": poly_cfg(), "x": points(12),
    "form": st.sampled_from(["array", "scalar", "2d", "list", "0d", "strided",
                             "f4", "int"])}), quick=2500)
def evaluation(case, rec):
    p, data, knots, symm = build(case["p"])
    c = case["p"]
    fshape = tuple(c["shape"])
    x = make_points(case["x"], knots)
    form = case["form"]
    rec.true(p.shape == fshape and p.ndim == len(fshape)
             and p.size == int(np.prod(fshape)), "shape")
    rec.true(p.polyorder == c["order"] and p.nsegments == knots.size - 1,
             "order")
    rec.true(p.xmin == knots[0] and p.xmax == knots[-1], "interval")
    rec.true(np.array_equal(p.knots, knots), "knots")
    rec.true(np.allclose(p.dx, np.diff(knots), rtol=1e-13), "dx")
    rec.true(np.array_equal(p.data, data), "data")
    want_symm = np.zeros(fshape) if symm is None else symm
    rec.true(np.array_equal(p.symm, want_symm), "symm")
    if form == "scalar":
        for t in x.tolist():
            r = p(t)
            rec.true(np.shape(r) == fshape, "scalar shape")
            check_values(rec, "scalar", r, data, knots, t)
    elif form == "0d":
        for t in x.tolist():
            r = p(np.array(t))
            rec.true(np.shape(r) == fshape, "0d shape")
            check_values(rec, "0d", r, data, knots, t)
    elif form in ("f4", "int"):
        # points are exactly representable, so the type must not matter
        y = np.round(x).astype(int) if form == "int" else x.astype("f4")
        y = y[(y >= knots[0]) & (y <= knots[-1])]
        r = p(y)
        rec.true(r.shape == fshape + y.shape, "shape")
        check_values(rec, form, r, data, knots, y)
        if y.size:
            check_values(rec, form, p(y[0]), data, knots, y[0])
    else:
        y = {"array": lambda: x, "list": lambda: x.tolist(),
             "2d": lambda: np.resize(x, (2, 3)) if x.size
             else np.zeros((2, 0)),
             "strided": lambda: np.repeat(x, 2)[::2][::-1]}[form]()
        keep = np.array(y)
        r = p(y)
        rec.true(np.shape(r) == fshape + np.shape(y), "shape")
        check_values(rec, form, r, data, knots, y)
        rec.true(np.array_equal(keep, y), "points are unchanged")
    # data given is not modified
    rec.true(np.array_equal(data, ingredients(c)[0]), "data modified")
    nontrivial(c, rec)
    rec.label(form)


INDEX = st.sampled_from(["int", "negative", "slice", "step", "list", "mask",
                         "tuple", "ellipsis", "array2d", "empty"])


def make_index(kind, shape, rng):
    n = shape[0]
    i = int(rng.integers(n))
    if kind == "int":
        return i
    if kind == "negative":
        return i - n
    if kind == "slice":
        return slice(int(rng.integers(0, n)), int(rng.integers(0, n + 2)))
    if kind == "step":
        return slice(None, None, int(rng.choice([-1, 2, -2])))
    if kind == "list":
        return rng.integers(-n, n, 3).tolist()
    if kind == "mask":
        return rng.integers(0, 2, n).astype(bool)
    if kind == "tuple":
        return tuple(int(rng.integers(m)) if rng.integers(2)
                     else slice(0, int(rng.integers(1, m + 1)))
                     for m in shape)
    if kind == "ellipsis":
        return (Ellipsis, int(rng.integers(shape[-1])))
    if kind == "array2d":
        return rng.integers(0, n, (2, 2))
    return slice(0, 0)


@PROP.family(st.fixed_dictionaries({
    "p": poly_cfg([s for s in SHAPES if s and 0 not in s]),
    "x": points(6), "index": INDEX, "index2": INDEX, "n": st.integers(0, 3),
    "seed": gen.SEED}), quick=2000)
def indexing(case, rec):
    """Indexing commutes with evaluation and derivative"""
    c = case["p"]
    p, data, knots, symm = build(c)
    rng = gen.rng(case["seed"])
    x = make_points(case["x"], knots)
    idx = make_index(case["index"], p.shape, rng)
    q = p[idx]
    full_idx = idx if isinstance(idx, tuple) else (idx,)
    sub = data[(slice(None), slice(None)) + full_idx]
    rec.true(q.shape == sub.shape[2:] and q.size == sub[0, 0].size
             and q.ndim == sub.ndim - 2, "shape")
    rec.true(np.array_equal(q.symm, p.symm[idx]), "symm")
    rec.true((q.xmin, q.xmax, q.nsegments, q.polyorder)
             == (p.xmin, p.xmax, p.nsegments, p.polyorder), "metadata")
    check_values(rec, "indexed", q(x), sub, knots, x)
    a = np.moveaxis(q(x), -1, 0)
    b = np.moveaxis(p(x), -1, 0)[(slice(None),) + full_idx]
    rec.true(a.shape == b.shape, "shape of values")
    sc = np.abs(data).sum() * np.sqrt(2 / np.diff(knots).min()) + 1e-300
    rec.close("commutes", np.abs(a - b), 1e-14 * sc)
    n = case["n"]
    da, db = p.deriv(n)[idx], q.deriv(n)
    rec.close("derivative commutes", np.abs(da(x) - db(x)), 1e-14 * np.abs(
        db.data).sum() * np.sqrt(2 / np.diff(knots).min()) + 1e-290)
    rec.true(np.array_equal(da.symm, db.symm), "symmetry")
    if q.ndim and q.size and 0 not in q.shape:
        idx2 = make_index(case["index2"], q.shape, rng)
        r = q[idx2]
        check_values(rec, "twice", r(x), sub[
            (slice(None), slice(None))
            + (idx2 if isinstance(idx2, tuple) else (idx2,))], knots, x)
    # original not affected
    check_values(rec, "original", p(x), data, knots, x)
    rec.raises(lambda: p[p.shape[0]], "index out of range", (IndexError,))
    rec.raises(lambda: p[-p.shape[0] - 1], "index", (IndexError,))
    nontrivial(c, rec)
    rec.label(case["index"])


@PROP.family(st.fixed_dictionaries({
    "p": poly_cfg([(1,), (4,), (7,)]), "x": points(10), "seed": gen.SEED,
    "form": st.sampled_from(["paired", "outer", "scalar l", "scalar x",
                             "scalars", "list", "negative", "empty"])}),
    quick=1500)
def value(case, rec):
    """value(l, x) with broadcasting"""
    c = case["p"]
    p, data, knots, _ = build(c)
    x = make_points(case["x"], knots)
    rng = gen.rng(case["seed"])
    n = p.shape[0]
    lo = -n if case["form"] == "negative" else 0
    l = rng.integers(lo, n, x.size)
    form = case["form"]
    if form == "outer":
        l = rng.integers(0, n, 3)
        got = p.value(l[:, None], x)
        ll, xx = np.broadcast_arrays(l[:, None], x)
    elif form == "scalar l":
        l0 = int(rng.integers(n))
        got = p.value(l0, x)
        ll, xx = np.broadcast_arrays(l0, x)
    elif form == "scalar x":
        x0 = float(x[0]) if x.size else knots[0]
        got = p.value(l, x0)
        ll, xx = np.broadcast_arrays(l, x0)
    elif form == "scalars":
        x0 = float(x[0]) if x.size else knots[0]
        got = p.value(int(n - 1), x0)
        ll, xx = np.array(n - 1), np.array(x0)
        rec.true(np.shape(got) == (), "scalar")
    elif form == "list":
        ll, xx = np.append(l, 0), np.append(x, knots[0])
        got = p.value(ll.tolist(), xx.tolist())
    elif form == "empty":
        ll, xx = np.zeros(0, int), np.zeros(0)
        got = p.value(ll, xx)
    else:
        got, ll, xx = p.value(l, x), l, x
    rec.true(np.shape(got) == ll.shape, "shape")
    for li, xi, gi in zip(ll.ravel(), xx.ravel(), np.asarray(got).ravel()):
        check_values(rec, "value", gi, data[:, :, li], knots, xi)
    rec.raises(lambda: p.value(n, knots[0]), "index", (IndexError,))
    rec.raises(lambda: p[0].value(0, knots[0]), "not a vector")
    rec.raises(lambda: p.value(0, np.nextafter(knots[-1], np.inf)), "range")
    rec.raises(lambda: p.value(0, np.nextafter(knots[0], -np.inf)), "range")
    nontrivial(c, rec)
    rec.label(form)


@PROP.family(st.fixed_dictionaries({
    "p": poly_cfg(), "x": points(8),
    "n": st.one_of(st.integers(0, 4), st.integers(0, 16)),
    "chain": st.booleans()}), quick=2000)
def derivative(case, rec):
    c, n = case["p"], case["n"]
    p, data, knots, symm = build(c)
    x = make_points(case["x"], knots)
    if case["chain"]:
        d = p
        for _ in range(n):
            d = d.deriv()
    else:
        d = p.deriv(n)
    rec.true(d.shape == p.shape, "shape")
    rec.true(d.polyorder == d.data.shape[0], "order does not match data")
    rec.true((d.xmin, d.xmax) == (p.xmin, p.xmax), "interval")
    rec.true(np.array_equal(d.symm, p.symm * (-1)**n), "parity")
    want = derive(data, knots, n)
    scale = derive(np.abs(data), knots, n)      # all coefficients add up
    got = d(x)
    rec.true(got.shape == p.shape + x.shape, "shape of result")
    right, left = segments(knots, x)
    err, sc = None, None
    for seg in (right, left):
        w, _ = evaluate(want, knots, x, seg)
        _, s = evaluate(scale, knots, x, seg)
        e = np.abs(got - w).astype(float)
        err = e if err is None else np.minimum(err, e)
        sc = s if sc is None else np.maximum(sc, s)
    rec.close("derivative", err, 2.5e-16 * (4 + c["order"]) * sc + 1e-290)
    if n >= c["order"]:
        rec.true(not np.any(got), "vanishes beyond the degree")
    check_values(rec, "original", p(x), data, knots, x)
    nontrivial(c, rec)
    rec.label("order %d" % min(n, 5))


@PROP.family(st.fixed_dictionaries({
    "p": poly_cfg([(), (3,), (2, 2)]), "seed": gen.SEED,
    "out": gen.loguniform(1e-12, 1e3),
    "what": st.sampled_from(["above", "below", "next above", "next below",
                             "nan", "inf", "nan data", "knots short",
                             "knots long", "knots unsorted", "knots nan",
                             "dx", "dx shape", "symm", "1d data",
                             "knots 2d"])}),
    quick=1200)
def rejected(case, rec):
    c, what = case["p"], case["what"]
    p, data, knots, _ = build(c)
    lo, hi = knots[0], knots[-1]
    e = case["out"] * max(1, abs(lo), abs(hi))
    bad = {"above": hi + e, "below": lo - e,
           "next above": np.nextafter(hi, np.inf),
           "next below": np.nextafter(lo, -np.inf),
           "nan": np.nan, "inf": np.inf}
    rng = gen.rng(case["seed"])
    if what in bad:
        t = bad[what]
        rec.raises(lambda: p(t), what, (ValueError,))
        x = rng.uniform(lo, hi, 5).clip(lo, hi)
        p(x)
        x[rng.integers(5)] = t
        rec.raises(lambda: p(x), what, (ValueError,))
        rec.raises(lambda: p.deriv()(x), what, (ValueError,))
    elif what == "nan data":
        d = data.astype(complex if c["kind"] == "complex" else float)
        d.flat[rng.integers(d.size)] = np.nan
        rec.raises(lambda: Poly(d, knots), what, (ValueError,))
    elif what == "knots short":
        rec.raises(lambda: Poly(data, knots[:-1]), what, (ValueError,))
    elif what == "knots long":
        rec.raises(lambda: Poly(data, np.hstack([knots, hi + 1])), what,
                   (ValueError,))
    elif what == "knots unsorted":
        rec.raises(lambda: Poly(data, knots[::-1]), what, (ValueError,))
        if knots.size > 2:
            k = knots.copy()
            i = int(rng.integers(knots.size - 1))
            k[i], k[i + 1] = k[i + 1], k[i]
            rec.raises(lambda: Poly(data, k), what, (ValueError,))
    elif what == "knots nan":
        k = knots.copy()
        k[rng.integers(k.size)] = np.nan
        rec.raises(lambda: Poly(data, k), what, (ValueError,))
    elif what == "dx":
        d = np.diff(knots)
        d[rng.integers(d.size)] *= 1.1
        rec.raises(lambda: Poly(data, knots, dx=d + 1e-3), what,
                   (ValueError,))
    elif what == "dx shape":
        rec.raises(lambda: Poly(data, knots, dx=np.ones(knots.size + 1)),
                   what, (ValueError,))
    elif what == "symm":
        rec.raises(lambda: Poly(data, knots,
                                symm=np.zeros((*c["shape"], 2))),
                   what, (ValueError,))
    elif what == "1d data":
        rec.raises(lambda: Poly(data.reshape(-1), knots), what,
                   (ValueError,))
    else:
        rec.raises(lambda: Poly(data, knots[None]), what, (ValueError,))
    # ends are inside
    p(lo), p(hi), p([lo, hi])
    rec.interesting()
    rec.label(what)


@PROP.family(st.fixed_dictionaries({
    "b": gen.basis_cfg(ext=.03, lam_max=3000, big=4), "n": st.integers(0, 2),
    "seed": gen.SEED}), quick=150, cost=4)
def basis_functions(case, rec):
    """Piecewise polynomials made by the library, also between knots"""
    b = gen.basis(case["b"])
    rng = gen.rng(case["seed"])
    for f in (b.u, b.v):
        x = rng.uniform(f.xmin, f.xmax, 6).clip(f.xmin, f.xmax)
        x = np.hstack([x, f.knots[rng.integers(f.knots.size, size=2)],
                       f.xmin, f.xmax])
        i = int(rng.integers(f.size))
        check_values(rec, "basis function", f[i](x), f.data[:, :, i],
                     f.knots, x, 1e-14)
        rec.close("all", np.abs(f(x)[i] - f[i](x)), 1e-13 * np.abs(
            f.data).max() * np.sqrt(2 / f.dx.min()))
        d = f.deriv(case["n"])
        check_values(rec, "its derivative", d[i](x), derive(
            f.data[:, :, i], f.knots, case["n"]), f.knots, x, 1e-13)
        # parity about the centre
        sym = np.asarray(f.symm)
        rec.true(np.array_equal(np.abs(sym), np.ones(f.size)), "parity known")
        m = f.xmin + f.xmax
        y = rng.uniform(f.xmin, f.xmax, 5)
        z = (m - y).clip(f.xmin, f.xmax)
        sc = np.abs(f(np.hstack([y, z]))).max(1)
        steep = np.abs(f.deriv()(np.hstack([y, z]))).max(1) * 4e-16 * f.xmax
        rec.close("parity", np.abs(f(z) - sym[:, None] * f(y)),
                  (5e-12 * sc + 3 * steep)[:, None])
    rec.interesting()
