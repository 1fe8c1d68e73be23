"""C09: transformations act along one axis, independently on all others"""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Property

si = gen.si
PROP = Property(
    "C09",
    "Random bases and samplings; random arrays (1-4 dimensions, extents 0-4, "
    "any axis counted from either end, dtypes, memory layouts, strides): each "
    "slice compared with explicit transformation of that slice, linearity "
    "with random combinations, arguments unchanged. Basis functions on points "
    "of any shape compared point by point. Non-trivial: at least two "
    "dimensions of extent above one, at least 2 basis functions.", [])

CFG = gen.basis_cfg(ext=.03, lam_max=300., lam_max_ext=3., beta_lo=.1,
                    beta_hi=100)
DTYPES = ["f8", "c16", "f8", "c16", "f4", "c8", "i8", "i4", "u1", "bool"]
LAYOUTS = ["C", "F", "strided", "reversed", "transposed", "readonly", "offset",
           "broadcast"]


def make_array(rng, shape, dtype, layout):
    """Array of random numbers of the given layout"""
    dt = np.dtype(dtype)

    def draw(shape):
        x = np.asarray(3 * rng.normal(size=shape))
        if dt.kind == "c":
            x = x + 3j * rng.normal(size=shape)
        elif dt.kind == "b":
            x = x > 0
        elif dt.kind == "u":
            x = np.abs(x)
        return np.asarray(x).astype(dt)

    if layout == "strided":
        x = draw(tuple(2 * n for n in shape))
        return x[tuple(slice(None, None, 2) for _ in shape)]
    if layout == "reversed":
        return draw(shape)[tuple(slice(None, None, -1) for _ in shape)]
    if layout == "transposed":
        return draw(shape[::-1]).T
    if layout == "F":
        return np.array(draw(shape), order="F")
    if layout == "offset":
        x = draw(shape + (3,))
        return x[..., 1]
    if layout == "broadcast":
        if len(shape) > 1:
            return np.broadcast_to(draw(shape[1:]), shape)
        return draw(shape)
    x = draw(shape)
    if layout == "readonly":
        x.flags.writeable = False
    return x


def by_slice(fn, x, axis):
    """Apply function to each one-dimensional slice along axis"""
    x = np.moveaxis(np.asarray(x), axis, -1)
    flat = x.reshape(-1, x.shape[-1])
    rows = [fn(np.array(row)) for row in flat]
    if not rows:
        n = fn(np.zeros(x.shape[-1])).shape
        return np.moveaxis(np.zeros(x.shape[:-1] + n), -1, axis)
    res = np.array(rows).reshape(x.shape[:-1] + rows[0].shape)
    return np.moveaxis(res, -1, axis)


@st.composite
def array_case(draw):
    ndim = draw(st.integers(1, 4))
    return {"cfg": draw(CFG),
            "smpl": draw(st.sampled_from(["tau", "matsu", "matsu+"])),
            "op": draw(st.sampled_from(["evaluate", "fit"])),
            "points": draw(st.booleans()),
            "trunc": draw(st.one_of(st.none(), st.integers(1, 6))),
            "other": draw(st.lists(st.sampled_from([1, 2, 3, 4, 0, 2, 3]),
                                   min_size=ndim - 1, max_size=ndim - 1)),
            "axis": draw(st.one_of(st.none(), st.integers(-ndim, ndim - 1))),
            "dtype": draw(st.sampled_from(DTYPES)),
            "layout": draw(st.sampled_from(LAYOUTS)), "seed": draw(gen.SEED)}


def smplkey(b, kind, points, rng):
    """Sampling object and points, which are passed or the default ones"""
    if kind == "tau":
        smpl = si.TauSampling(b)
        pts = np.sort(rng.uniform(0, b.u.xmax, b.size + 3)) if points else None
        a = b.u(smpl.tau if pts is None else pts).T
    else:
        smpl = si.MatsubaraSampling(b, positive_only=kind == "matsu+")
        pts = None
        if points:
            pts = smpl.wn
            pts = np.unique(np.hstack([pts, pts + 2]))
        a = b.uhat(smpl.wn if pts is None else pts).T
    return smpl, pts, a


@PROP.family(array_case(), quick=1800)
def arrays(case, rec):
    b = gen.basis(case["cfg"])
    if case["trunc"] is not None and case["trunc"] < b.size:
        b = b[:case["trunc"]]
    rng = gen.rng(case["seed"])
    smpl, pts, a = smplkey(b, case["smpl"], case["points"], rng)
    positive = case["smpl"] == "matsu+"
    kw = {} if pts is None else {"points": pts}
    n = a.shape[1 if case["op"] == "evaluate" else 0]
    ndim = 1 + len(case["other"])
    axis = case["axis"]
    pos = max(ndim - 2, 0) if axis is None else axis % ndim
    shape = list(case["other"])
    shape.insert(pos, n)
    dtype = case["dtype"]
    if positive and case["op"] == "evaluate":
        dtype = {"c16": "f8", "c8": "f4"}.get(dtype, dtype)
    x = make_array(rng, tuple(shape), dtype, case["layout"])
    before = np.array(x)

    method = getattr(smpl, case["op"])
    if axis is None:
        y = method(x, **kw)
    elif rng.integers(2):
        y = method(x, axis, **kw)
    else:
        y = method(x, axis=axis, **kw)

    nout = a.shape[0 if case["op"] == "evaluate" else 1]
    want_shape = list(shape)
    want_shape[pos] = nout
    rec.true(y.shape == tuple(want_shape), lambda: "shape %s instead of %s"
             % (y.shape, tuple(want_shape)))
    xmax = np.abs(before).max(initial=0)
    if case["op"] == "evaluate":
        want = by_slice(lambda v: a @ v, before, pos)
        tol = 1e-14 * n * np.abs(a).max() * xmax
    elif positive:
        m = np.vstack([a.real, a.imag])
        want = by_slice(lambda v: np.linalg.lstsq(
            m, np.hstack([v.real, v.imag]), rcond=None)[0], before, pos)
        s = np.linalg.svd(m, compute_uv=False)
    else:
        want = by_slice(lambda v: np.linalg.lstsq(a, v, rcond=None)[0],
                        before, pos)
        s = np.linalg.svd(a, compute_uv=False)
    if case["op"] == "fit":
        cond = s[0] / s[-1]
        if cond > 1e7:
            rec.label("ill-conditioned")
            return
        tol = 1e-14 * n * cond**2 * xmax / s[0] * np.sqrt(n)
        rec.true(np.iscomplexobj(y) == (
            not positive and (np.iscomplexobj(a) or np.iscomplexobj(x))),
            "type of result")
    else:
        rec.true(np.iscomplexobj(y) == (np.iscomplexobj(a)
                                        or np.iscomplexobj(x)),
                 "type of result")
    rec.true(y.dtype in (np.float64, np.complex128), "precision of result")
    rec.close(case["op"], np.abs(y - want), tol)

    # slices on their own
    alone = by_slice(lambda v: method(v, **kw), before, pos)
    rec.close("alone", np.abs(y - alone), tol)
    rec.true(np.array_equal(before, x), "argument modified")

    # linearity
    if np.dtype(dtype).kind in "fc" and np.dtype(dtype).itemsize % 8 == 0:
        z = make_array(rng, tuple(shape), dtype, "C")
        c, d = rng.normal(size=2)
        kwa = {} if axis is None else {"axis": axis}
        lhs = method(c * x + d * z, **kwa, **kw)
        rhs = c * method(x, **kwa, **kw) + d * method(z, **kwa, **kw)
        rec.close("linear", np.abs(lhs - rhs),
                  8 * tol + 1e-13 * np.abs(rhs).max(initial=0))
    if positive and case["op"] == "fit" and dtype == "c16":
        # not complex linear: fit(conj) with the conjugate problem is the same
        rec.label("split")
    rec.interesting(sum(k > 1 for k in shape) > 1 and b.size > 1)
    rec.label(case["layout"])
    rec.label("axis=None" if axis is None else "axis")


@PROP.family(st.fixed_dictionaries({
    "cfg": CFG, "what": st.sampled_from(["tau", "matsu", "matsu+", "dlr",
                                         "matrix"]),
    "op": st.sampled_from(["evaluate", "fit"]), "cols": st.integers(1, 7),
    "real": st.booleans(), "decades": st.sampled_from([0, 3, 30, 100]),
    "special": st.sampled_from([None, None, "nan", "inf", "zero"]),
    "first": st.booleans(), "seed": gen.SEED}), quick=700)
def scales(case, rec):
    """Slices, and real and imaginary parts, of very different magnitude"""
    b = gen.basis(case["cfg"])
    rng = gen.rng(case["seed"])
    what, op = case["what"], case["op"]
    if what == "dlr" and case["cfg"]["kind"] != "log":
        what = "tau"
    pos = what == "matsu+"
    if what == "matrix":
        m = int(rng.integers(2, 9))
        n = int(rng.integers(2, 9))
        a = rng.normal(size=(m, n))
        d = si.sampling.DecomposedMatrix(a)
        f = d.matmul if op == "evaluate" else d.lstsq
        n = n if op == "evaluate" else m
        cond, top = d.cond, d.s[0]
    elif what == "dlr":
        d = si.dlr.DiscreteLehmannRepresentation(b)
        f = d.to_IR if op == "evaluate" else d.from_IR
        n = d.size if op == "evaluate" else b.size
    else:
        smpl, _, a = smplkey(b, what, False, rng)
        f = getattr(smpl, op)
        n = a.shape[1 if op == "evaluate" else 0]
        cond, top = smpl.cond, smpl.matrix.s[0]
    k = case["cols"]
    dec = case["decades"]
    x = rng.normal(size=(n, k))
    if what == "dlr" and op == "fit":
        x *= b.s[:, None]
    real = case["real"] or pos and op == "evaluate"
    if not real:
        x = x + 1j * x[rng.permutation(n)] * 10.**rng.uniform(-dec, 0, k)
    x *= 10.**rng.uniform(-dec, dec, k)
    # error relative to slice itself
    def tol(col, res):
        if what == "dlr":
            return 1e-10 * np.abs(res).max()
        if op == "evaluate":
            return 1e-14 * n * np.abs(a).max() * np.abs(col).max()
        return 1e-14 * n * cond**min(2, 1 + (cond < 1e7)) / top * (
            np.abs(col).max())
    special = case["special"]
    j = int(rng.integers(k))
    if special is not None:
        x[int(rng.integers(n)), j] = {"nan": np.nan, "inf": np.inf,
                                      "zero": 0}[special]
        if special == "zero":
            x[:, j] = 0
    with np.errstate(all="ignore"):
        y = f(x, axis=0) if case["first"] else f(x.T.copy(), axis=1).T
    rec.true(np.iscomplexobj(y) == (
        what.startswith("matsu") and not (pos and op == "fit")
        or not (real or pos)), "type of result")
    rational = what in ("tau", "dlr", "matrix")
    for i in range(k):
        if special in ("nan", "inf") and i == j:
            rec.true(not np.isfinite(y[:, i]).all(), "%s is lost" % special)
            continue
        if special == "zero" and i == j:
            rec.true((y[:, i] == 0).all(), "zero")
            continue
        one = f(x[:, i].copy())
        rec.close("slice", np.abs(y[:, i] - one), tol(x[:, i], one))
        if rational and not real:
            for part in np.real, np.imag:
                one = f(part(x[:, i]).copy())
                rec.close("part", np.abs(part(y[:, i]) - one),
                          tol(part(x[:, i]), one))
    if what != "dlr" and op == "evaluate" and special is None:
        rec.close("product", np.abs(y - a @ x).max(0)
                  / np.abs(x).max(0), 1e-14 * n * np.abs(a).max())
    rec.interesting(dec > 0 and n > 1 and k > 1)
    rec.label(what + " " + op)


def generic(case, rec):
    """Sets of functions of any dimension at points of any dimension"""
    rng = gen.rng(case["seed"])
    fshape, shape = tuple(case["fshape"]), tuple(case["shape"])
    p = si.poly.PiecewiseLegendrePoly(
        rng.normal(size=(4, 3) + fshape), [-1, -.25, .5, 1.])
    x = make_array(rng, shape, "f8", case["layout"])
    if case["what"] == "poly":
        f, x = p, np.tanh(x)
    else:
        f = si.poly.PiecewiseLegendreFT(p, "odd")
        x = 2 * np.round(x * 10).astype(int) + 1
    x = x if shape else x[()]
    y = f(x)
    rec.true(np.shape(y) == fshape + shape, lambda: "shape %s instead of %s"
             % (np.shape(y), fshape + shape))
    for k in np.ndindex(*fshape):
        q = si.poly.PiecewiseLegendrePoly(p.data[(Ellipsis,) + k], p.knots)
        if case["what"] != "poly":
            q = si.poly.PiecewiseLegendreFT(q, "odd")
        pts = np.asarray(x).ravel()
        want = np.array([q(t) for t in pts], np.asarray(y).dtype)
        rec.close(case["what"], np.abs(np.ravel(np.asarray(y)[k]) - want),
                  1e-13)
    rec.interesting(len(shape) > 1 and len(fshape) > 1)
    rec.label("%dd set at %dd points" % (len(fshape), len(shape)))


@PROP.family(st.fixed_dictionaries({
    "cfg": CFG, "what": st.sampled_from(["u", "v", "uhat", "dlr.u", "dlr.uhat",
                                         "s.u", "du", "poly", "polyhat"]),
    "fshape": st.lists(st.integers(1, 3), min_size=1, max_size=3),
    "shape": st.lists(st.integers(0, 4), max_size=4),
    "index": st.sampled_from([None, "int", "slice", "list", "nparray", "neg",
                              "step"]),
    "layout": st.sampled_from(LAYOUTS), "seed": gen.SEED}), quick=1500)
def functions(case, rec):
    """Broadcasting over points"""
    if case["what"].startswith("poly"):
        return generic(case, rec)
    b = gen.basis(case["cfg"])
    rng = gen.rng(case["seed"])
    shape = tuple(case["shape"])
    what = case["what"]
    npts = int(np.prod(shape))
    if what.startswith("dlr"):
        if case["cfg"]["kind"] == "bose":
            what = "u" if what == "dlr.u" else "uhat"
    if what == "u":
        f, lohi = b.u, (0, b.u.xmax)
    elif what == "v":
        f, lohi = b.v, (b.v.xmin, b.v.xmax)
    elif what == "s.u":
        f, lohi = b.sve_result.u, (-1, 1)
    elif what == "du":
        f, lohi = b.u.deriv(), (0, b.u.xmax)
    elif what == "dlr.u":
        f, lohi = si.dlr.DiscreteLehmannRepresentation(b).u, (0, b.beta)
    elif what == "uhat":
        f, lohi = b.uhat, None
    else:
        f, lohi = si.dlr.DiscreteLehmannRepresentation(b).uhat, None
    x = make_array(rng, shape, "f8", case["layout"])
    if lohi is None:
        z = {"F": 1, "B": 0}[b.statistics]
        x = 2 * np.round(x * 10).astype(int) + z
    else:
        x = lohi[0] + (lohi[1] - lohi[0]) * (np.tanh(x) + 1) / 2
        x = np.clip(x, *lohi)
    x = x if shape else x[()]
    index = case["index"]
    size = b.sve_result.s.size if what == "s.u" else b.size
    ls = np.arange(size)
    if what.startswith("dlr"):
        index = None
        probe = np.array([lohi[0] if lohi else {"F": 1, "B": 0}[b.statistics]])
        lshape = (f(x.ravel()[:1] if npts else probe).shape[0],)
        ls = np.arange(lshape[0])
    elif index == "int":
        k = int(rng.integers(size))
        f, ls, lshape = f[k], [k], ()
    elif index == "neg":
        k = -1 - int(rng.integers(size))
        f, ls, lshape = f[k], [size + k], ()
    elif index == "slice":
        k = slice(int(rng.integers(size)), int(rng.integers(size)) + 1)
        f, ls = f[k], ls[k]
        lshape = (len(ls),)
    elif index == "step":
        k = slice(None, None, 2)
        f, ls = f[k], ls[k]
        lshape = (len(ls),)
    elif index in ("list", "nparray"):
        k = rng.integers(0, size, 3)
        ls, lshape = k, (3,)
        f = f[k.tolist() if index == "list" else k]
    else:
        lshape = (size,)
    before = np.array(x)
    y = f(x)
    rec.true(np.array_equal(before, x), "argument modified")
    rec.true(np.shape(y) == lshape + shape, lambda: "shape %s instead of %s"
             % (np.shape(y), lshape + shape))
    base = {"u": lambda: b.u, "v": lambda: b.v, "uhat": lambda: b.uhat,
            "s.u": lambda: b.sve_result.u, "du": lambda: b.u.deriv(),
            }.get(what, lambda: f)()
    pts = before.ravel()
    pick = rng.permutation(npts)[:6]
    y = np.reshape(y, (len(ls), npts))
    for i in pick:
        one = np.asarray(base(pts[i]))
        rec.true(one.shape == (base(pts[:1]).shape[0],), "scalar point")
        one = one[ls]
        # frequencies next to where the asymptotic model takes over and
        # summation order allow for rounding only
        rec.close(what, np.abs(y[:, i] - one),
                  1e-13 * np.abs(one) + 1e-14 * np.abs(base(pts[i])).max())
        if npts and index is None and what in ("u", "v", "s.u"):
            l = int(rng.integers(size))
            rec.close("value", abs(base.value(np.array([l, l]),
                                              pts[[i, i]])[1] - one[l]),
                      1e-13 * abs(one[l]) + 1e-14 * np.abs(one).max())
    rec.interesting(len(shape) > 1 and npts > 1 and len(ls) > 1)
    rec.label(what)
    rec.label("%dd points" % len(shape))
