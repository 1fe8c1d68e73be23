"""C21: the adapter is a drop-in replacement for irbasis"""
import functools

import irbasis
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Property

si = gen.si
adapter = __import__("sparse_ir.adapter", fromlist=["load"])
PROP = Property(
    "C21",
    "Random indices (scalars, lists, arrays, none), points, derivative orders "
    "and frequencies for the adapter and irbasis at all tabulated cutoffs up "
    "to 1000 (thorough: 10000), comparing shapes and numbers; at any other "
    "cutoff, the adapter against a basis of the library, the kernel and "
    "Fourier integrals. Non-trivial: at least two functions or points.",
    ["For a single index l, adapter.compute_unl drops the last dimension, as "
     "the existing tests require. Without index l, irbasis evaluates only "
     "scalars x, so that the layout for arrays x is not compared."])

TABLE = [10, 10, 10, 100, 100, 100, 1000] + [10000] * gen.THOROUGH
CONFIG = st.fixed_dictionaries({"stat": st.sampled_from("FB"),
                                "lam": st.sampled_from(TABLE)})


@functools.lru_cache(None)
def pair(stat, lam):
    a, b = adapter.load(stat, lam), irbasis.load(stat, lam)
    dim = int(min(a.dim(), b.dim()))
    l = np.arange(dim)[:, None]
    x = np.hstack([0, 1 - np.logspace(-4, -1e-9, 200), 1])
    y = np.hstack([0, np.logspace(-4, 0, 200) / lam**.2, 1]).clip(0, 1)
    size = {"u": np.abs(b.ulx(l, x)).max(1), "v": np.abs(b.vly(l, y)).max(1)}
    return a, b, dim, size


@functools.lru_cache(30)
def load(stat, lam):
    return adapter.load(stat, lam)


@st.composite
def index(draw, top=100):
    """Index l: scalar, list or array"""
    form = draw(st.sampled_from(["int", "np", "list", "array", "column"]))
    ls = draw(st.lists(st.integers(0, top), min_size=1, max_size=4))
    return {"form": form, "l": ls}


def make_index(c, dim):
    l = [i % dim for i in c["l"]]
    if c["form"] == "int":
        return l[0]
    if c["form"] == "np":
        return np.int64(l[0])
    if c["form"] == "list":
        return l
    if c["form"] == "array":
        return np.array(l)
    return np.array(l)[:, None]


XFORM = st.sampled_from(["scalar", "list", "array", "2d"])


def make_x(form, x):
    if form == "scalar":
        return x[0]
    if form == "list":
        return list(x)
    if form == "array":
        return np.array(x)
    return np.array([x, x[::-1]])


def same_shape(rec, what, got, want):
    rec.true(np.shape(got) == tuple(want), lambda: "%s: shape %s instead of %s"
             % (what, np.shape(got), tuple(want)))


def noise(b, which, order):
    """Rounding, amplified by the derivative, at points other than knots"""
    edges = b.section_edges_x if which == "u" else b.section_edges_y
    return 1e-13 * (2 / np.diff(edges)).max()**order


@PROP.family(st.fixed_dictionaries({
    "c": CONFIG, "which": st.sampled_from(["u", "v"]),
    "l": st.one_of(st.none(), index()),
    "x": st.lists(gen.unit_points(), min_size=1, max_size=5),
    "form": XFORM, "order": st.one_of(st.none(), st.integers(0, 3)),
    "section": st.booleans()}), quick=1500)
def functions(case, rec):
    """Basis functions and derivatives against irbasis"""
    a, b, dim, size = pair(case["c"]["stat"], case["c"]["lam"])
    which, order = case["which"], case["order"]
    l = case["l"]
    x = make_x("scalar" if l is None else case["form"], case["x"])
    if l is None:
        idx, l = None, np.arange(dim)
        rec.label("no index")
    else:
        idx = l = make_index(l, dim)
        try:
            np.broadcast_shapes(np.shape(l), np.shape(x))
        except ValueError:
            return
    rec.interesting(np.size(x) > 1 or np.size(l) > 1)
    if order is None:
        got = getattr(a, which + ("lx" if which == "u" else "ly"))(idx, x)
        want = getattr(b, which + ("lx" if which == "u" else "ly"))(idx, x)
    else:
        kw = {"section": 0} if which == "u" and case["section"] else {}
        name = "d_ulx" if which == "u" else "d_vly"
        got = getattr(a, name)(idx, x, order, **kw)
        want = getattr(b, name)(idx, x, order, **kw)
    rec.label("order %s" % order)
    k = order or 0
    if idx is None:
        same_shape(rec, which, got, (a.dim(),))
        got, want = got[:dim], want[:dim]
    else:
        same_shape(rec, which, got, want.shape)
    if k:
        # derivatives are discontinuous at knots to the accuracy of the
        # function times its change of scale
        knots = np.concatenate([getattr(q, "section_edges_" + "xy"[which == "v"])
                                for q in (a, b)])
        d = np.abs(np.asarray(x)[..., None] - knots).min(-1)
        if (d < 1e-9).any():
            rec.label("close to knot")
    lax = noise(b, which, k) * 1e2**k
    tol = size[which][l] * (3e-11 + lax)
    rec.close("%s derivative %d" % (which, k) if k else which,
              np.abs(got - want), tol + 1e-8 * (k > 0) * np.abs(want))


@PROP.family(st.fixed_dictionaries({
    "c": CONFIG, "l": st.one_of(st.none(), index()),
    "n": st.lists(st.one_of(st.integers(-20, 20), st.integers(-3000, 3000),
                            st.integers(-10**7, 10**7)), min_size=1,
                  max_size=5), "form": XFORM}), quick=1000)
def fourier(case, rec):
    """Fourier coefficients and singular values against irbasis"""
    lam = case["c"]["lam"]
    a, b, dim, size = pair(case["c"]["stat"], lam)
    n = make_x(case["form"], case["n"])
    idx = None if case["l"] is None else make_index(case["l"], dim)
    rec.interesting(np.size(n) > 1 or np.size(idx) > 1)
    got, want = a.compute_unl(n, idx), b.compute_unl(n, idx)
    if idx is None:
        same_shape(rec, "unl", got, np.shape(n) + (a.dim(),))
        got, want = got[..., :dim], want[..., :dim]
        l = np.arange(dim)
    elif np.ndim(idx) == 0:
        rec.label("single index")
        same_shape(rec, "unl", got, np.shape(n))
        want = want[..., 0]
        l = idx
    else:
        same_shape(rec, "unl", got, want.shape)
        l = np.ravel(idx)
    scale = np.abs(b.compute_unl(np.arange(60), l)).max(0)
    scale = scale if np.ndim(l) else scale[0]
    err = np.abs(got - want)
    rec.close("unl", err, 2e-11 * scale + 0 * err)
    zeta = case["c"]["stat"] == "F"
    outer = np.abs(2 * np.asarray(n) + zeta) >= 40 * lam
    if outer.any():
        rec.label("asymptotic")
        rec.close("unl asymptotic", err[outer], 1e-9 * np.abs(want[outer]))
    # singular values
    s, t = a.sl(idx), b.sl(idx)
    if idx is None:
        same_shape(rec, "sl", s, (a.dim(),))
        rec.true(a.dim() >= .9 * b.dim(), "dimension")
        s, t = s[:dim], t[:dim]
    else:
        same_shape(rec, "sl", s, np.shape(t))
    rec.close("sl", np.abs(s - t), 1e-12 * t)
    rec.true(a.Lambda == b.Lambda == lam and a.statistics == b.statistics
             and np.ndim(a.dim()) == 0, "metadata")


@PROP.family(st.fixed_dictionaries({
    "c": CONFIG, "which": st.sampled_from("xym"), "l": st.integers(0, 70),
    "module": st.booleans()}), quick=32, thorough=1500, cost=20)
def points(case, rec):
    """Sampling points against irbasis"""
    a, b, dim, size = pair(case["c"]["stat"], case["c"]["lam"])
    l = case["l"] % dim
    which = case["which"]
    name = "sampling_points_" + {"x": "x", "y": "y", "m": "matsubara"}[which]
    got = (getattr(adapter, name)(a, l) if case["module"]
           else getattr(a, name)(l))
    want = getattr(b, name)(l)
    rec.interesting(l > 1)
    rec.label(which)
    same_shape(rec, name, got, want.shape)
    if which != "m":
        rec.close(name, np.abs(got - want), 1e-10)
        return
    rec.true(np.issubdtype(got.dtype, np.integer), "integers")
    # the position of flat maxima may differ
    ga, wa = (np.abs(b.compute_unl(p, l)[:, 0]) for p in (got, want))
    same = (got == want) | (np.abs(ga - wa) <= 1e-8 * wa)
    rec.true(same.all(), lambda: "%s: %s instead of %s" % (
        name, got[~same], want[~same]))


@PROP.family(st.fixed_dictionaries({
    "stat": st.sampled_from("FB"),
    "lam": gen.lam(.05, 40), "int": st.booleans(),
    "l": st.one_of(st.none(), index(40)),
    "x": st.lists(gen.unit_points(), min_size=1, max_size=4),
    "y": st.floats(-1, 1, allow_nan=False),
    "n": st.lists(st.one_of(st.integers(-20, 20), st.integers(-3000, 3000)),
                  min_size=1, max_size=5),
    "order": st.integers(0, 3),
    "beta": gen.loguniform(.01, 100)}), quick=96, thorough=3000, cost=20)
def elsewhere(case, rec):
    """Any cutoff: against the library's own basis, kernel and integrals"""
    compare_basis(case, rec, None)


@PROP.family(st.fixed_dictionaries({
    "stat": st.sampled_from("FB"),
    "lam": gen.loguniform(.05, 1e5), "int": st.booleans(),
    "l": st.one_of(st.none(), index(40)),
    "x": st.lists(gen.unit_points(), min_size=1, max_size=4),
    "y": st.floats(-1, 1, allow_nan=False),
    "n": st.lists(st.one_of(st.integers(-20, 20), st.integers(-3000, 3000)),
                  min_size=1, max_size=5),
    "order": st.integers(0, 2),
    "beta": gen.loguniform(.01, 100)}), quick=120, thorough=6000, cost=4)
def given(case, rec):
    """As before, but made from an expansion of lower accuracy"""
    compare_basis(case, rec, 1e-8)


def lobes(fx):
    """Return slices of same sign"""
    cut = np.flatnonzero(np.signbit(fx[1:]) != np.signbit(fx[:-1])) + 1
    edges = np.hstack([0, cut, fx.size])
    return list(map(slice, edges[:-1], edges[1:]))


@PROP.family(st.fixed_dictionaries({
    "stat": st.sampled_from("FB"), "lam": gen.loguniform(.5, 1e6),
    "l": st.integers(0, 100), "module": st.booleans()}), quick=120,
    thorough=6000, cost=4)
def frequencies(case, rec):
    """Sampling frequencies for any cutoff: maximum of each lobe"""
    lam, stat = case["lam"], case["stat"]
    kind = {"F": "log", "B": "bose"}[stat]
    if kind == "bose":
        lam = min(lam, 1e5)
    a = adapter.Basis(stat, lam, gen.sve({"kind": kind, "lam": lam,
                                          "eps": 1e-8}))
    l = case["l"] % int(a.dim())
    got = (adapter.sampling_points_matsubara(a, l) if case["module"]
           else a.sampling_points_matsubara(l))
    zeta = stat == "F"
    rec.true(np.issubdtype(got.dtype, np.integer), "integers")
    rec.true((np.diff(got) > 0).all(), "ascending")
    rec.true(np.array_equal(got, -got[::-1] - zeta), "symmetric")
    n = got[got >= 0]
    full = adapter_sign(a, l, stat)
    top = 20 * max(lam, 10)
    scan = np.unique(np.hstack([np.arange(800), np.exp(np.linspace(
        np.log(800), np.log(max(top, 900)), 3000))]).astype(int))
    fx = full(scan)
    good = np.abs(fx) > 1e-8 * np.abs(fx).max()
    scan, fx = scan[good], fx[good]
    vals = np.abs(full(n))
    for lobe in lobes(fx):
        lo, hi = scan[lobe][[0, -1]]
        best = np.abs(fx[lobe]).max()
        if best < 1e-4 * np.abs(fx).max():
            continue
        inside = (n >= lo) & (n <= hi)
        # one-sided lobes with their maximum at the edge of the scan
        rec.true(inside.sum() == 1 or stat == "B" and inside.sum() == 2
                 and lo == 0, lambda: "%s in lobe %d:%d" % (
                     n[inside], lo, hi))
        rec.true((vals[inside] > .99 * best).any(), lambda:
                 "no maximum of lobe %d:%d: %r %r" % (lo, hi, vals[inside],
                                                      best))
    rec.true(stat == "F" or 0 in got, "zero frequency")
    rec.interesting(l > 1)
    rec.label("%s 1e%d" % (stat, np.floor(np.log10(lam))))


def compare_basis(case, rec, eps):
    lam, stat = case["lam"], case["stat"]
    if case["int"] and lam >= 1:
        lam = int(lam)
    kind = {"F": "log", "B": "bose"}[stat]
    cfg = {"kind": kind, "lam": float(lam), "eps": eps}
    full = gen.sve(cfg)
    a = load(stat, lam) if eps is None else adapter.Basis(stat, lam, full)
    dim = int(a.dim())
    rec.interesting(dim > 2)
    rec.true(a.Lambda == lam and a.statistics == stat, "metadata")
    rel = full.s / full.s[0]
    if eps is None:
        rec.true((rel > 2e-16).sum() >= dim >= (rel > 1e-14).sum(), lambda:
                 "dimension %d" % dim)
    else:
        rec.true(dim == full.part()[1].size, lambda: "dimension %d" % dim)
    idx = None if case["l"] is None else make_index(case["l"], dim)
    if np.ndim(idx) > 1:
        idx = idx.ravel()
    sel = np.arange(dim) if idx is None else idx
    rec.close("sl", np.abs(a.sl(idx) - full.s[sel]), 1e-14 * full.s[sel])
    # functions of basis
    beta = case["beta"]
    kern = gen.kernel_of(kind, float(lam))
    b = si.FiniteTempBasis(stat, beta, kern.lambda_ / beta, kernel=kern,
                           sve_result=full)
    wmax = b.wmax
    k = case["order"]
    edges = np.union1d(full.u.knots, full.v.knots)
    for x in case["x"]:
        if eps and np.abs(x - edges[1:-1]).min(initial=1) < 1e-9:
            # adjacent pieces differ by the accuracy of the expansion
            rec.label("close to knot")
            continue
        tau = np.clip((x + 1) * beta / 2, 0, b.u.xmax)
        om = np.clip(x * wmax, b.v.xmin, b.v.xmax)
        for name, f, t, c in (("ulx", b.u, tau, beta / 2),
                              ("vly", b.v, om, wmax)):
            fd = f.deriv(k)
            want = fd(t)[sel] * c**(k + .5)
            got = getattr(a, "d_" + name)(idx, x, k)
            same_shape(rec, name, got, np.shape(want))
            # rounding of position
            grid = f.knots[:-1] + np.array([0, .5])[:, None] * np.diff(f.knots)
            sc = np.abs(fd(grid)).max((1, 2))[sel] * c**(k + .5)
            sl = np.abs(fd.deriv()(grid)).max((1, 2))[sel] * c**(k + 1.5)
            jump = 1e-9 * (2 * c / np.diff(f.knots).min())**k
            rec.close(name + " %d" % k, np.abs(got - want), 1e-11 * sc
                      + 4e-15 * sl + (jump if k > 1 else 0) * (1 + 0 * sc))
            if k == 0:
                got = getattr(a, name)(idx, x)
                rec.close(name, np.abs(got - want), 1e-11 * sc + 4e-15 * sl)
    # Fourier coefficients
    n = np.array(case["n"])
    wn = 2 * n + (stat == "F")
    got = a.compute_unl(n, idx)
    want = np.moveaxis(b.uhat(wn), 0, -1)[..., sel] / np.sqrt(beta)
    same_shape(rec, "unl", got, want.shape)
    rec.close("unl", np.abs(got - want), 1e-11)
    e = np.linspace(-1, 1, 40 + 2 * int(np.abs(n).max()) // 4)
    if np.abs(n).max() < 300:
        xq, wq = ref.composite(np.union1d(e, full.u.knots), 10)
        u = a.ulx(np.arange(dim)[:, None], xq)
        ex = np.exp(.5j * np.pi * wn[:, None] * (xq + 1))
        rec.close("unl integral", np.abs(got - (ex @ (wq * u).T
                                                / np.sqrt(2))[:, sel]), 1e-10)
        rec.label("integral")
    # singular value expansion of kernel
    x, y = case["x"][0], case["y"]
    kxy = (a.ulx(None, x) * a.sl()) @ a.vly(None, y)
    size = full.s[0] * np.abs(a.ulx(None, 1.)).max() * 4
    rec.close("kernel", np.abs(kxy - ref.kernel_value(kind, float(lam), x, y)),
              10 * eps * size if eps else 1e-12 * size)
    rec.true(a.num_sections_x() == np.size(a.section_edges_x) - 1
             and a.num_sections_y() == np.size(a.section_edges_y) - 1
             and a.section_edges_x[0] == a.section_edges_y[0] == -1
             and a.section_edges_x[-1] == a.section_edges_y[-1] == 1,
             "sections")


@PROP.family(st.fixed_dictionaries({
    "stat": st.sampled_from("FB"), "lam": gen.lam(.05, 40),
    "l": st.integers(0, 30), "which": st.sampled_from("xym")}), quick=32,
    thorough=1500, cost=20)
def points_elsewhere(case, rec):
    """Sampling points from roots and maxima of the functions themselves"""
    lam, stat, which = case["lam"], case["stat"], case["which"]
    a = load(stat, lam)
    dim = int(a.dim())
    l = case["l"] % dim
    rec.interesting(l > 1)
    rec.label(which)
    if which == "m":
        got = a.sampling_points_matsubara(l)
        full = adapter_sign(a, l, stat)
        rec.true((np.diff(got) > 0).all(), "ascending")
        zeta = stat == "F"
        rec.true(np.array_equal(got, -got[::-1] - zeta), "symmetric")
        n = got[got >= 0]
        vals = full(n)
        want = np.abs(full(np.arange(4 * max(int(lam), 10))))
        flips = vals[1:] * vals[:-1] < 0
        rec.true(flips[(n[:-1] > 0)].all(), "one point per lobe")
        rec.close("largest included", want.max() - np.abs(vals).max(),
                  1e-9 * want.max())
        rec.true(stat == "F" or 0 in got, "zero frequency")
        return
    full = gen.sve({"kind": {"F": "log", "B": "bose"}[stat], "lam": float(lam),
                    "eps": None})
    f = (full.u if which == "x" else full.v)[l]
    got = getattr(a, "sampling_points_" + which)(l)
    r = f.roots()
    if r.size != l:
        rec.label("other number of roots")
        return
    e = np.hstack([-1, r, 1])
    want = .5 * (e[1:] + e[:-1])
    if which == "y":
        # rounding may turn the root of odd functions at zero into three
        got, want = (p[np.abs(p) > 1e-9] for p in (got, want))
    same_shape(rec, which, got, want.shape)
    rec.close("points " + which, np.abs(got - want), 1e-8)


def adapter_sign(a, l, stat):
    """Real function of n proportional to Fourier coefficient"""
    def fn(n):
        u = a.compute_unl(n, l)
        return u.real if l % 2 == (stat == "F") else u.imag
    return fn
