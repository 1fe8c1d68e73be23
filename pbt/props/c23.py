"""C23: invalid input is rejected with an error, valid input never is"""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Property
from . import c15

si = gen.si
aug = si.augment
PROP = Property(
    "C23",
    "Random objects with one random argument just inside, on, just outside or "
    "far outside the boundary of its domain (or not a number, or of another "
    "kind), alone or hidden among valid ones. Non-trivial: a call which must "
    "be rejected, or one exactly on a boundary.",
    ["Any exception counts as a rejection, a warning does not."])

BASIS = gen.basis_cfg(ext=0, lam_max=3e3)
BAD = st.sampled_from([None, None, "ulp", "ulp", "near", "far", "nan", "inf"])


def spoil(c, lo, hi):
    """Value outside of the range [lo, hi]"""
    up = c["up"]
    if c["bad"] == "nan":
        return np.nan
    if c["bad"] == "inf":
        return np.inf if up else -np.inf
    edge = np.nextafter(hi, np.inf) if up else np.nextafter(lo, -np.inf)
    d = {"ulp": 0., "near": 10.0**-c["mag"], "far": c["mag"]}[c["bad"]]
    d *= hi - lo
    return float(max(edge, hi + d) if up else min(edge, lo - d))


POINT_ARGS = {
    "t": st.lists(st.one_of(st.sampled_from([0., 1., .5, 1.]), st.floats(0, 1)),
                  min_size=1, max_size=6),
    "bad": BAD, "up": st.booleans(), "mag": st.floats(.5, 15).map(gen.cround),
    "pos": st.integers(0, 5),
    "form": st.sampled_from(["array", "list", "scalar", "2d", "zerodim"])}


def points_of(c, lo, hi):
    """Points of [lo, hi], one of them invalid unless c["bad"] is None"""
    t = np.array(c["t"])
    x = np.clip(lo + (hi - lo) * t, lo, hi)
    x[t == 0] = lo
    x[t == 1] = hi
    if c["bad"] is not None:
        x[c["pos"] % x.size] = spoil(c, lo, hi)
    form = c["form"]
    if form in ("scalar", "zerodim"):
        x = x[c["pos"] % x.size]
        return float(x) if form == "scalar" else np.array(x)
    if form == "list":
        return [float(v) for v in x]
    if form == "2d":
        return x.reshape(1, -1)
    return x


def verdict(rec, c, fn, x, lead, what, finite=True):
    """Call must work if valid, and must not otherwise"""
    if c["bad"] is not None:
        rec.interesting()
        rec.label("rejected: " + c["bad"])
        rec.raises(fn, "%s for %r" % (what, x))
        return
    res = np.asarray(fn())
    rec.interesting(0. in c["t"] or 1. in c["t"])
    rec.label("accepted")
    if lead is not None:
        rec.true(res.shape == lead + np.shape(x), lambda: "%s: shape %s"
                 % (what, res.shape))
    if finite:
        rec.true(np.isfinite(res).all(), what + " not finite")


TIME_FNS = ["u", "u[l]", "u[:k]", "v", "v[l]", "value", "deriv", "aug.u",
            "aug.u[l]", "aug.u.deriv", "vertex.u", "const", "linear", "mconst",
            "dlr.u", "aug v", "tau sampling", "aug sampling", "dlr sampling"]


@PROP.family(st.fixed_dictionaries({
    "b": BASIS, "fn": st.sampled_from(TIME_FNS), **POINT_ARGS}), quick=2600,
    cost=.3)
def times(case, rec):
    """Functions of imaginary time and real frequency"""
    fn = case["fn"]
    b = gen.basis(case["b"])
    beta, wmax, n = b.beta, b.wmax, b.size
    if fn in ("aug.u", "aug.u[l]", "aug.u.deriv", "const", "linear",
              "aug sampling") and b.statistics == "F":
        b = si.FiniteTempBasis("B", beta, wmax, case["b"]["eps"],
                               sve_result=b.sve_result)
    lo, hi = (-wmax, wmax) if fn[0] == "v" and fn[:3] not in (
        "val", "ver") else (0., beta)
    x = points_of(case, lo, hi)
    lead, finite = (n,), True
    if fn == "u":
        f = lambda: b.u(x)
    elif fn == "u[l]":
        f, lead = lambda: b.u[n // 2](x), ()
    elif fn == "u[:k]":
        f, lead = lambda: b.u[:(n + 1) // 2](x), ((n + 1) // 2,)
    elif fn == "v":
        f = lambda: b.v(x)
    elif fn == "v[l]":
        f, lead = lambda: b.v[n - 1](x), ()
    elif fn == "value":
        f, lead = lambda: b.u.value(n - 1, x), ()
    elif fn == "deriv":
        f = lambda: b.u.deriv(2)(x)
    elif fn == "aug.u":
        f = lambda: aug.AugmentedBasis(b, aug.TauConst, aug.TauLinear).u(x)
        lead = n + 2,
    elif fn == "aug.u[l]":
        f = lambda: aug.AugmentedBasis(b, aug.TauConst).u[int(case["up"])](x)
        lead = ()
    elif fn == "aug.u.deriv":
        f = lambda: aug.AugmentedBasis(b, aug.TauConst, aug.TauLinear
                                       ).u.deriv(1)(x)
        lead = n + 2,
    elif fn == "vertex.u":
        f = lambda: aug.AugmentedBasis(b, aug.MatsubaraConst).u(x)
        lead, finite = (n + 1,), False
    elif fn == "const":
        f, lead = lambda: aug.TauConst(beta)(x), ()
    elif fn == "linear":
        f, lead = lambda: aug.TauLinear(beta)(x), ()
    elif fn == "mconst":
        f, lead, finite = lambda: aug.MatsubaraConst(beta)(x), (), False
    elif fn == "dlr.u":
        if case["b"]["kind"] != "log":
            return
        d = si.dlr.DiscreteLehmannRepresentation(b)
        f, lead = lambda: d.u(x), (d.size,)
    elif fn == "aug v":
        x = points_of(case, -wmax, wmax)
        f = lambda: b.v[:1](x)
        lead = 1,
    else:
        if case["form"] in ("scalar", "zerodim", "2d"):
            rec.interesting()
            rec.raises(lambda: si.TauSampling(b, x), "points not a vector")
            return
        lead = None
        if fn == "tau sampling":
            f = lambda: si.TauSampling(b, x).matrix.a
        elif fn == "aug sampling":
            f = lambda: si.TauSampling(aug.AugmentedBasis(b, aug.TauConst),
                                       x).matrix.a
        else:
            f = lambda: si.TauSampling(b).evaluate(np.ones(n), points=x)
    verdict(rec, case, f, x, lead, fn, finite)
    rec.label(fn)


KERNELS = ["log", "bose", "log+", "log-", "bose+", "bose-", "reduced"]


@PROP.family(st.fixed_dictionaries({
    "k": st.sampled_from(KERNELS), "lam": gen.lam(.01, 1e5),
    "which": st.sampled_from("xy"), "other": st.floats(0, 1),
    "plus": st.booleans(), **POINT_ARGS}), quick=1600, cost=.1)
def kernels(case, rec):
    k = case["k"]
    kern = gen.kernel_of("bose" if "bose" in k else "log", case["lam"])
    if k[-1] in "+-":
        kern = kern.get_symmetrized(1 if k[-1] == "+" else -1)
    elif k == "reduced":
        kern = si.kernel.ReducedKernel(kern, 1)
    lo = -1. if k in ("log", "bose") else 0.
    rec.true(tuple(kern.xrange) == (lo, 1) == tuple(kern.yrange), "ranges")
    p = points_of(case, lo, 1.)
    o = lo + (1 - lo) * case["other"]
    x, y = (p, o) if case["which"] == "x" else (o, p)
    kw = {}
    if case["plus"] and case["bad"] is None:
        kw = {"x_plus": np.asarray(x) - lo, "x_minus": 1 - np.asarray(x)}
    verdict(rec, case, lambda: kern(x, y, **kw), p, (), k)
    rec.label(k)


# --------------------------------------------------------------------------

FREQ_FNS = ["uhat", "uhat[l]", "uhat[:k]", "any", "aug.uhat", "aug.uhat[0]",
            "vertex.uhat", "const.hat", "linear.hat", "mconst.hat", "dlr.uhat",
            "sampling", "points", "vertex sampling"]
FREQ_BAD = st.sampled_from([None, None, "parity", "parity", "frac", "tiny",
                            "nan", "inf", "complex"])


@PROP.family(st.fixed_dictionaries({
    "b": BASIS, "fn": st.sampled_from(FREQ_FNS), "bad": FREQ_BAD,
    "n": st.lists(st.one_of(st.integers(-20, 20), st.integers(-10**9, 10**9)),
                  min_size=1, max_size=6),
    "pos": st.integers(0, 5), "frac": st.floats(.01, .99).map(gen.cround),
    "form": st.sampled_from(["array", "int32", "list", "scalar", "float",
                             "2d"])}), quick=2600, cost=.3)
def frequencies(case, rec):
    fn, bad = case["fn"], case["bad"]
    b = gen.basis(case["b"])
    if fn in ("aug.uhat", "aug.uhat[0]") and b.statistics == "F":
        b = si.FiniteTempBasis("B", b.beta, b.wmax, case["b"]["eps"],
                               sve_result=b.sve_result)
    zeta = int(b.statistics == "F")
    if fn in ("const.hat", "linear.hat"):
        zeta = 0
    n = 2 * np.array(case["n"]) + zeta
    if fn in ("any", "mconst.hat"):
        n = np.array(case["n"])
        if bad == "parity":
            bad = None
    p = case["pos"] % n.size
    if bad == "parity":
        n[p] += 1
    elif bad is not None:
        n = n.astype(complex if bad == "complex" else float)
        n[p] = {"frac": n[p] + case["frac"], "tiny": n[p] + max(
                    1e-9, abs(n[p]) * 4e-16), "nan": np.nan, "inf": np.inf,
                "complex": n[p] + 1j}[bad]
    form = case["form"]
    if form == "int32" and n.dtype == int:
        if np.abs(n).max() < 2**31 - 1:
            n = n.astype(np.int32)
    elif form == "list":
        n = n.tolist()
    elif form == "scalar":
        n = n[p].item()
    elif form == "float" and n.dtype == int:
        n = n.astype(float)
    elif form == "2d":
        n = n.reshape(1, -1)
    lead = b.size,
    if fn == "uhat":
        f = lambda: b.uhat(n)
    elif fn == "uhat[l]":
        f, lead = lambda: b.uhat[b.size // 2](n), ()
    elif fn == "uhat[:k]":
        f, lead = lambda: b.uhat[:1](n), (1,)
    elif fn == "any":
        f = lambda: si.poly.PiecewiseLegendreFT(b.sve_result.u[:b.size], "any")(n)
    elif fn == "aug.uhat":
        f = lambda: aug.AugmentedBasis(b, aug.TauConst, aug.TauLinear).uhat(n)
        lead = b.size + 2,
    elif fn == "aug.uhat[0]":
        f = lambda: aug.AugmentedBasis(b, aug.TauLinear).uhat[0](n)
        lead = ()
    elif fn == "vertex.uhat":
        f = lambda: aug.AugmentedBasis(b, aug.MatsubaraConst).uhat(n)
        lead = b.size + 1,
    elif fn in ("const.hat", "linear.hat", "mconst.hat"):
        cls = {"c": aug.TauConst, "l": aug.TauLinear,
               "m": aug.MatsubaraConst}[fn[0]]
        f, lead = lambda: cls(b.beta).hat(n), ()
    elif fn == "dlr.uhat":
        if case["b"]["kind"] != "log":
            return
        d = si.dlr.DiscreteLehmannRepresentation(b)
        f, lead = lambda: d.uhat(n), (d.size,)
    else:
        lead = None
        if form in ("scalar", "2d"):
            rec.interesting()
            rec.raises(lambda: si.MatsubaraSampling(b, n), "not a vector")
            return
        if fn == "sampling":
            f = lambda: si.MatsubaraSampling(b, n).matrix.a
        elif fn == "points":
            smpl = si.MatsubaraSampling(b)
            f = lambda: smpl.evaluate(np.ones(b.size), points=n)
        else:
            f = lambda: si.MatsubaraSampling(
                aug.AugmentedBasis(b, aug.MatsubaraConst), n).matrix.a
    rec.label(fn)
    if bad is None:
        res = np.asarray(f())
        rec.interesting(np.size(n) > 1)
        if lead is not None:
            rec.true(res.shape == lead + np.shape(n), "shape of " + fn)
        rec.true(np.isfinite(res).all(), "not finite: " + fn)
    else:
        rec.label("rejected: " + bad)
        rec.interesting()
        rec.raises(f, "%s for %r" % (fn, n))


@PROP.family(st.fixed_dictionaries({
    "b": BASIS, "n": st.lists(st.integers(0, 400), min_size=1, max_size=8),
    "bad": st.sampled_from([None, "negative", "parity", "float"]),
    "pos": st.integers(0, 7), "via": st.booleans()}), quick=500, cost=.3)
def positive_only(case, rec):
    b = gen.basis(case["b"])
    zeta = int(b.statistics == "F")
    n = 2 * np.array(case["n"]) + zeta
    p = case["pos"] % n.size
    if case["bad"] == "negative":
        n[p] = -n[p] if n[p] else -2
    elif case["bad"] == "parity":
        n[p] += 1
    elif case["bad"] == "float":
        n = n.astype(float)
        n[p] += .25

    def make():
        if case["via"]:
            s = si.MatsubaraSampling(b, positive_only=True)
            return s.evaluate(np.ones(b.size), points=n)
        return si.MatsubaraSampling(b, n, positive_only=True).matrix.a
    if case["bad"] is None:
        rec.interesting(0 in n)
        rec.true(np.isfinite(make()).all(), "valid points")
        rec.true(len(make()) == n.size, "one row for each point")
    else:
        rec.interesting()
        rec.raises(make, "%s points %s" % (case["bad"], n))


# --------------------------------------------------------------------------

@st.composite
def construct_cfg(draw):
    c = {"b": draw(gen.basis_cfg(ext=0, lam_max=100.)),
         "entry": draw(st.sampled_from(["basis", "basis", "bases", "set",
                                        "rescale", "result"])),
         "arg": draw(st.sampled_from(["stat", "beta", "wmax", "kernel", "size"])),
         "mag": draw(st.floats(0, 9).map(gen.cround)),
         "valid": draw(st.booleans())}
    c["stat"] = draw(st.sampled_from(
        ["X", "f", "b", "", "FB", "BF", "fermion", None, 0, 1, -1, 1.5]))
    c["beta"] = draw(st.sampled_from([0, 0.0, -0.0, "nan", -1.0, "neg"]))
    c["size"] = draw(st.integers(-40, -1))
    return c


@PROP.family(construct_cfg(), quick=900, cost=.6)
def construct(case, rec):
    """Constructors of bases"""
    b0 = gen.basis(case["b"])
    b = case["b"]
    stat, beta, wmax, eps = b["stat"], b["beta"], b["wmax"], b["eps"]
    kern, size, entry = b0.kernel, None, case["entry"]
    d = 10.0**-case["mag"]
    neg = {"nan": np.nan, "neg": -beta}.get(case["beta"], case["beta"])
    valid = case["valid"]
    if entry == "rescale":
        if valid:
            b1 = b0.rescale(beta * (1 + d))
            rec.true(b1.beta == beta * (1 + d), "new beta")
        else:
            rec.interesting()
            rec.raises(lambda: b0.rescale(neg), "rescale to %s" % neg)
        return
    arg = case["arg"]
    if entry in ("bases", "set"):
        arg = "beta" if arg in ("stat", "kernel", "size") else arg
        if b["kind"] != "log":
            return
    if arg == "size":
        size = b0.size + int(case["mag"]) if valid else case["size"]
    elif not valid:
        if arg == "stat":
            stat = case["stat"]
        elif arg == "beta":
            beta = neg
        elif arg == "wmax":
            wmax = np.nan if neg != neg else -wmax * d
        elif arg == "kernel":
            sg = 1 if case["size"] % 2 else -1
            kern = gen.kernel_of(b["kind"], b0.lambda_ * (1 + sg * .9 * d))
    res = b0.sve_result
    make = {
        "basis": lambda: si.FiniteTempBasis(stat, beta, wmax, eps, kernel=kern,
                                            max_size=size),
        "result": lambda: si.FiniteTempBasis(
            stat, beta, wmax, eps, kernel=kern, sve_result=res, max_size=size),
        "bases": lambda: si.finite_temp_bases(beta, wmax, eps, sve_result=res),
        "set": lambda: si.FiniteTempBasisSet(beta, wmax, eps, sve_result=res)}
    rec.label("%s %s" % (entry, arg))
    if valid:
        r = make[entry]()
        rec.true((r[0] if entry == "bases" else r).beta == beta, "beta")
        rec.interesting()
    else:
        rec.interesting()
        rec.raises(make[entry], "%s(%r, %r, %r, max_size=%r, kernel Λ=%r)" % (
            entry, stat, beta, wmax, size, getattr(kern, "lambda_", None)))


@PROP.family(st.fixed_dictionaries({
    "b": gen.basis_cfg(ext=0, lam_max=300.), "aug": st.integers(0, 3),
    "on": st.sampled_from(["basis", "u", "uhat"]),
    "start": st.one_of(st.none(), st.just(0), st.integers(-6, 6)),
    "stop": st.one_of(st.none(), st.integers(-40, 60)),
    "step": st.one_of(st.none(), st.just(1), st.integers(-2, 3)),
    "single": st.booleans()}), quick=1200, cost=.3)
def slices(case, rec):
    """Truncation of bases"""
    b = gen.basis(case["b"])
    augs = [aug.TauConst, aug.TauLinear, aug.MatsubaraConst][:case["aug"]]
    if b.statistics == "F":
        augs = [aug.MatsubaraConst][:case["aug"]]
    if augs:
        b = aug.AugmentedBasis(b, *augs)
    elif case["on"] != "basis":
        return
    obj = {"basis": b, "u": b.u, "uhat": b.uhat}[case["on"]]
    start, stop, step = case["start"], case["stop"], case["step"]
    if case["single"] and case["on"] == "basis":
        rec.interesting()
        k = case["start"] or 0
        rec.raises(lambda: obj[k], "single element %d" % k)
        rec.raises(lambda: obj[k, ], "tuple")
        rec.raises(lambda: obj[[0, 1]], "list")
        return
    if start is not None and start + b.size == 0 or step == 0:
        return
    size = min(stop if stop >= 0 else max(b.size + stop, 0), b.size
               ) if stop is not None else b.size
    s = slice(start, stop, step)
    if (start or 0) != 0 or step not in (None, 1):
        rec.interesting()
        rec.raises(lambda: obj[s], "not a prefix: %s" % (s,))
    elif augs and size <= len(augs):
        rec.interesting()
        rec.raises(lambda: obj[s], "nothing but augmentation: %s" % (s,))
    elif size > 0:
        r = obj[s]
        rec.true(r.size == size, "%d instead of %d functions" % (r.size, size))
        rec.true(r.shape == (size,), "shape")
        rec.interesting(size == b.size)
    rec.label(case["on"])


# --------------------------------------------------------------------------

POLY = c15.poly_cfg([(), (1,), (4,), (2, 3)]).map(
    lambda c: {**c, "kind": "real"})


@PROP.family(st.fixed_dictionaries({
    "p": POLY, "seed": gen.SEED,
    "bad": st.sampled_from(["none", "short", "long", "unsorted", "nan data",
                            "nan knots", "symm", "dx shape", "dx short",
                            "dx value", "ndim", "2d knots"])}),
    quick=900, cost=.2)
def polynomials(case, rec):
    """Constructor of piecewise polynomials"""
    p = c15.build(case["p"])[0]
    r = gen.rng(case["seed"])
    P = si.poly.PiecewiseLegendrePoly
    data, knots, kw = p.data.copy(), p.knots.copy(), {}
    bad = case["bad"]
    nseg, func = data.shape[1], data.shape[2:]
    if bad == "none":
        q = P(data, knots)
        rec.true(q.shape == func and q.xmin == knots[0] and
                 q.xmax == knots[-1], "attributes")
        q = P(data, knots, dx=np.diff(knots), symm=np.ones(func))
        rec.true((q.symm == 1).all(), "parity")
        q = P(data.tolist(), knots.tolist())
        rec.true(q.polyorder == data.shape[0], "order")
        return
    rec.interesting()
    rec.label(bad)
    if bad == "short":
        knots = np.delete(knots, r.integers(knots.size))
    elif bad == "long":
        knots = np.hstack([knots, knots[-1] + 1])
    elif bad == "unsorted":
        i = r.integers(nseg)
        knots[[i, i + 1]] = knots[[i + 1, i]]
    elif bad == "nan data":
        data[tuple(r.integers(data.shape))] = np.nan
    elif bad == "nan knots":
        knots[r.integers(knots.size)] = np.nan
    elif bad == "symm":
        kw["symm"] = np.ones(func + (2,)) if func else np.ones(3)
        if func and r.integers(2):
            kw["symm"] = np.ones((func[0] + 1,) + func[1:])
    elif bad == "dx shape":
        kw["dx"] = np.diff(knots)[:, None] * np.ones(2)
    elif bad == "dx short":
        kw["dx"] = np.hstack([np.diff(knots), 1])[r.integers(2)*2:][:nseg + 1]
    elif bad == "dx value":
        kw["dx"] = np.diff(knots)
        kw["dx"][r.integers(nseg)] *= r.choice([2, -1, .5, 1.01, np.nan])
    elif bad == "ndim":
        data = data.reshape(-1)
    elif bad == "2d knots":
        knots = knots[:, None]
    rec.raises(lambda: P(data, knots, **kw), bad)


@PROP.family(st.fixed_dictionaries({
    "p": POLY, "seed": gen.SEED, **POINT_ARGS}), quick=1200, cost=.2)
def poly_points(case, rec):
    """Generic piecewise polynomials: evaluation and break points"""
    p = c15.build(case["p"])[0]
    lo, hi = float(p.xmin), float(p.xmax)
    if not hi - lo > 1e-6 * max(abs(lo), abs(hi)):
        return
    x = points_of(case, lo, hi)
    verdict(rec, case, lambda: p(x), x, p.shape, "poly")
    verdict(rec, case, lambda: p.deriv()(x), x, p.shape, "deriv")
    if case["form"] in ("array", "list"):
        verdict(rec, case, lambda: p.overlap(lambda t: t, rtol=1e-3, points=x),
                0., p.shape, "overlap")
    if p.ndim != 1:
        rec.raises(lambda: p.value(0, lo), "value() of ndim %d" % p.ndim)
    else:
        verdict(rec, case, lambda: p.value(p.size - 1, x), x, (), "value")
        rec.raises(lambda: p.value(p.size, lo), "value() beyond last function")
        rec.raises(lambda: p[p.size](lo), "index beyond last function")
    if p.ndim > 0:
        rec.raises(lambda: p.roots(), "roots of several functions")
    calls = [0]

    def ragged(t):
        calls[0] += 1
        return np.ones(1 + (calls[0] > 20))
    rec.raises(lambda: p.overlap(ragged), "function of changing shape")


@PROP.family(st.fixed_dictionaries({
    "b": BASIS, "what": st.sampled_from(
        ["interval", "freq", "part", "vector", "parity", "grid", "type"])}),
    quick=300, cost=.3)
def transforms(case, rec):
    """Fourier transforms, extrema and sign changes"""
    b = gen.basis(case["b"])
    FT, what = si.poly.PiecewiseLegendreFT, case["what"]
    rec.interesting()
    rec.label(what)
    u = b.sve_result.u[:b.size]
    if what == "interval":
        if b.beta == 1 or b.u.xmax == 1:
            return
        rec.raises(lambda: FT(b.u, "odd"), "interval")
    elif what == "freq":
        for q in "both", "ODD", None, 1, "":
            rec.raises(lambda: FT(u, q), "freq=%r" % (q,))
        for q in "odd", "even", "any":
            rec.true(FT(u, q).shape == u.shape, "valid freq")
    elif what == "part":
        f = b.uhat[b.size - 1]
        for q in "abs", 1, "Real", "":
            rec.raises(lambda: f.extrema(part=q), "part")
            rec.raises(lambda: f.sign_changes(part=q), "part")
        for q in "real", "imag":
            f.extrema(part=q, grid=np.arange(9))
            f.sign_changes(part=q, grid=np.arange(9))
    elif what == "vector":
        if b.size > 0:
            rec.raises(lambda: b.uhat.extrema(), "extrema of vector")
            rec.raises(lambda: b.uhat.sign_changes(), "sign changes of vector")
            rec.raises(lambda: b.uhat[:1].extrema(), "extrema of vector")
    elif what == "parity":
        q = si.poly.PiecewiseLegendrePoly(u.data[:, :, 0], u.knots)
        rec.raises(lambda: FT(q, "odd").extrema(), "parity not known")
        rec.raises(lambda: FT(q, "odd").sign_changes(), "parity not known")
        FT(q, "odd").extrema(part="real", grid=np.arange(9))
    elif what == "grid":
        rec.raises(lambda: si._roots.find_all(b.u[0], np.zeros((2, 2))), "grid")
        rec.raises(lambda: si._roots.find_all(b.u[0], np.array(.5)), "grid")
    elif what == "type":
        if b.size > 1:
            g = np.linspace(0, b.beta, 33)
            rec.raises(lambda: si._roots.find_all(b.u[1], g, type="x"), "type")


# --------------------------------------------------------------------------

@PROP.family(st.fixed_dictionaries({
    "m": st.integers(2, 6), "n": st.integers(2, 6), "seed": gen.SEED,
    "split": st.booleans(), "bad": st.sampled_from(
        ["none", "u cols", "u rows", "s short", "vh rows", "vh cols", "s 2d",
         "a 1d", "a 3d", "kind", "operand", "axis", "all short", "transposed",
         "other shape"])}),
    quick=900, cost=.1)
def matrices(case, rec):
    """Decompositions which do not belong to the matrix"""
    r = gen.rng(case["seed"])
    m, n, bad = case["m"], case["n"], case["bad"]
    split = case["split"]
    if split:
        a = r.normal(size=(m, n)) + 1j * r.normal(size=(m, n))
        ur, s, vh = np.linalg.svd(np.vstack([a.real, a.imag]),
                                  full_matrices=False)
        u = ur[:m] + 1j * ur[m:]
        cls = si.sampling.SplitDecomposedMatrix
    else:
        a = r.normal(size=(m, n))
        u, s, vh = np.linalg.svd(a, full_matrices=False)
        cls = si.sampling.DecomposedMatrix
    k = s.size
    good = cls(a, (u, s, vh))
    rec.label(bad)
    if bad == "none":
        x = r.normal(size=n)
        rec.close("matmul", np.abs(good @ x - a @ x), 1e-13)
        rec.close("lstsq", np.abs(good.a @ good.lstsq(a @ x) - a @ x),
                  1e-12 * good.cond * np.abs(a @ x).max())
        return
    rec.interesting()
    if bad == "operand":
        for d in 1, -1:
            rec.raises(lambda: good @ np.ones(n + d), "matmul")
            rec.raises(lambda: good.matmul(np.ones((n + d, 2)), 0), "matmul")
            rec.raises(lambda: good.matmul(np.ones((2, n + d)), 1), "matmul")
            rec.raises(lambda: good.lstsq(np.ones(m + d)), "lstsq")
            rec.raises(lambda: good.lstsq(np.ones((m + d, 2)), 0), "lstsq")
        return
    if bad == "axis":
        for d in 2, -3, 5:
            rec.raises(lambda: good.matmul(np.ones((n, n)), d), "axis")
            rec.raises(lambda: good.lstsq(np.ones((m, m)), d), "axis")
        return
    if bad == "transposed":
        if m == n:
            return
        u, vh = (vh.T, u.T) if not split else (vh.T + 0j, u.T.real)
    elif bad == "other shape":
        # consistent in itself, possibly with the same number of elements
        m2, n2 = [d for d in ((2 * m, -(-n // 2)), (-(-m // 2), 2 * n),
                              (n, m), (m + 1, n), (m, n + 1))
                  if d != (m, n)][int(r.integers(4)) % 3]
        k = min(m2, n2)
        u, s, vh = np.ones((m2, k)), np.ones(k), np.ones((k, n2))
        u = u + 0j if split else u
    elif bad == "u cols":
        u = u[:, :-1]
    elif bad == "u rows":
        u = u[:-1] if r.integers(2) else np.vstack([u, u[:1]])
    elif bad == "s short":
        s = s[:-1] if r.integers(2) else np.hstack([s, 0])
    elif bad == "vh rows":
        vh = vh[:-1]
    elif bad == "vh cols":
        vh = vh[:, :-1] if r.integers(2) else np.hstack([vh, vh[:, :1]])
    elif bad == "s 2d":
        s = np.diag(s)
    elif bad == "a 1d":
        a = a[0]
    elif bad == "a 3d":
        a = a[None]
    elif bad == "kind":
        if not split:
            rec.raises(lambda: cls(a, (u, s)), "not a triple")
            return
        if r.integers(2):
            vh = vh + 0j
        else:
            u = u.real
    elif bad == "all short":
        u, s, vh = u[:-1, :k - 1], s[:-1], vh[:k - 1]
    rec.raises(lambda: cls(a, (u, s, vh)), bad)
    if not split and bad in ("a 1d", "a 3d"):
        rec.raises(lambda: cls(a), bad)


@PROP.family(st.fixed_dictionaries({
    "kind": gen.KINDS, "lam": gen.lam(.1, 100.), "num": st.floats(0, 12),
    "bad": st.sampled_from(["n_sv", "n_sv frac", "cutoff", "cutoff big",
                            "cutoff nan", "svd_strat", "strategy", "symm",
                            "twice", "custom", "part", "weight", "hints"]),
    "valid": st.booleans()}), quick=700, cost=.4)
def solver(case, rec):
    """Options of the solver, kernels"""
    lam, bad, valid, t = case["lam"], case["bad"], case["valid"], case["num"]
    kern = gen.kernel_of(case["kind"], lam)
    sve = lambda **kw: si.compute_sve(kern, 1e-8, **kw)
    rec.interesting()
    rec.label(bad)
    if bad == "n_sv":
        if valid:
            k = 1 + int(t)
            rec.true(sve(n_sv=k).s.size <= k, "n_sv")
        else:
            rec.raises(lambda: sve(n_sv=-1 - int(t)), "negative n_sv")
    elif bad == "n_sv frac":
        rec.raises(lambda: sve(n_sv=int(t) + .5), "fractional n_sv")
    elif bad == "cutoff":
        if valid:
            rec.true(sve(cutoff=0).s.size > 0, "cutoff of zero")
            rec.true(sve(cutoff=10.0**-t).s.size >= 0, "cutoff")
            rec.true(sve(cutoff=1).s.size == 0, "cutoff of one")
        else:
            rec.raises(lambda: sve(cutoff=-10.0**-t), "negative cutoff")
            rec.raises(lambda: sve(cutoff=-5e-324), "negative cutoff")
    elif bad == "cutoff big":
        rec.raises(lambda: sve(cutoff=1 + 10.0**-t), "large cutoff")
        rec.raises(lambda: sve(cutoff=np.nextafter(1, 2)), "large cutoff")
    elif bad == "cutoff nan":
        rec.raises(lambda: sve(cutoff=np.nan), "cutoff")
    elif bad == "svd_strat":
        for q in "slow", "Fast", "", 1:
            rec.raises(lambda: sve(svd_strat=q), "strategy %r" % (q,))
    elif bad == "strategy":
        a = gen.rng(int(t * 1e3)).normal(size=(4, 3))
        for q in "x", None, "FAST":
            rec.raises(lambda: si.svd.compute(a, 2, q), "strategy %r" % (q,))
        for q in "fast", "default", "accurate":
            rec.true(len(si.svd.compute(a, 2, q)) == 3, q)
    elif bad == "symm":
        for q in 0, 2, -2, .5, np.nan:
            rec.raises(lambda: si.kernel.ReducedKernel(kern, q), "sign %s" % q)
    elif bad == "twice":
        for q in 1, -1:
            k = kern.get_symmetrized(q)
            rec.raises(lambda: k.get_symmetrized(1), "symmetrised twice")
            rec.raises(lambda: si.kernel.ReducedKernel(k, 1), "reduced twice")
    elif bad == "custom":
        c = {"form": "exp", "strength": 1., "symm": False, "xr": [-1., 2.],
             "yr": [0., 1.], "nseg": 4, "ngauss": 12}
        k = gen.CustomKernel(c)
        rec.raises(lambda: si.compute_sve(k, 1e-8,
                                          sve_strat=si.sve.CentrosymmSVE),
                   "kernel without symmetry")
        rec.raises(lambda: si.kernel.ReducedKernel(k, 1), "no symmetry")
    elif bad == "part":
        res = gen.sve({"kind": case["kind"], "lam": lam, "eps": 1e-8})
        rec.raises(lambda: res.part(max_size=-1 - int(t)), "negative max_size")
        rec.true(res.part(max_size=1)[1].size == 1, "max_size=1")
        rec.true(res.part(max_size=10**6)[1].size <= res.s.size, "max_size")
    elif bad == "weight":
        for q in "X", "f", "", "FB", "BF", None, 0:
            rec.raises(lambda: kern.weight_func(q), "weight function %r" % (q,))
        ok = "B" if case["kind"] == "bose" else "FB"
        for q in ok:
            rec.true(np.isfinite(kern.weight_func(q)(np.array([.25, .5]))).all(),
                     "weight function")
        if case["kind"] == "bose":
            rec.raises(lambda: kern.weight_func("F"), "bosonic kernel")
    elif bad == "hints":
        k = gen.CustomKernel({"form": "gauss", "strength": 1., "symm": True,
                              "xr": None, "yr": None, "nseg": 4, "ngauss": 10})
        h = k.sve_hints(1e-8)
        k.sve_hints = lambda eps: gen.CustomHints(
            np.hstack([-1, -.3, .5, .7, 1]), h.segments_y, 10, 40)
        rec.raises(lambda: si.compute_sve(k, 1e-8), "segments not symmetric")


@PROP.family(st.fixed_dictionaries({
    "b": gen.basis_cfg(ext=0, lam_max=300., lam_min=.5), "seed": gen.SEED,
    "what": st.sampled_from(["stat", "beta", "dlr kernel", "poles", "poles ok",
                             "operand", "split operand", "points", "default",
                             "factory", "adapter", "gauss", "join"]),
    "num": st.floats(1e-12, 3).map(gen.cround)}), quick=900, cost=.4)
def various(case, rec):
    """Augmentation, poles, sampling, quadrature, adapter"""
    b = gen.basis(case["b"])
    what, d = case["what"], case["num"]
    r = gen.rng(case["seed"])
    rec.interesting()
    rec.label(what)
    A = aug.AugmentedBasis
    fb = [si.FiniteTempBasis(s, b.beta, b.wmax, case["b"]["eps"],
                             sve_result=b.sve_result) for s in "FB"]
    DLR = si.dlr.DiscreteLehmannRepresentation
    if what == "stat":
        for t in aug.TauConst, aug.TauLinear:
            rec.raises(lambda: A(fb[0], t), "for fermions")
            rec.raises(lambda: A(fb[0], aug.MatsubaraConst, t), "for fermions")
            rec.raises(lambda: t.create(fb[0]), "for fermions")
            rec.true(A(fb[1], t).size == fb[1].size + 1, "for bosons")
        for q in fb:
            rec.true(A(q, aug.MatsubaraConst).size == q.size + 1, "vertex")
    elif what == "beta":
        for t in aug.TauConst, aug.TauLinear, aug.MatsubaraConst:
            for q in 0, 0.0, -d, -1, -np.inf:
                rec.raises(lambda: t(q), "beta = %s" % q)
            rec.true(t(d).hat(np.array([0])).shape == (1,), "valid beta")
    elif what == "dlr kernel":
        k = gen.kernel_of("bose", b.lambda_)
        q = si.FiniteTempBasis("B", b.beta, b.wmax, 1e-3, kernel=k)
        rec.raises(lambda: DLR(q), "regularised Bose kernel")
        rec.raises(lambda: DLR(q, [0.]), "regularised Bose kernel")
        rec.true(DLR(fb[0]).size > 0 and DLR(fb[1]).size > 0, "valid")
    elif what == "poles":
        w = r.uniform(-1, 1, 4) * b.wmax
        for q in (b.wmax * (1 + d), -b.wmax * (1 + d), np.nan, np.inf,
                  np.nextafter(b.wmax, np.inf)):
            w[r.integers(4)] = q
            rec.raises(lambda: DLR(fb[0], w), "pole at %s" % q)
            w = r.uniform(-1, 1, 4) * b.wmax
    elif what == "poles ok":
        w = np.array([-b.wmax, 0, b.wmax / 3, b.wmax])
        q = DLR(fb[r.integers(2)], w)
        rec.true(np.isfinite(q.u(b.beta / 3)).all(), "u")
        rec.true(np.isfinite(q.to_IR(np.ones(4))).all(), "coefficients")
    elif what in ("operand", "split operand"):
        q = fb[r.integers(2)]
        s = si.MatsubaraSampling(q, positive_only=what[0] == "s")
        t = si.TauSampling(q)
        for o in s, t:
            n, m = o.basis.size, o.sampling_points.size
            for e in -1, 1:
                if n + e and m + e:
                    rec.raises(lambda: o.evaluate(np.ones(n + e)), "evaluate")
                    rec.raises(lambda: o.fit(np.ones(m + e)), "fit")
                    rec.raises(lambda: o.evaluate(np.ones((2, n + e)), 1), "axis")
                    rec.raises(lambda: o.fit(np.ones((m + e, 2)), 0), "axis")
            rec.true(o.evaluate(np.ones(n)).shape == (m,), "evaluate")
            rec.true(o.fit(np.ones((2, m)), axis=-1).shape == (2, n), "fit")
            rec.raises(lambda: o.evaluate(np.ones((n, n)), axis=2), "axis")
            rec.raises(lambda: o.fit(np.ones((m, m)), axis=-3), "axis")
    elif what == "points":
        q = fb[0]
        rec.raises(lambda: si.TauSampling(q, b.beta / 2), "scalar")
        rec.raises(lambda: si.TauSampling(q, [[0., b.beta]]), "matrix")
        rec.raises(lambda: si.MatsubaraSampling(q, 1), "scalar")
        rec.raises(lambda: si.MatsubaraSampling(q, [[1, 3]]), "matrix")
        s = si.TauSampling(q)
        rec.raises(lambda: s.fit(np.ones(2), points=[0., b.beta * (1 + d)]),
                   "outside")
        rec.raises(lambda: s.evaluate(np.ones(q.size), points=[-b.beta * d]),
                   "outside")
        rec.true(si.TauSampling(q, [b.beta, 0.]).matrix.a.shape == (2, q.size),
                 "ends")
    elif what == "default":
        o = si.abstract.AbstractBasis()
        rec.raises(lambda: o.u, "abstract")
    elif what == "factory":
        rec.raises(lambda: A(fb[1], 1), "not an augmentation")
        rec.raises(lambda: A(fb[1], lambda t: t), "not an augmentation")
        rec.true(A(fb[1], aug.TauConst(b.beta)).size == fb[1].size + 1, "object")
        q = A(fb[1], aug.TauConst)
        rec.raises(lambda: q.u[q.size], "index of augmented function")
        rec.raises(lambda: q.uhat[-q.size - 1], "index of augmented function")
    elif what == "adapter":
        for q in "X", "f", None:
            rec.raises(lambda: si.adapter.load(q, 10.), "statistics")
        res = si.compute_sve(si.LogisticKernel(2.), 1e-8)
        o = si.adapter.Basis("F", 2., res)
        for x in 1 + d, -1 - d, np.nan:
            rec.raises(lambda: o.ulx(0, x), "x outside")
            rec.raises(lambda: o.vly(None, x), "y outside")
            rec.raises(lambda: o.d_ulx(0, x, 1), "x outside")
        rec.raises(lambda: o.ulx(o.dim(), 0.), "l")
        rec.raises(lambda: o.sampling_points_x(o.dim() + 5), "whichl")
        rec.raises(lambda: o.compute_unl([.5]), "n")
        rec.raises(lambda: si.adapter.Basis("X", 2., res), "statistics")
        rec.true(np.isfinite(o.ulx(0, 1.)) and np.isfinite(o.vly(0, -1.)), "ends")
    elif what == "gauss":
        g = si._gauss.legendre(4)
        e = np.sort(r.normal(size=5))
        rec.true(g.piecewise(e).x.size == 16, "valid")
        rec.raises(lambda: g.piecewise(e[::-1]), "descending")
        e[2] = e[1]
        rec.raises(lambda: g.piecewise(e), "equal")
        e[2] = np.nan
        rec.raises(lambda: g.piecewise(e), "nan")
    elif what == "join":
        g = si._gauss.legendre(3)
        p, q = g.reseat(0., 1.), g.reseat(1., 1 + d)
        rec.true(g.join(p, q).x.size == 6, "valid")
        rec.raises(lambda: g.join(q, p), "order")
        rec.raises(lambda: g.join(p, g.reseat(1 + d, 2 + d)), "gap")
        rec.raises(lambda: g.join(p, g.reseat(1 - d / 9, 2)), "overlapping")
