"""C12: discrete Lehmann representation agrees with the IR basis"""
import warnings

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Property
from .c06 import noise

si = gen.si
DLR = si.dlr.DiscreteLehmannRepresentation
PROP = Property(
    "C12",
    "Random bases of either statistics, default and user-chosen poles (any "
    "number, order, edges, zero, close pairs); random pole superpositions. "
    "DLR functions against pole formulas computed independently, conversions "
    "as round trip of the propagator, values in time and frequency against "
    "the IR expansion and the exact propagator. Non-trivial: at least two "
    "poles.",
    ["Logistic kernel, the only one the DLR supports.",
     "IR to DLR is compared for propagators, i.e. coefficients of a spectral "
     "function, as for others there is no accurate DLR."])

CFG = gen.basis_cfg(ext=.15, lam_max=1e4, kinds=st.just("log"), big=4)


@st.composite
def poles(draw, lo=1, hi=12):
    # leave out denormalised numbers
    pts = gen.unit_points().map(lambda x: 0.0 if abs(x) < 1e-250 else x)
    return draw(st.lists(pts, min_size=lo, max_size=hi, unique=True))


def freqs(stat):
    z = {"F": 1, "B": 0}[stat]
    return st.lists(st.one_of(st.integers(-10, 10), st.integers(-3000, 3000),
                              st.integers(-10**6, 10**6)),
                    min_size=1, max_size=8).map(
                        lambda v: [2 * k + z for k in v])


def tau_formula(beta, tau, om):
    """-K(tau, omega), computed stably"""
    return -ref.kernel_phys("log", beta, tau, om)


def freq_formula(stat, beta, n, om):
    iv = 1j * np.pi * n / beta
    if stat == "F":
        return 1 / (iv - om)
    w = np.tanh(.5 * beta * om)
    zero = (iv == 0) & (om == 0)
    return np.where(zero, -.5 * beta, w / np.where(zero, 1, iv - om))


@PROP.family(CFG.flatmap(lambda c: st.fixed_dictionaries({
    "cfg": st.just(c), "pos": st.one_of(st.none(), poles()),
    "tau": st.lists(gen.unit_points(), min_size=1, max_size=8),
    "n": freqs(c["stat"]), "as_list": st.booleans(),
    "trunc": st.one_of(st.none(), st.integers(1, 6))})), quick=700)
def functions(case, rec):
    """The functions are single poles"""
    c = case["cfg"]
    b = gen.basis(c)
    if case["trunc"] is not None and case["trunc"] < b.size:
        b = b[:case["trunc"]]
    beta, wmax, stat = b.beta, b.wmax, b.statistics
    if case["pos"] is None:
        om = b.default_omega_sampling_points()
        dlr = DLR(b)
    else:
        om = np.clip(np.array(case["pos"]) * wmax, b.v.xmin, b.v.xmax)
        dlr = DLR(b, om.tolist() if case["as_list"] else om)
    rec.true(np.array_equal(dlr.sampling_points, om), "poles")
    tau = np.clip(np.array(case["tau"]) * beta / 2 + beta / 2, 0, beta)
    ut = dlr.u(tau)
    want = tau_formula(beta, tau, om[:, None])
    lam = beta * wmax
    rec.true(ut.shape == want.shape, "shape in time")
    rec.close("tau", np.abs(ut - want), 3e-15 * (1 + lam) * np.abs(want)
              + 1e-300)
    n = np.array(case["n"])
    un = dlr.uhat(n)
    want = freq_formula(stat, beta, n, om[:, None])
    rec.true(un.shape == want.shape, "shape in frequency")
    rec.close("frequency", np.abs(un - want), 3e-15 * np.abs(want))
    rec.close("conjugate", np.abs(dlr.uhat(-n) - un.conj()),
              1e-15 * np.abs(un))
    # scalars
    rec.true(np.array_equal(dlr.u(tau[0]), ut[:, 0])
             and np.array_equal(dlr.uhat(int(n[0])), un[:, 0]), "scalar")
    # arrays of any shape, also without any points
    for shp in (-1, 1), (1, 1, -1), (0,), (2, 0):
        t2 = tau[:0].reshape(shp) if 0 in shp else tau.reshape(shp)
        n2 = n[:0].reshape(shp) if 0 in shp else n.reshape(shp)
        u2, h2 = dlr.u(t2), dlr.uhat(n2)
        rec.true(u2.shape == om.shape + t2.shape
                 and h2.shape == om.shape + n2.shape, "shapes of arrays")
        if t2.size:
            rec.close("array", np.abs(u2.reshape(ut.shape) - ut), 0)
            rec.close("array", np.abs(h2.reshape(un.shape) - un), 0)
    # edges of the time axis: G(0) + or - G(beta) is the sum rule
    edge = dlr.u(np.array([0, beta]))
    if stat == "F":
        rec.close("sum rule", np.abs(edge.sum(1) + 1), 1e-15 * (1 + lam))
    rec.close("sum rule", np.abs(edge[:, 1] - edge[:, 0]
                                 - np.tanh(.5 * beta * om)),
              3e-15 * (1 + lam))
    # metadata
    rec.true(dlr.basis is b and dlr.statistics == stat and dlr.beta == beta
             and dlr.wmax == wmax and dlr.lambda_ == b.lambda_
             and dlr.accuracy == b.accuracy, "metadata")
    rec.true(dlr.size == om.size and dlr.shape == (om.size,)
             and dlr.significance.shape == (om.size,)
             and not dlr.is_well_conditioned, "metadata")
    rec.true(np.array_equal(dlr.default_tau_sampling_points(),
                            b.default_tau_sampling_points()), "default times")
    npts = min(b.size, 1 + case["seed"] % 5) if "seed" in case else b.size
    rec.true(np.array_equal(dlr.default_tau_sampling_points(npoints=npts),
                            b.default_tau_sampling_points(npoints=npts)),
             "chosen number of default times")
    for kw in ({}, {"positive_only": True}, {"npoints": npts}):
        rec.true(np.array_equal(dlr.default_matsubara_sampling_points(**kw),
                                b.default_matsubara_sampling_points(**kw)),
                 "default frequencies")
    rec.interesting(om.size >= 2)
    rec.label("default poles" if case["pos"] is None else "chosen poles")
    rec.label("pole at zero" if (om == 0).any() else "no pole at zero")


@PROP.family(CFG.flatmap(lambda c: st.fixed_dictionaries({
    "cfg": st.just(c), "pos": poles(1, 6), "n": freqs(c["stat"]),
    "tau": st.lists(gen.unit_points(), min_size=1, max_size=8),
    "kind": st.sampled_from(["real", "complex", "complex", "tiny"]),
    "trunc": st.one_of(st.none(), st.none(), st.integers(2, 12)),
    "seed": gen.SEED})), quick=700)
def convert(case, rec):
    """IR to DLR and back; same propagator on both axes"""
    c = case["cfg"]
    b = gen.basis(c)
    if case["trunc"] is not None and case["trunc"] < b.size:
        b = b[:case["trunc"]]
        rec.label("truncated")
    beta, wmax, stat = b.beta, b.wmax, b.statistics
    rng = gen.rng(case["seed"])
    om = np.clip(np.array(case["pos"]) * wmax, b.v.xmin, b.v.xmax)
    a = rng.uniform(-1, 1, om.size)
    if case["kind"] == "complex":
        a = a + 1j * rng.uniform(-1, 1, om.size)
    elif case["kind"] == "tiny":
        a = a + 1j * 10.**rng.uniform(-60, -6) * rng.uniform(-1, 1, om.size)
    size = np.abs(a).sum()
    gl = -b.s * (b.v(om) @ a)

    # user-chosen poles: transform to IR is the formula
    own = DLR(b, om)
    rec.close("to_IR", np.abs(own.to_IR(a) - gl),
              1e-14 * b.s * np.abs(b.v(om)).max(1) * size)

    dlr = DLR(b)
    gd = dlr.from_IR(gl)
    rec.true(gd.shape == (dlr.size,)
             and np.iscomplexobj(gd) == np.iscomplexobj(gl), "type")
    rec.close("moderate coefficients", np.abs(gd).sum(),
              30 * np.sqrt(b.size) * size)
    # error of the kernel represented in this basis, at all relevant poles
    allom = np.hstack([om, dlr.sampling_points])
    allw = np.hstack([np.abs(a), np.abs(gd)])
    back = dlr.to_IR(gd)
    vmax = np.abs(b.v(allom)).max(1)
    # relative to what the terms are, even for the smallest coefficients
    rec.close("round trip", np.abs(back - gl),
              1e-11 * b.s * vmax * allw.sum())
    if np.iscomplexobj(gl):
        for part in np.real, np.imag:
            alone = dlr.from_IR(part(gl))
            rec.close("parts", np.abs(part(gd) - alone),
                      1e-10 * np.abs(alone).max())

    tau = np.clip(np.hstack([np.array(case["tau"]) * beta / 2 + beta / 2,
                             np.linspace(0, beta, 9)]), 0, b.u.xmax)
    full = b.sve_result
    y = np.clip(allom / wmax, -1, 1)
    x = np.clip(2 * tau / beta - 1, -1, 1)
    L = b.size
    d = np.abs(full.v(y)) @ allw
    umax = np.abs(full.u(np.hstack([x, np.linspace(-1, 1, 25)]))).max(1)
    tol = 1.1 * (full.s * umax * d)[L:].sum() + noise(c) * allw.sum()
    exact = tau_formula(beta, tau[:, None], om) @ a
    gt = gd @ dlr.u(tau)
    rec.close("time, exact", np.abs(gt - exact), tol)
    rec.close("time, IR", np.abs(gt - gl @ b.u(tau)), tol)
    n = np.array(case["n"])
    exact = freq_formula(stat, beta, n[:, None], om) @ a
    gn = gd @ dlr.uhat(n)
    tol = beta * (1.5 * (full.s * d)[L:].sum() + noise(c) * allw.sum())
    rec.close("frequency, exact", np.abs(gn - exact), tol)
    rec.close("frequency, IR", np.abs(gn - gl @ b.uhat(n)), tol)

    # sampling on the DLR
    with warnings.catch_warnings():
        warnings.simplefilter("error")
        ts, ms = si.TauSampling(dlr), si.MatsubaraSampling(dlr)
        ps = si.MatsubaraSampling(dlr, positive_only=True)
    rec.true(np.array_equal(ts.tau, b.default_tau_sampling_points())
             and np.array_equal(ms.wn, b.default_matsubara_sampling_points())
             and np.array_equal(ps.wn, ms.wn[ms.wn >= 0]), "sampling points")
    norm = np.abs(gd).sum()
    rec.close("sampling in time", np.abs(ts.evaluate(gd)
                                         - gd @ dlr.u(ts.tau)), 1e-14 * norm)
    rec.close("sampling in frequency", np.abs(
        ms.evaluate(gd) - gd @ dlr.uhat(ms.wn)), 1e-14 * norm * beta)

    # random DLR coefficients are a propagator: same after going through IR
    g2 = rng.normal(size=dlr.size)
    g3 = dlr.from_IR(dlr.to_IR(g2))
    w2 = np.abs(g2).sum() + np.abs(g3).sum()
    d = np.abs(full.v(np.clip(dlr.sampling_points / wmax, -1, 1))) @ (
        np.abs(g2) + np.abs(g3))
    tol = 1.1 * (full.s * umax * d)[L:].sum() + noise(c) * w2
    rec.close("DLR round trip", np.abs((g3 - g2) @ dlr.u(tau)), tol)
    rec.interesting(om.size >= 2)
    rec.label(stat + case["kind"])


@PROP.family(st.fixed_dictionaries({
    "cfg": gen.basis_cfg(ext=.05, lam_max=300., kinds=st.just("log")),
    "other": st.lists(st.integers(0, 4), min_size=1, max_size=3),
    "axis": st.one_of(st.none(), st.integers(-4, 3)),
    "op": st.sampled_from(["from_IR", "to_IR"]),
    "npoles": st.integers(0, 9), "seed": gen.SEED}), quick=600)
def axes(case, rec):
    b = gen.basis(case["cfg"])
    rng = gen.rng(case["seed"])
    k = case["npoles"]
    dlr = DLR(b, np.sort(rng.uniform(b.v.xmin, b.v.xmax, k))) if k else DLR(b)
    f = getattr(dlr, case["op"])
    n, nout = ((b.size, dlr.size) if case["op"] == "from_IR"
               else (dlr.size, b.size))
    ndim = len(case["other"]) + 1
    ax = 0 if case["axis"] is None else case["axis"] % ndim
    shape = list(case["other"])
    shape.insert(ax, n)
    x = rng.normal(size=shape) + 1j * rng.normal(size=shape)
    if case["op"] == "from_IR":
        x = np.moveaxis(np.moveaxis(x, ax, -1) * b.s, -1, ax)
    kw = {} if case["axis"] is None else {"axis": case["axis"] % ndim
                                          - ndim * (case["axis"] < 0)}
    before = x.copy()
    y = f(x, **kw)
    rec.true(np.array_equal(x, before), "argument modified")
    shape[ax] = nout
    rec.true(y.shape == tuple(shape), lambda: "shape %s" % (y.shape,))
    xs = np.moveaxis(x, ax, -1).reshape(-1, n)
    ys = np.moveaxis(y, ax, -1).reshape(-1, nout)
    for i in rng.permutation(len(xs))[:4]:
        one = f(xs[i])
        rec.close("slice", np.abs(ys[i] - one), 1e-9 * np.abs(one).max())
        if case["op"] == "to_IR":
            want = -b.s * (b.v(dlr.sampling_points) @ xs[i])
            rec.close("formula", np.abs(one - want), 1e-13 * b.s
                      * np.abs(b.v(dlr.sampling_points)).max(1)
                      * np.abs(xs[i]).sum())
    rec.interesting(ndim > 1 and dlr.size > 1)


@PROP.family(CFG.flatmap(lambda c: st.fixed_dictionaries({
    "cfg": st.just(c), "fault": st.sampled_from(
        ["low", "high", "parity", "float", "kernel", "shape", "pole"]),
    "excess": gen.loguniform(1e-10, 10)})), quick=300)
def rejects(case, rec):
    c = case["cfg"]
    b = gen.basis(c)
    dlr = DLR(b)
    z = {"F": 1, "B": 0}[b.statistics]
    e = case["excess"]
    f = case["fault"]
    if f == "kernel":
        bb = gen.basis(dict(c, stat="B", kind="bose", eps=1e-4))
        rec.raises(lambda: DLR(bb), "regularised kernel")
    else:
        rec.raises({
            "low": lambda: dlr.u([.1 * b.beta, -e * b.beta]),
            "high": lambda: dlr.u([.1 * b.beta, (1 + e) * b.beta]),
            "parity": lambda: dlr.uhat([z, 4 + z, 1 - z]),
            "float": lambda: dlr.uhat([z, z + min(.5, e)]),
            "shape": lambda: dlr.from_IR(np.ones(b.size + 1)),
            "pole": lambda: DLR(b, [0., -(1 + e) * b.wmax])}[f], f)
    rec.interesting()
    rec.label(f)
