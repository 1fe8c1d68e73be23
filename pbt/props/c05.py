"""C05: uhat is the Fourier transform of u at every Matsubara frequency"""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Property

si = gen.si
PROP = Property(
    "C05",
    "Random bases and arbitrary piecewise polynomials; frequencies zero, "
    "small, large, of both signs and around the point where the asymptotic "
    "model takes over; compared with an own Fourier quadrature (400-point "
    "Gauss per piece where slow, integration by parts where fast). "
    "Non-trivial: at least three distinct magnitudes of frequencies, at least "
    "two pieces.",
    ["The reference is good to about 1e-13 of the norm; within the asymptotic "
     "model, jumps of the functions at the inner knots, of the order of "
     "rounding over the singular value, are not counted as part of u."])


def freqs(draw, z, edge):
    kinds = st.one_of(
        st.integers(0, 30), st.integers(0, 2000),
        gen.loguniform(10, 3e5).map(int),
        st.integers(-3, 3).map(lambda k: int(edge / 2) + k),
        st.integers(1, 3).map(lambda k: int(edge / 2) * k))
    m = draw(st.lists(kinds, min_size=3, max_size=10))
    sg = draw(st.lists(st.sampled_from([1, -1]), min_size=len(m),
                       max_size=len(m)))
    return [s * (2 * max(k, 0) + z) for s, k in zip(sg, m)]


@st.composite
def basis_case(draw):
    c = draw(gen.basis_cfg(ext=.25, lam_max=3e4, big=4))
    z = {"F": 1, "B": 0}[c["stat"]]
    return {"cfg": c, "n": freqs(draw, z, 40 * c["beta"] * c["wmax"])}


@PROP.family(basis_case(), quick=900)
def basis(case, rec):
    c = case["cfg"]
    b = gen.basis(c)
    n = np.array(case["n"])
    beta = c["beta"]
    lam = beta * c["wmax"]
    got = b.uhat(n)
    rec.true(got.shape == (b.size, n.size), "shape")
    # u(tau), mapped to [-1, 1]
    us = b.u
    t = us.knots / beta * 2
    co = ref.leg_coeffs(us, us.data.shape[0])
    inner = np.abs(n) < 40 * lam
    exact = ref.fourier(co, t, n, shift=0) * beta / 2
    scale = np.sqrt(beta)
    d = np.abs(got - exact)
    err = d / scale
    rel = b.s / b.s[0]
    jump = gen.func_tol(c, rel)[:, None] * (np.abs(us(us.xmax))
                                            * np.sqrt(beta))[:, None]
    rec.close("inner", err[:, inner], 3e-13 + 2e-17 * np.abs(n[inner]))
    far = 1 / np.maximum(1, np.abs(n[~inner]))
    rec.close("outer", err[:, ~inner],
              (3e-13 + 2e-17 * np.abs(n[~inner]) + jump * 20 * far))
    # relative accuracy
    tail = np.abs(n) > max(80 * lam, 800)
    if tail.any():
        ce = ref.data_coeffs(us)
        model = ref.fourier_ends(ce, us.dx / beta * 2, n[tail]) * beta / 2
        far = np.abs(n[tail])
        e = np.abs(got[:, tail] - model)
        # parity: l + zeta odd decays faster
        rec.close("relative tail", e, 1e-9 * np.abs(model)
                  + ref.fourier_ends_noise(ce, us.dx / beta * 2, n[tail])
                  * beta / 2)
        rec.label("tail")
    rec.close("conjugate", np.abs(b.uhat(-n) - got.conj()), 1e-15 * scale)
    if (n == 0).any():
        rec.label("zero frequency")
    rec.label("ext" if gen.is_ext(c) else "double")
    rec.interesting(np.unique(np.abs(n)).size >= 3)


@PROP.family(st.fixed_dictionaries({
    "kind": st.just("log"), "stat": st.sampled_from("FB"),
    "lam": st.one_of(gen.loguniform(10, 3e6), st.sampled_from([1e5, 1e6])),
    "eps": st.sampled_from([1e-6, 1e-8]), "beta": gen.loguniform(.1, 10),
    "frac": st.lists(st.floats(.7, 1.2), min_size=3, max_size=8)}),
    quick=250, cost=2)
def switch(case, rec):
    """Relative accuracy of leading functions where the model takes over"""
    stat, lam, beta = case["stat"], case["lam"], case["beta"]
    b = gen.basis({"stat": stat, "beta": beta, "wmax": lam / beta,
                   "eps": case["eps"], "kind": case["kind"]})
    n = 2 * (20 * lam * np.array(case["frac"])).astype(int)
    n = np.unique(n + {"F": 1, "B": 0}[stat])
    n = np.hstack([-n, n])
    few = (b.s > .05 * b.s[0]).sum()
    us = b.u
    co = ref.leg_coeffs(us, us.data.shape[0])[:, :, :few]
    want = ref.fourier_ends(co, np.diff(us.knots) / beta * 2, n) * beta / 2
    got = b.uhat(n)[:few]
    ends = (np.abs(us(0.0)) + np.abs(us(us.xmax)))[:few, None]
    scale = ends * beta / (np.pi * np.abs(n))
    rec.close("switch", np.abs(got - want) / scale,
              1e-12 * np.sqrt(max(lam, 100)))
    rec.label("lam>1e4" if lam > 1e4 else "lam<1e4")
    rec.interesting(n.size >= 6)


DATA = st.sampled_from(["random", "smooth", "sparse", "decay"])


@st.composite
def poly_case(draw):
    nseg = draw(st.integers(1, 7))
    w = draw(st.lists(gen.loguniform(1e-3, 1), min_size=nseg, max_size=nseg))
    order = draw(st.integers(1, 12))
    shape = draw(st.sampled_from([[], [1], [2], [5], [2, 3], [1, 2, 2]]))
    freq = draw(st.sampled_from(["even", "odd", "any"]))
    z = draw(st.integers(0, 1))
    z = {"even": 0, "odd": 1, "any": z}[freq]
    kind = draw(DATA)
    model = draw(st.booleans()) and len(shape) < 2 and freq != "any"
    return {"w": w, "order": order, "shape": shape, "freq": freq,
            "n": freqs(draw, z, 1000 * order), "kind": kind, "model": model,
            "seed": draw(gen.SEED)}


def make_poly(case):
    rng = gen.rng(case["seed"])
    knots = np.hstack([0, np.cumsum(case["w"])])
    knots = 2 * knots / knots[-1] - 1
    knots[-1] = 1
    order = case["order"]
    shape = (order, knots.size - 1) + tuple(case["shape"])
    if case["kind"] == "smooth" or case["model"]:
        # one polynomial, split in pieces
        coef = rng.normal(size=(order,) + shape[2:])
        x, w = ref.gauss(order + 1)
        h = np.diff(knots) / 2
        xs = knots[:-1, None] + h[:, None] * (1 + x)
        px = np.polynomial.legendre.legval(np.clip(xs, -1, 1), coef)
        van = np.polynomial.legendre.legvander(x, order - 1)
        van = van * w[:, None] * (np.arange(order) + .5)
        data = np.moveaxis(np.tensordot(px, van, (-1, 0)), (-1, -2), (0, 1))
        scale = np.sqrt(h / (np.arange(order)[:, None] * 0 + 1))
        data = data * scale.reshape(scale.shape + (1,) * len(case["shape"]))
    else:
        data = rng.normal(size=shape)
        if case["kind"] == "sparse":
            data *= rng.integers(0, 2, size=shape)
        elif case["kind"] == "decay":
            data *= .3**np.arange(order).reshape((-1,) + (1,) * (data.ndim - 1))
    return si.poly.PiecewiseLegendrePoly(data, knots)


@PROP.family(poly_case(), quick=1600, cost=.3)
def polynomials(case, rec):
    p = make_poly(case)
    n = np.array(case["n"])
    asymp = 1000 * case["order"] if case["model"] else None
    ft = si.poly.PiecewiseLegendreFT(p, case["freq"], n_asymp=asymp)
    got = ft(n) * np.sqrt(2)
    rec.true(got.shape == tuple(case["shape"]) + n.shape, "shape")
    co = ref.leg_coeffs(p, case["order"])
    want = ref.fourier(co, p.knots, n, shift=1)
    scale = np.abs(co).max() + 1e-300
    rec.close("transform", np.abs(got - want),
              scale * (1e-13 * case["order"] + 1e-16 * np.abs(n)))
    if case["model"]:
        far = np.abs(n) >= asymp
        rec.close("tail", np.abs(got - want)[..., far] * np.abs(n[far]),
                  scale * 1e-9)
        if far.any():
            rec.label("asymptotic model")
    rec.close("conjugate", np.abs(ft(-n) * np.sqrt(2) - got.conj()), 1e-14 * scale)
    if case["shape"]:
        idx = tuple(0 for _ in case["shape"])
        idx = idx[0] if len(idx) == 1 else idx
        rec.close("indexing", np.abs(ft[idx](n) * np.sqrt(2) - got[idx]), 1e-14 * scale)
    rec.interesting(len(case["w"]) >= 2 and np.unique(np.abs(n)).size >= 3)
    rec.label(case["freq"])


INDEX = st.one_of(
    st.fixed_dictionaries({"slice": st.tuples(*[
        st.one_of(st.none(), st.integers(-12, 12)) for _ in "ab"],
        st.sampled_from([None, 1, 2, 3, -1, -2]))}),
    st.fixed_dictionaries({"list": st.lists(st.integers(-20, 20), min_size=1,
                                            max_size=4)}),
    st.fixed_dictionaries({"mask": gen.SEED}))


def check_index(rec, b, index, n, got):
    """Any selection of functions transforms like these functions"""
    size = b.size
    if "slice" in index:
        start, stop, step = index["slice"]
        idx = slice(start, stop, step)
        if start == -size:
            return
    elif "list" in index:
        idx = [(i % (2 * size)) - size for i in index["list"]]
    else:
        idx = gen.rng(index["mask"]).integers(0, 2, size).astype(bool)
    want = got[idx]
    if want.size == 0:
        return
    sub = b.uhat[idx]
    rec.label("index " + next(iter(index)))
    other = sub(n)
    rec.true(other.shape == want.shape and sub.size == len(want), lambda:
             "shape for index %s" % index)
    tol = 1e-13 * np.abs(want) + 1e-14 * np.sqrt(b.beta) * (
        np.abs(n) < b.uhat.n_asymp)
    rec.close("index", np.abs(other - want), tol)
    same = sub[-1](n), sub[len(want) - 1](n)
    rec.close("index twice", np.abs(same - want[-1]), tol[-1])


@PROP.family(st.fixed_dictionaries({
    "cfg": gen.basis_cfg(ext=.05, lam_max=1e3),
    "huge": st.lists(st.integers(3, 60), min_size=1, max_size=6),
    "index": INDEX,
    "form": st.sampled_from(["list", "2d", "scalar", "float", "empty", "int8",
                             "int16", "int32", "uint8", "uint16", "uint32",
                             "uint64", "longdouble", "strided"])}),
    quick=700, cost=.5)
def forms(case, rec):
    """Arbitrarily large frequencies, and forms of the argument"""
    c = case["cfg"]
    b = gen.basis(c)
    z = {"F": 1, "B": 0}[c["stat"]]
    n = np.unique([2**k + z for k in case["huge"]])
    n = np.hstack([-n, n])
    big = np.abs(n) > 40 * max(10, b.lambda_)
    u0, u1 = b.u(0.0), b.u(b.u.xmax)
    lead = (-u0 + (1 if z == 0 else -1) * u1)[:, None] / (
        1j * np.pi * n / c["beta"])
    got = b.uhat(n)
    d1 = b.u.deriv()
    bound = (np.abs(d1(0.0)) + np.abs(d1(b.u.xmax)))[:, None] / (
        np.pi * np.abs(n) / c["beta"])**2
    err = np.abs(got - lead)[:, big]
    rec.close("leading order", err, 1.5 * bound[:, big]
              + 1e-12 * (np.abs(u0) + np.abs(u1))[:, None]
              * c["beta"] / np.abs(n[big]))
    check_index(rec, b, case["index"], n, got)
    small = np.array([z, 2 + z, -4 - z, 10 + z, 200 + z, -1000 - z])
    full = b.uhat(small)
    form = case["form"]
    rec.label(form)
    if form == "list":
        other = b.uhat(small.tolist())
    elif form == "2d":
        other = b.uhat(small.reshape(2, 3))
        rec.true(other.shape == (b.size, 2, 3), "shape for 2d argument")
        other = other.reshape(b.size, -1)
    elif form == "scalar":
        other = np.array([b.uhat(int(k)) for k in small])
        rec.true(other.shape == (small.size, b.size), "shape for scalar")
        other = other.T
        x = b.uhat[b.size - 1](int(small[1]))
        rec.true(np.shape(x) == (), "shape of scalar")
        rec.close("scalar", abs(x - full[-1, 1]), 1e-14 * np.sqrt(c["beta"]))
    elif form == "float":
        other = b.uhat(small.astype(float))
    elif "int" in form:
        t = np.dtype(form)
        ok = (small >= np.iinfo(t).min) & (small <= np.iinfo(t).max)
        if form == "int8":
            small = np.hstack([small, -128 + z])
            full, ok = b.uhat(small), np.hstack([ok, True])
        elif form == "int16":
            small = np.hstack([small, -2**15 + z])
            full, ok = b.uhat(small), np.hstack([ok, True])
        full = full[:, ok]
        other = b.uhat(small[ok].astype(t))
    elif form == "longdouble":
        other = b.uhat(small.astype(np.longdouble))
    elif form == "empty":
        rec.true(b.uhat(small[:0]).shape == (b.size, 0), "shape for empty")
        other = full
    else:
        a = np.zeros((6, 3), int)
        a[:, 1] = small
        other = b.uhat(a[:, 1])
    rec.close(form, np.abs(other - full), 1e-14 * np.sqrt(c["beta"]))
    rec.interesting(n.size >= 3)
