"""C13: augmented bases prepend their extra functions consistently"""
import warnings

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Property
from .c06 import noise

si = gen.si
aug = si.augment
PROP = Property(
    "C13",
    "Random bases and combinations of augmentations (given as classes or "
    "objects, also nested) against a reference list of functions: values, "
    "indices, slices, derivatives, metadata, sampling; Fourier pairs by "
    "quadrature; representation of propagators with the added terms. "
    "Non-trivial: at least one augmentation, at least 2 basis functions.",
    ["Fitting is claimed where the true condition number allows for it (the "
     "documentation warns that these bases tend to be ill-conditioned), and "
     "where the library does not warn about the number of default points."])

NAMES = {"c": "TauConst", "l": "TauLinear", "m": "MatsubaraConst"}


@st.composite
def aug_cfg(draw, **kw):
    cfg = draw(gen.basis_cfg(**kw))
    if cfg["stat"] == "B":
        names = draw(st.lists(st.sampled_from("clm"), max_size=3, unique=True))
    else:
        names = draw(st.lists(st.just("m"), max_size=1))
    return {"cfg": cfg, "names": "".join(names),
            "objects": draw(st.booleans()), "nested": draw(st.booleans())}


def build(c):
    b = gen.basis(c["cfg"])
    kinds = [getattr(aug, NAMES[n]) for n in c["names"]]
    if c["objects"]:
        kinds = [k(b.beta) for k in kinds]
    if c["nested"] and len(kinds) > 1:
        return b, aug.AugmentedBasis(aug.AugmentedBasis(b, *kinds[1:]),
                                     kinds[0])
    return b, aug.AugmentedBasis(b, *kinds)


def formula(name, beta, tau, n=0):
    """n-th derivative of augmentation"""
    tau = np.asarray(tau, float)
    if name == "m":
        return np.full(tau.shape, np.nan)
    if name == "c":
        return np.full(tau.shape, 1 / np.sqrt(beta) if n == 0 else 0.)
    if n == 0:
        return np.sqrt(3 / beta) * (2 * tau / beta - 1)
    return np.full(tau.shape, np.sqrt(3 / beta) * 2 / beta if n == 1 else 0.)


def hat_formula(name, beta, n):
    n = np.asarray(n)
    if name == "m":
        return np.ones(n.shape, complex)
    if name == "c":
        return np.where(n == 0, np.sqrt(beta), 0).astype(complex)
    w = np.pi * np.where(n == 0, 1, n) / beta
    return np.where(n == 0, 0, np.sqrt(3 / beta) * 2 / (1j * w))


def same(rec, what, got, want, tol=4e-15, scale=0):
    got, want = np.asarray(got), np.asarray(want)
    rec.true(got.shape == want.shape, lambda: "%s: shape %s instead of %s"
             % (what, got.shape, want.shape))
    rec.true(np.array_equal(np.isnan(got), np.isnan(want)), what + " nan")
    ok = ~np.isnan(want)
    rec.close(what, np.abs(got[ok] - want[ok]), tol * np.abs(want[ok])
              + tol * np.abs(want[ok]).max(initial=scale))


@PROP.family(aug_cfg(ext=.05, lam_max=3e3, big=3).flatmap(
    lambda a: st.fixed_dictionaries({
        "aug": st.just(a),
        "x": st.lists(gen.unit_points(), min_size=1, max_size=6),
        "k": st.lists(st.one_of(st.integers(-5, 5), st.integers(-10**5, 10**5)),
                      min_size=1, max_size=6),
        "form": st.sampled_from(["array", "list", "scalar", "2d", "int"]),
        "stop": st.one_of(st.none(), st.integers(0, 60)),
        "order": st.integers(0, 4), "seed": gen.SEED})), quick=1500)
def functions(case, rec):
    a = case["aug"]
    b, ab = build(a)
    names, beta = a["names"], b.beta
    na = len(names)
    z = {"F": 1, "B": 0}[b.statistics]
    rec.interesting(na >= 1 and b.size >= 2)
    rec.label(names or "none")
    # metadata
    rec.true(ab.size == na + b.size and ab.shape == (ab.size,), "size")
    rec.true(ab.u.size == ab.size and ab.u.shape == (ab.size,)
             and ab.uhat.size == ab.size and ab.uhat.shape == (ab.size,)
             and ab.u.ndim == 1 and ab.uhat.ndim == 1, "size of functions")
    rec.true(ab.statistics == b.statistics and ab.beta == beta
             and ab.wmax == b.wmax and ab.lambda_ == b.lambda_
             and ab.accuracy == b.accuracy, "metadata")
    same(rec, "significance", ab.significance,
         np.hstack([np.ones(na), b.significance]), 0)
    rec.true(ab.u.xmin == b.u.xmin and ab.u.xmax == b.u.xmax, "range")
    rec.true(ab.uhat.zeta == z, "zeta")
    rec.true(ab.is_well_conditioned == (names == "m"), "well-conditioned")

    # truncation
    size = ab.size
    if case["stop"] is not None:
        stop = case["stop"]
        if min(stop, size) <= na:
            rec.raises(lambda: ab[:stop], "truncation to augmentation")
            rec.raises(lambda: ab.u[:stop], "truncation to augmentation")
            rec.raises(lambda: ab.uhat[:stop], "truncation to augmentation")
            return
        su, suhat = ab.u[:stop], ab.uhat[:stop]
        ab = ab[:stop]
        size = min(stop, size)
        rec.true(ab.size == size, "size after slicing")
        rec.true(su.size == size and suhat.size == size, "slice functions")
        rec.true(isinstance(su, type(ab.u)) and su.xmax == b.u.xmax
                 and suhat.zeta == z, "slices keep their type")
        b = b[:size - na]
        rec.true(ab.accuracy == b.accuracy, "accuracy of slice")
        same(rec, "significance", ab.significance,
             np.hstack([np.ones(na), b.significance]), 0)
        rec.label("sliced")
    else:
        su, suhat = ab.u, ab.uhat

    # values
    tau = np.clip(np.array(case["x"]) * beta / 2 + beta / 2, 0, b.u.xmax)
    n = 2 * np.array(case["k"]) + z
    if case["form"] == "scalar":
        tau, n = float(tau[0]), int(n[0])
    elif case["form"] == "2d":
        tau, n = np.array([tau, tau[::-1]]), np.array([n, n[::-1]])
    elif case["form"] == "int":
        tau = np.arange(min(int(b.u.xmax), 5) + 1)
    targ, narg = tau, n
    if case["form"] == "list":
        targ, narg = tau.tolist(), n.tolist()
    want = np.concatenate([formula(c, beta, tau)[None] for c in names]
                          + [b.u(tau)])
    same(rec, "u", ab.u(targ), want)
    same(rec, "u slice", su(targ), want)
    wanthat = np.concatenate([hat_formula(c, beta, n)[None] for c in names]
                             + [b.uhat(n)])
    same(rec, "uhat", ab.uhat(narg), wanthat)
    same(rec, "uhat slice", suhat(narg), wanthat)
    uscale = np.nanmax(np.abs(want), initial=1 / np.sqrt(beta))
    # single functions
    rng = gen.rng(case["seed"])
    for l in {0, size - 1, -1, -size, int(rng.integers(-size, size)),
              na, na - 1}:
        if not -size <= l < size:
            continue
        same(rec, "u[%s]" % ("l" if l >= 0 else "-l"), ab.u[l](targ), want[l],
             scale=uscale)
        same(rec, "uhat[%s]" % ("l" if l >= 0 else "-l"), ab.uhat[l](narg),
             wanthat[l], scale=10 * np.abs(wanthat).max())
        same(rec, "u[l]", su[np.int64(l)](targ), want[l], scale=uscale)
    for bad in (size, -size - 1, size + 7):
        rec.raises(lambda: ab.u[bad](targ), "index")
        rec.raises(lambda: ab.uhat[bad](narg), "index")
    # derivatives
    k = case["order"]
    d = ab.u.deriv(k)
    want = np.concatenate([formula(c, beta, tau, k)[None] for c in names]
                          + [b.u.deriv(k)(tau)])
    same(rec, "derivative %d" % k, d(targ), want)
    if k == 1:
        same(rec, "default derivative", ab.u.deriv()(targ), want)
    rec.true(d.xmin == b.u.xmin and d.size == size, "derivative metadata")
    l = int(rng.integers(size))
    f = d[l]
    same(rec, "derivative[l]", f(np.asarray(targ)), want[l],
         scale=np.nanmax(np.abs(want), initial=0))


@PROP.family(st.fixed_dictionaries({
    "beta": gen.loguniform(1e-3, 1e5), "name": st.sampled_from("cl"),
    "k": st.lists(st.one_of(st.integers(-6, 6), st.integers(-200, 200)),
                  min_size=1, max_size=8)}), quick=500)
def fourier(case, rec):
    """Fourier transform by quadrature"""
    beta, name = case["beta"], case["name"]
    f = getattr(aug, NAMES[name])(beta)
    n = 2 * np.array(case["k"])
    e = np.linspace(0, beta, 2 * np.abs(n).max() // 8 + 3)
    t, w = ref.composite(e, 16)
    want = np.exp(1j * np.pi * n[:, None] * t / beta) @ (w * f(t))
    rec.close("fourier", np.abs(f.hat(n) - want), 1e-12 * np.sqrt(beta))
    rec.close("norm", np.abs(w @ f(t)**2 - 1), 1e-13)
    for i in range(n.size):
        rec.close("scalar", np.abs(f.hat(int(n[i])) - want[i]),
                  1e-12 * np.sqrt(beta))
    rec.raises(lambda: f.hat(n + 1), "odd frequency")
    rec.raises(lambda: f.hat(n + .5), "non-integer frequency")
    rec.raises(lambda: f([.5 * beta, 1.001 * beta]), "time beyond beta")
    rec.raises(lambda: f([.5 * beta, -.001 * beta]), "negative time")
    # derivatives are consistent with values
    d = f.deriv()(t)
    slope = (f(beta) - f(0)) / beta
    rec.close("slope", np.abs(d - slope), 1e-14 * beta**-1.5)
    rec.close("second derivative", np.abs(f.deriv(2)(t)), 0)
    rec.interesting(np.any(n != 0))


@PROP.family(aug_cfg(ext=.1, lam_max=3e3, big=3).flatmap(
    lambda a: st.fixed_dictionaries({
        "aug": st.just(a), "nchop": st.integers(0, 3),
        "pos": st.lists(gen.unit_points(), min_size=1, max_size=4),
        "positive": st.booleans(), "seed": gen.SEED})), quick=500)
def sampling(case, rec):
    """Sampling points, and representation of added terms"""
    a = case["aug"]
    b, ab = build(a)
    names, beta, stat = a["names"], b.beta, b.statistics
    if 0 < case["nchop"] < b.size:
        ab = ab[:-case["nchop"]]
        b = b[:-case["nchop"]]
    z = {"F": 1, "B": 0}[stat]
    rng = gen.rng(case["seed"])
    c = a["cfg"]
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        tau = ab.default_tau_sampling_points()
        wn = ab.default_matsubara_sampling_points()
        pos = ab.default_matsubara_sampling_points(positive_only=True)
    if caught:              # number of points not as requested, and says so
        rec.true(all("returned" in str(w.message) for w in caught)
                 , "warnings")
        rec.true(b.lambda_ < 5, "warning for ordinary cutoff")
        rec.label("too few sampling points")
        return
    rec.true(tau.size == ab.size and (np.diff(tau) > 0).all() and tau[0] > 0
             and tau[-1] < beta, "default times")
    rec.true(wn.size >= ab.size and (wn % 2 == z).all()
             and (np.diff(wn) > 0).all() and np.array_equal(wn, -wn[::-1])
             and (z == 1 or 0 in wn), "default frequencies")
    rec.true(np.array_equal(pos, wn[wn >= 0]), "positive frequencies")
    n = int(rng.integers(1, ab.size + 1))
    rec.true(np.array_equal(ab.default_tau_sampling_points(npoints=n),
                            b.default_tau_sampling_points(npoints=n)),
             "number of times")
    rec.true(np.array_equal(ab.default_matsubara_sampling_points(npoints=n),
                            b.default_matsubara_sampling_points(npoints=n)),
             "number of frequencies")

    # propagator
    om = np.clip(np.array(case["pos"]) * b.wmax, b.v.xmin, b.v.xmax)
    weight = rng.uniform(-1, 1, om.size) * (
        om if c["kind"] == "bose" else 1)
    add = dict(zip(names, rng.uniform(-1, 1, len(names))))
    gl = -b.s * (b.v(om) @ rng.uniform(-1, 1, om.size))
    full = np.hstack([[add[k] for k in names], gl])
    if "m" not in names:
        smpl = si.TauSampling(ab)
        g = formula_sum(add, beta, smpl.tau) + gl @ b.u(smpl.tau)
        scale = np.abs(g).max() + np.abs(full).max() * np.abs(
            ab.u(smpl.tau)).max()
        rec.close("tau evaluate", np.abs(smpl.evaluate(full) - g),
                  1e-13 * scale)
        back = smpl.fit(g)
        if smpl.cond < 1e14:
            rec.close("tau reproduced", np.abs(smpl.evaluate(back) - g),
                      1e-11 * scale)
        if smpl.cond < 1e8:
            rec.close("tau fit", np.abs(back - full),
                      1e-13 * smpl.cond * np.abs(full).max() * ab.size)
    smpl = si.MatsubaraSampling(ab, positive_only=case["positive"])
    iv = smpl.wn

    def exact(n):
        return sum((add[k] * hat_formula(k, beta, n) for k in names), 0j) \
            + gl @ b.uhat(n)
    g = exact(iv)
    scale = np.abs(full).max() * np.abs(ab.uhat(iv)).max() * ab.size
    rec.close("matsubara evaluate", np.abs(smpl.evaluate(full) - g),
              1e-13 * scale)
    back = smpl.fit(g)
    m = ab.uhat(iv).T
    if case["positive"]:
        m = np.vstack([m.real, m.imag])
    m = np.linalg.svd(m, compute_uv=False)
    cond = m[0] / max(m[-1], 1e-300) if m.size == ab.size else np.inf
    if cond < 1e14:
        rec.close("matsubara reproduced", np.abs(smpl.evaluate(back) - g),
                  1e-11 * scale)
    if cond < 1e8:
        rec.close("matsubara fit", np.abs(back - full),
                  1e-13 * cond * np.abs(full).max() * ab.size)
        rec.label("fitted")
    if names == "m":
        scale_m = max(np.abs(b.uhat(iv)).max(), 1 / np.abs(b.uhat(iv)).max())
        rec.close("vertex condition", smpl.cond,
                  (60 + 60 * np.sqrt(1 + b.lambda_)) * scale_m)
    rec.interesting(len(names) >= 1 and b.size >= 2)
    rec.label(names or "none")


def formula_sum(add, beta, tau):
    return sum((add[k] * formula(k, beta, tau) for k in add),
               np.zeros(tau.shape))


@PROP.family(aug_cfg(lam_max=100., ext=0), quick=200)
def rejects(case, rec):
    cfg = dict(case["cfg"])
    b = gen.basis(cfg)
    if cfg["stat"] == "F":
        rec.raises(lambda: aug.AugmentedBasis(b, aug.TauConst), "TauConst")
        rec.raises(lambda: aug.AugmentedBasis(b, aug.TauLinear), "TauLinear")
    ab = build(case)[1]
    z = {"F": 1, "B": 0}[cfg["stat"]]
    rec.raises(lambda: ab.u(1.01 * b.beta), "beyond")
    rec.raises(lambda: ab.u(-.01 * b.beta), "below")
    rec.raises(lambda: ab.uhat([z, z + 1]), "parity")
    rec.raises(lambda: ab[1:], "slice")
    rec.raises(lambda: ab[::2], "slice")
    rec.raises(lambda: ab[0], "slice")
    for k in (aug.TauConst, aug.TauLinear, aug.MatsubaraConst):
        rec.raises(lambda: k(0), "zero")
        rec.raises(lambda: k(-b.beta), "negative")
    rec.interesting()
