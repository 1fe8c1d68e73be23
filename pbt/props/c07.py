"""C07: imaginary-time sampling round-trips, default points are usable"""
import warnings

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Property

si = gen.si
PROP = Property(
    "C07",
    "Random bases (also truncated ones), default, custom and per-call "
    "sampling points, random coefficients; compared with explicit matrix "
    "products and numpy's SVD. Default points checked for number, order, "
    "symmetry and condition number for every requested number of points. "
    "Non-trivial: at least 4 basis functions.",
    ["Fits are compared if the true condition number is below 1e8."])


def coeffs(rng, kind, b, extra=()):
    gl = rng.normal(size=(b.size,) + extra)
    if kind != "real":
        gl = gl + 1j * rng.normal(size=gl.shape)
    if kind == "decay":
        gl *= b.significance.reshape((-1,) + (1,) * len(extra))
    return gl


def check_smpl(rec, smpl, a, gl, name, points=None):
    """Round trip, given the independently computed matrix a"""
    s = np.linalg.svd(a, compute_uv=False)
    cond = s[0] / s[-1] if a.shape[0] >= a.shape[1] else np.inf
    kw = {} if points is None else {"points": points}
    norm = np.abs(gl).max()
    g = smpl.evaluate(gl, **kw)
    rec.true(g.shape == a.shape[:1] + gl.shape[1:], name + " shape")
    scale = np.abs(a).max() * norm * a.shape[1]
    want = a @ gl
    rec.close(name + " evaluate", np.abs(g - want), 1e-14 * scale)
    # any dimension of larger arrays
    axis = (gl.shape[0] + a.shape[0]) % 6
    more = np.multiply.outer(np.hstack([1., .5, -1.]), [1., -2.])
    more = np.moveaxis(np.multiply.outer(gl.reshape(len(gl), -1)[:, 0], more),
                       0, axis % 3)
    dim = axis % 3 - 3 * (axis > 2)
    g3 = smpl.evaluate(more, dim, **kw)
    want3 = np.moveaxis(np.tensordot(a, more, (1, axis % 3)), 0, axis % 3)
    rec.true(g3.shape == want3.shape, lambda: "%s shape for axis %d" % (
        name, dim))
    rec.close(name + " evaluate axis", np.abs(g3 - want3), 2e-14 * scale)
    if cond > 1e8:
        rec.label("ill-conditioned")
        return cond
    back = smpl.fit(want3, dim, **kw)
    rec.true(back.shape == more.shape, lambda: "%s shape of fit for axis %d"
             % (name, dim))
    rec.close(name + " round trip axis", np.abs(back - more),
              2e-14 * cond * norm * a.shape[1])
    back = smpl.fit(want, **kw)
    rec.true(back.shape == gl.shape, name + " shape of fit")
    rec.close(name + " round trip", np.abs(back - gl),
              1e-14 * cond * norm * a.shape[1])
    if points is None:
        rec.close(name + " cond", abs(smpl.cond / cond - 1),
                  1e-12 * cond + 1e-12)
    # fits beyond the range: least squares
    rng = gen.rng(7)
    y = want + scale * rng.normal(size=want.shape)
    back = smpl.fit(y, **kw)
    best = np.linalg.lstsq(a, y, rcond=None)[0]
    rec.close(name + " least squares", np.abs(back - best),
              1e-14 * cond**2 * np.abs(y).max() / s[0] * a.shape[0])
    return cond


def check_cond(rec, b, n, cond):
    """Condition number of n default sampling points"""
    bound = 5 * np.sqrt(1 + b.lambda_)
    if (isinstance(b.kernel, si.RegularizedBoseKernel) and n % 2
            and b.lambda_ > 20 and b.significance[n - 1] > 1e-5
            and cond > bound):
        rec.known("regbose-tau-cond", "cond=%g" % cond)
        return
    rec.close("condition", cond, bound)


KIND = st.sampled_from(["real", "complex", "decay"])


@PROP.family(st.fixed_dictionaries({
    "cfg": gen.basis_cfg(ext=.2, huge=True, lam_max=1e5, lam_min=.02, big=4),
    "size": st.one_of(st.none(), st.integers(1, 40)),
    "kind": KIND, "ncol": st.integers(0, 2), "seed": gen.SEED}),
    quick=900)
def default(case, rec):
    b = gen.basis(case["cfg"])
    if case["size"] is not None and case["size"] < b.size:
        b = b[:case["size"]]
        rec.label("truncated")
    beta = b.beta
    tau = b.default_tau_sampling_points()
    smpl = si.TauSampling(b)
    rec.true(np.array_equal(tau, smpl.sampling_points)
             and np.array_equal(tau, smpl.tau), "sampling points")
    rec.true(smpl.basis is b, "basis")
    check_points(rec, b, tau, b.size)
    a = b.u(tau).T
    rng = gen.rng(case["seed"])
    gl = coeffs(rng, case["kind"], b, (2,) * case["ncol"])[:, ...]
    if case["ncol"] == 2:
        gl = gl[:, :, 0]
    cond = check_smpl(rec, smpl, a, gl, "default")
    check_cond(rec, b, b.size, cond)
    other = np.unique(rng.uniform(0, 1, 2 * b.size) * beta)
    other = other[other <= b.u.xmax]
    check_smpl(rec, smpl, b.u(other).T, gl, "per call", other)
    rec.interesting(b.size >= 4)


def check_points(rec, b, tau, n):
    beta = b.beta
    rec.true(tau.shape == (n,), lambda: "%d points instead of %d" % (
        tau.size, n))
    rec.true((np.diff(tau) > 0).all(), "points not strictly increasing")
    rec.true(0 < tau[0] and tau[-1] < beta, "points not in (0, beta)")
    rec.close("symmetry", np.abs(tau + tau[::-1] - beta), 4e-12 * beta)


@PROP.family(st.fixed_dictionaries({
    "cfg": gen.basis_cfg(ext=.2, huge=True, lam_max=1e5, lam_min=.02, big=4),
    "frac": st.lists(st.floats(0, 1), min_size=1, max_size=3)}), quick=700)
def npoints(case, rec):
    """Any number of points up to the size of the basis"""
    b = gen.basis(case["cfg"])
    for f in case["frac"]:
        n = 1 + int(f * (b.size - 1) + .5)
        tau = b.default_tau_sampling_points(npoints=n)
        check_points(rec, b, tau, n)
        with warnings.catch_warnings():
            warnings.simplefilter("error")
            again = b.default_tau_sampling_points(npoints=n)
        rec.true(np.array_equal(tau, again), "reproducible")
        s = np.linalg.svd(b.u[:n](tau), compute_uv=False)
        check_cond(rec, b, n, s[0] / s[-1])
        om = b.default_omega_sampling_points(npoints=n)
        rec.true(om.shape == (n,) and (np.diff(om) > 0).all()
                 and np.abs(om).max() < b.wmax, "real frequencies")
        rec.close("omega symmetry", np.abs(om + om[::-1]), 4e-12 * b.wmax)
    rec.interesting(b.size >= 4)


@PROP.family(st.fixed_dictionaries(
    {**gen.EXHAUSTED, "kind": KIND, "seed": gen.SEED}), quick=300)
def exhausted(case, rec):
    """Expansions without functions beyond those of the basis"""
    b = gen.exhausted_basis(case)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        tau = b.default_tau_sampling_points()
        smpl = si.TauSampling(b)
    rec.true(np.array_equal(tau, smpl.tau), "sampling points")
    # points are made from extrema then, two of which are close to the ends
    # for large cutoffs and do not come from a change of sign
    check_points(rec, b, tau, b.size if tau.size == b.size or b.size % 2 == 0
                 or b.size < 3 or b.lambda_ < 10 else b.size + 2)
    rng = gen.rng(case["seed"])
    cond = check_smpl(rec, smpl, b.u(tau).T, coeffs(rng, case["kind"], b),
                      "default")
    rec.close("condition", cond, 5 * np.sqrt(1 + b.lambda_))
    rec.label("%d functions" % b.size if b.size < 4 else "more functions")
    rec.interesting(tau.size >= 1)


@PROP.family(st.fixed_dictionaries({
    "cfg": gen.basis_cfg(ext=.1, lam_max=3e3),
    "size": st.one_of(st.none(), st.integers(1, 12)),
    "pts": st.lists(gen.unit_points(), min_size=1, max_size=10),
    "grid": st.integers(0, 120), "order": st.sampled_from(
        ["ascending", "descending", "shuffled"]),
    "as_list": st.booleans(), "kind": KIND, "seed": gen.SEED}), quick=900)
def custom(case, rec):
    b = gen.basis(case["cfg"])
    if case["size"] is not None and case["size"] < b.size:
        b = b[:case["size"]]
    rng = gen.rng(case["seed"])
    x = np.hstack([case["pts"], np.cos(np.pi * (np.arange(case["grid"]) + .5)
                                       / max(case["grid"], 1))])
    tau = np.clip(.5 * b.beta * (1 + np.sort(x)), 0, b.u.xmax)
    if case["order"] == "descending":
        tau = tau[::-1]
    elif case["order"] == "shuffled":
        tau = rng.permutation(tau)
    gl = coeffs(rng, case["kind"], b)
    pts = tau.tolist() if case["as_list"] else tau
    smpl = si.TauSampling(b, pts)
    rec.true(np.array_equal(smpl.sampling_points, tau), "points kept")
    a = b.u(np.array(tau)).T
    check_smpl(rec, smpl, a, gl, "custom")
    dflt = si.TauSampling(b)
    check_smpl(rec, dflt, a, gl, "custom per call", pts)
    # and the object itself is left alone
    ref_ = b.u(dflt.tau).T @ gl
    rec.close("unaffected", np.abs(dflt.evaluate(gl) - ref_),
              1e-13 * np.abs(a).max() * np.abs(gl).max() * b.size)
    rec.interesting(b.size >= 4)
    rec.label("underdetermined" if tau.size < b.size else "overdetermined")
