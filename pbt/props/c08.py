"""C08: Matsubara sampling round-trips, also on non-negative frequencies"""
import warnings

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Property
from .c07 import check_smpl, coeffs, KIND

si = gen.si
PROP = Property(
    "C08",
    "Random bases (also truncated), default, custom and per-call "
    "frequencies in any order, full and positive-only; compared with explicit "
    "matrices, own real-valued stacked problem and numpy. Default frequencies "
    "checked for number, parity, order, symmetry and condition number. "
    "Non-trivial: at least 4 basis functions.",
    ["Fits are compared if the true condition number is below 1e8."])


def stacked(a):
    return np.vstack([a.real, a.imag])


def check_pos(rec, smpl, b, wn, rng, name, points=None):
    """Positive-only sampling against the real stacked problem"""
    kw = {} if points is None else {"points": points}
    a = b.uhat(wn.astype(int)).T
    gl = rng.normal(size=b.size)
    r = stacked(a)
    s = np.linalg.svd(r, compute_uv=False)
    cond = s[0] / s[-1] if r.shape[0] >= r.shape[1] else np.inf
    g = smpl.evaluate(gl, **kw)
    scale = np.abs(a).max() * np.abs(gl).max() * b.size
    rec.close(name + " evaluate", np.abs(g - a @ gl), 1e-14 * scale)
    if cond > 1e8:
        rec.label("ill-conditioned")
        return cond
    back = smpl.fit(a @ gl, **kw)
    rec.true(back.shape == gl.shape and back.dtype == float, name + " shape")
    rec.close(name + " round trip", np.abs(back - gl),
              1e-14 * cond * np.abs(gl).max() * b.size)
    if points is None:
        rec.close(name + " cond", abs(smpl.cond / cond - 1),
                  1e-12 * cond + 1e-12)
    y = a @ gl + scale * (rng.normal(size=a.shape[0])
                          + 1j * rng.normal(size=a.shape[0]))
    best = np.linalg.lstsq(r, np.hstack([y.real, y.imag]), rcond=None)[0]
    rec.close(name + " least squares", np.abs(smpl.fit(y, **kw) - best),
              1e-14 * cond**2 * np.abs(y).max() / s[0] * r.shape[0])
    return cond


def check_freqs(rec, b, wn, n, positive):
    z = {"F": 1, "B": 0}[b.statistics]
    rec.true(np.issubdtype(wn.dtype, np.integer), "integers")
    rec.true((wn % 2 == z).all(), "parity of frequencies")
    rec.true((np.diff(wn) > 0).all(), "ascending, unique")
    if positive:
        rec.true((wn >= 0).all(), "non-negative")
        full = np.unique(np.hstack([-wn, wn]))
    else:
        full = wn
        rec.true(np.array_equal(wn, -wn[::-1]), "symmetric")
    rec.true(full.size >= n, lambda: "%d frequencies for %d functions"
             % (full.size, n))
    rec.true(full.size <= n + 2, lambda: "%d frequencies for %d functions"
             % (full.size, n))
    if z == 0:
        rec.true((wn == 0).any(), "zero frequency for bosons")


@PROP.family(st.fixed_dictionaries({
    "cfg": gen.basis_cfg(ext=.2, huge=True, lam_max=1e5, lam_min=.02, big=4),
    "size": st.one_of(st.none(), st.integers(1, 40)),
    "kind": KIND, "seed": gen.SEED}), quick=700)
def default(case, rec):
    b = gen.basis(case["cfg"])
    if case["size"] is not None and case["size"] < b.size:
        b = b[:case["size"]]
        rec.label("truncated")
    rng = gen.rng(case["seed"])
    wn = b.default_matsubara_sampling_points()
    smpl = si.MatsubaraSampling(b)
    rec.true(np.array_equal(wn, smpl.sampling_points)
             and np.array_equal(wn, smpl.wn), "sampling points")
    rec.true(smpl.basis is b and not smpl.positive_only, "attributes")
    check_freqs(rec, b, wn, b.size, False)
    gl = coeffs(rng, case["kind"], b)
    cond = check_smpl(rec, smpl, b.uhat(wn).T, gl, "default")
    rec.close("condition", cond, 10 + 5 * np.sqrt(1 + b.lambda_))

    pos = b.default_matsubara_sampling_points(positive_only=True)
    psmpl = si.MatsubaraSampling(b, positive_only=True)
    rec.true(np.array_equal(pos, psmpl.sampling_points), "positive points")
    rec.true(np.array_equal(pos, wn[wn >= 0]), "positive are half of all")
    check_freqs(rec, b, pos, b.size, True)
    pcond = check_pos(rec, psmpl, b, pos, rng, "positive")
    rec.close("positive condition", pcond, 10 + 5 * np.sqrt(1 + b.lambda_))

    # agrees with the full problem
    gl = gl.real
    full = smpl.fit(smpl.evaluate(gl))
    half = psmpl.fit(smpl.evaluate(gl)[wn >= 0])
    rec.close("agreement", np.abs(full - half),
              1e-14 * (cond + pcond) * b.size * np.abs(gl).max())
    rec.interesting(b.size >= 4)
    rec.label(b.statistics)


@PROP.family(st.fixed_dictionaries({
    "cfg": gen.basis_cfg(ext=.2, huge=True, lam_max=1e5, lam_min=.02, big=4),
    "frac": st.lists(st.floats(0, 1), min_size=1, max_size=3)}), quick=500)
def npoints(case, rec):
    b = gen.basis(case["cfg"])
    for f in case["frac"]:
        n = 1 + int(f * (b.size - 1) + .5)
        wn = b.default_matsubara_sampling_points(npoints=n)
        check_freqs(rec, b, wn, n, False)
        pos = b.default_matsubara_sampling_points(npoints=n,
                                                  positive_only=True)
        check_freqs(rec, b, pos, n, True)
        rec.true(np.array_equal(pos, wn[wn >= 0]), "positive are half of all")
        with warnings.catch_warnings():
            warnings.simplefilter("error")
            again = b.default_matsubara_sampling_points(npoints=n)
        rec.true(np.array_equal(wn, again), "reproducible")
        s = np.linalg.svd(b.uhat[:n](wn), compute_uv=False)
        rec.close("condition", s[0] / s[-1], 10 + 5 * np.sqrt(1 + b.lambda_))
    rec.interesting(b.size >= 4)


@PROP.family(st.fixed_dictionaries(
    {**gen.EXHAUSTED, "kind": KIND, "seed": gen.SEED}), quick=300)
def exhausted(case, rec):
    """Expansions without functions beyond those of the basis"""
    b = gen.exhausted_basis(case)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        wn = b.default_matsubara_sampling_points()
        pos = b.default_matsubara_sampling_points(positive_only=True)
        smpl = si.MatsubaraSampling(b)
        psmpl = si.MatsubaraSampling(b, positive_only=True)
    rec.true(np.array_equal(wn, smpl.wn) and np.array_equal(pos, psmpl.wn),
             "sampling points")
    check_freqs(rec, b, wn, b.size, False)
    check_freqs(rec, b, pos, b.size, True)
    rec.true(np.array_equal(pos, wn[wn >= 0]), "positive are half of all")
    rng = gen.rng(case["seed"])
    bound = 10 + 5 * np.sqrt(1 + b.lambda_)
    cond = check_smpl(rec, smpl, b.uhat(wn).T, coeffs(rng, case["kind"], b),
                      "default")
    rec.close("condition", cond, bound)
    pcond = check_pos(rec, psmpl, b, pos, rng, "positive")
    rec.close("positive condition", pcond, bound)
    rec.label("%d functions" % b.size if b.size < 4 else "more functions")
    rec.interesting()


@PROP.family(st.fixed_dictionaries({
    "cfg": gen.basis_cfg(ext=.1, lam_max=3e3),
    "size": st.one_of(st.none(), st.integers(1, 12)),
    "n": st.lists(st.one_of(st.integers(-20, 20), st.integers(-500, 500),
                            st.integers(-10**5, 10**5)),
                  min_size=1, max_size=8),
    "dense": st.integers(0, 60), "stretch": st.floats(1, 1.2),
    "order": st.sampled_from(["ascending", "descending", "shuffled"]),
    "as_list": st.booleans(), "kind": KIND, "seed": gen.SEED}), quick=500)
def custom(case, rec):
    b = gen.basis(case["cfg"])
    if case["size"] is not None and case["size"] < b.size:
        b = b[:case["size"]]
    z = {"F": 1, "B": 0}[b.statistics]
    rng = gen.rng(case["seed"])
    k = np.arange(case["dense"])
    m = (k * case["stretch"]**k).astype(int)
    m = m[m < 10**7]
    m = np.hstack([case["n"], m, -m - z])
    wn = np.sort(2 * m + z)
    if case["order"] == "descending":
        wn = wn[::-1]
    elif case["order"] == "shuffled":
        wn = rng.permutation(wn)
    pts = wn.tolist() if case["as_list"] else wn
    if case["dense"] % 5 == 1 and not case["as_list"]:
        # shortest type there is for these numbers
        pts = wn.astype(np.result_type(*map(np.min_scalar_type,
                                            (wn.min(), wn.max()))))
        rec.label(str(pts.dtype))
    gl = coeffs(rng, case["kind"], b)
    smpl = si.MatsubaraSampling(b, pts)
    rec.true(np.array_equal(smpl.sampling_points, wn), "points kept")
    check_smpl(rec, smpl, b.uhat(wn).T, gl, "custom")
    check_smpl(rec, si.MatsubaraSampling(b), b.uhat(wn).T, gl,
               "custom per call", pts)

    pos = np.abs(wn)
    if not case["dense"] % 3:       # not every frequency has its partner
        _, first = np.unique(pos, return_index=True)
        pos = pos[np.sort(first)]
        rec.label("unique")
    if case["dense"] % 2:
        pos = pos.astype(np.uint64)
    psmpl = si.MatsubaraSampling(b, pos, positive_only=True)
    rec.true(np.array_equal(psmpl.sampling_points, pos), "points kept")
    check_pos(rec, psmpl, b, pos, rng, "positive")
    check_pos(rec, si.MatsubaraSampling(b, positive_only=True), b, pos, rng,
              "positive per call", pos)
    rec.interesting(b.size >= 4)
    rec.label("zero not first" if z == 0 and (pos == 0).any()
              and pos[0] != 0 else "other")
