"""C11: every SVD strategy returns a valid decomposition"""
import warnings

import mpmath
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Property, Discard
from .c10 import matrix_cfg, build

svd = gen.env.sparse_ir.svd
DD = svd.MAX_DTYPE
PROP = Property(
    "C11",
    "Random real matrices (all shapes, graded, repeated, vanishing singular "
    "values, row and column scaled, kernel matrices) for each strategy, hint "
    "and memory layout: factors checked for shape, orthonormality, order, "
    "recombination; singular values against numpy and, for small ones of "
    "scaled matrices, arbitrary precision. Non-trivial: rank at least 2.",
    ["Double precision (or extended) matrices, as the strategies support.",
     "Strategy 'fast' and extended precision: entries of moderate magnitude "
     "(ratio below 1e15), because id_dist and xprec over- or underflow "
     "otherwise. xprec gives no guarantee "
     "for matrices with exactly vanishing singular values, and only about 20 "
     "digits for graded ones."])

LAYOUT = st.sampled_from(["C", "F", "strided", "readonly", "list"])


def relayout(a, layout):
    if layout == "F":
        return np.array(a, order="F")
    if layout == "strided":
        return np.repeat(np.repeat(a, 2, 0), 2, 1)[::2, ::2]
    if layout == "readonly":
        a = np.array(a)
        a.flags.writeable = False
        return a
    if layout == "list":
        return a.tolist()
    return np.array(a)


def check_factors(rec, name, a, u, s, v, orth, rel, sref=None, full=True):
    m, n = a.shape
    k = s.size
    rec.true(u.shape == (m, k) and v.shape == (n, k), lambda: name
             + " shapes %s %s %s" % (u.shape, s.shape, v.shape))
    rec.true(k <= min(m, n), name + " too many singular values")
    if k == 0:
        return
    rec.true((s >= 0).all() and (s[1:] <= s[:-1]).all(), name + " order")
    u, v = np.asarray(u), np.asarray(v)
    eye = np.eye(k)
    rec.close(name + " u orth", np.abs(u.T @ u - eye).astype(float), orth)
    rec.close(name + " v orth", np.abs(v.T @ v - eye).astype(float), orth)
    if full:
        rec.close(name + " recombine",
                  np.abs((u * s) @ v.T - a).astype(float),
                  rel * np.abs(a).max().astype(float) * np.sqrt(m * n))
    if sref is not None:
        rec.close(name + " svals", np.abs(s - sref[:k]), rel * sref[0]
                  * np.sqrt(min(m, n)))


@PROP.family(st.fixed_dictionaries({
    "mat": matrix_cfg(cplx=False), "grow": st.sampled_from([1, 1, 3, 8]),
    "strategy": st.sampled_from(["fast", "default", "accurate"]),
    "hint": st.one_of(st.none(), st.integers(1, 40)),
    "layout": LAYOUT, "seed": gen.SEED}), quick=3000)
def double(case, rec):
    c = dict(case["mat"])
    c["m"] *= case["grow"]
    c["n"] *= case["grow"]
    strategy = case["strategy"]
    if c["spec"] == "huge" and strategy == "fast":
        c["spec"] = "random"
    u0, s0, vh0 = build(c)
    a = (u0 * s0) @ vh0
    rng = gen.rng(case["seed"])
    if c["spec"] == "zerocol":
        a[:, rng.integers(c["n"])] = 0
    src = relayout(a, case["layout"])
    np.random.seed(case["seed"] % 1000)
    u, s, v = svd.compute(src, case["hint"], strategy)
    rec.true(np.array_equal(a, src), "argument modified")
    sref = np.linalg.svd(a, compute_uv=False)
    k = min(a.shape)
    hint = min(k, case["hint"] or k)
    rec.true(s.size >= hint, lambda: "%d singular values instead of %d"
             % (s.size, hint))
    full = s.size == k
    check_factors(rec, strategy, a, u, s, v, 3e-14, 2e-14, sref if full
                  else None, full)
    if not full:
        rest = 10 * sref[s.size] * np.sqrt(a.size)
        rec.close("truncated", np.abs((u * s) @ v.T - a),
                  rest + 3e-14 * sref[0] * np.sqrt(k))
        rec.close("truncated svals", np.abs(s - sref[:s.size]),
                  rest + 3e-14 * sref[0] * np.sqrt(k))
    # reproducible, whatever has happened in between
    np.random.seed(1 + case["seed"] % 1000)
    svd.compute(rng.normal(size=(9, 7)), 3, strategy)
    again = svd.compute(src, case["hint"], strategy)
    rec.true(all(np.array_equal(x, y) for x, y in zip((u, s, v), again)),
             "not reproducible")
    rec.interesting((sref > 1e-12 * sref[0]).sum() >= 2)
    rec.label(strategy)
    rec.label("truncated" if not full else "full")


def mp_svals(a):
    with mpmath.workdps(80):
        mat = mpmath.matrix(a.tolist())
        if mat.rows < mat.cols:
            mat = mat.T
        s = mpmath.svd_r(mat, compute_uv=False)
        return np.array([float(x) for x in s])


@PROP.family(st.fixed_dictionaries({
    "m": st.integers(1, 7), "n": st.integers(1, 7),
    "scale": st.sampled_from(["cols", "rows"]),
    "range": st.sampled_from([3, 8, 15, 40]), "layout": LAYOUT,
    "seed": gen.SEED}), quick=900)
def relative(case, rec):
    """Small singular values of scaled matrices"""
    rng = gen.rng(case["seed"])
    m, n = case["m"], case["n"]
    k = min(m, n)
    # square core of moderate condition, with all rows or columns
    core, = [rng.normal(size=(m, n))]
    rows = case["scale"] == "rows"
    if rows:
        n = min(m, n)           # full row rank is needed only for the core
        m = n if m > n else m
        core = core[:min(m, n)] if m > n else core
    else:
        core = core[:, :k]
    m, n = core.shape
    if rows and m > n:
        raise Discard
    c = np.linalg.cond(core)
    if c > 300:
        raise Discard
    d = 10.**rng.uniform(-case["range"] / 2, case["range"] / 2,
                         size=m if rows else n)
    a = core * (d[:, None] if rows else d[None, :])
    u, s, v = svd.compute(relayout(a, case["layout"]), strategy="accurate")
    sref = mp_svals(a)
    rec.true(s.size == k, "number of singular values")
    rec.close("relative", np.abs(s / sref - 1), 2e-14 * c)
    rec.true(u.shape == (m, k) and v.shape == (n, k), "shapes")
    rec.close("u orth", np.abs(u.T @ u - np.eye(k)), 3e-14)
    rec.close("v orth", np.abs(v.T @ v - np.eye(k)), 3e-14)
    rec.close("recombine", np.abs((u * s) @ v.T - a), 2e-13 * c * (
        np.linalg.norm(a, axis=1, keepdims=True) if rows
        else np.linalg.norm(a, axis=0)))
    rec.interesting(k >= 2 and sref[-1] < 1e-3 * sref[0])
    rec.label(case["scale"])


def xprec_glitch(a):
    """Error xprec itself makes, as it is not reliable for every matrix"""
    import xprec.linalg
    a = a if a.shape[0] <= a.shape[1] else a.T
    u, s, vt = xprec.linalg.svd_trunc(a)
    if not np.isfinite(np.asarray(s, float)).all() or (s == 0).any():
        return 1e300
    err = np.abs((u * s) @ vt - a).max() / np.abs(a).max()
    big = s > 1e-10 * s[0]
    for z in (u[:, big], vt[big].T):
        err = max(err, np.abs(z.T @ z - np.eye(z.shape[1])).max() * 1e-5)
    return float(err)


@PROP.family(st.fixed_dictionaries({
    "m": st.integers(1, 12), "n": st.integers(1, 12),
    "spec": st.sampled_from(["random", "graded", "scaled", "kernel", "zeros"]),
    "layout": st.sampled_from(["C", "F", "readonly"]),
    "strategy": st.sampled_from(["fast", "default", "accurate"]),
    "hint": st.one_of(st.none(), st.integers(1, 20)),
    "seed": gen.SEED}), quick=1200)
def extended(case, rec):
    rng = gen.rng(case["seed"])
    m, n = case["m"], case["n"]
    k = min(m, n)
    spec = case["spec"]
    a = rng.normal(size=(m, n)).astype(DD) + 1e-17 * rng.normal(size=(m, n))
    orth, rel = 1e-19, 1e-21
    if spec == "graded":
        d = np.geomspace(1, 10**-rng.uniform(0, 20), k).astype(DD)
        a = (rng.normal(size=(m, k)).astype(DD) * d) @ rng.normal(size=(k, n))
    elif spec == "scaled":
        a = a * (10.**rng.uniform(-4, 4, n)).astype(DD)
        orth = rel = 1e-14
    elif spec == "zeros":
        # singular in an exact way, but not zero altogether
        a[rng.choice(m, rng.integers(m), replace=False)] = 0
        a[:, rng.choice(n, rng.integers(n), replace=False)] = 0
    elif spec == "kernel":
        x = np.sort(rng.uniform(-1, 1, m)).astype(DD)
        y = np.sort(rng.uniform(-1, 1, n)).astype(DD)
        a = np.exp(-rng.uniform(1, 10) * x[:, None] * y)
    src = np.array(a, order="F" if case["layout"] == "F" else "C")
    if case["layout"] == "readonly":
        src.flags.writeable = False
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        u, s, v = svd.compute(src, case["hint"], case["strategy"])
    if any("converge" in str(w.message) for w in caught):
        orth = rel = 1e-13
        rec.label("not converged")
    rec.true(np.isfinite(np.asarray(u, float)).all()
             and np.isfinite(np.asarray(v, float)).all(), "vectors finite")
    glitch = xprec_glitch(a)
    if glitch > 1e-25:
        orth, rel = max(orth, 100 * glitch), max(rel, 100 * glitch)
        rec.label("xprec inaccurate")
    rec.true((a == src).all(), "argument modified")
    rec.true(u.dtype == DD and s.dtype == DD and v.dtype == DD, "precision")
    # directions of negligible singular values are not relevant
    rec.true(np.isfinite(np.asarray(s, float)).all(), "finite")
    big = s > 1e-10 * s[0] if s.size else s > 0
    # the smaller the singular value, the less its vectors are orthogonal
    sv = np.asarray(s, float)
    r = sv[0] / sv[big] if big.any() else sv
    acc = np.maximum(orth, 1e-31 * r[:, None] * r)
    for name, z in (("u", u[:, big]), ("v", v[:, big])):
        err = np.abs(z.T @ z - np.eye(z.shape[1])).astype(float)
        rec.close("dd %s orth" % name, err, 30 * acc)
    rec.true((s >= 0).all() and (s[1:] <= s[:-1] * (1 + 1e-28)
                                 + 1e-30 * s[0]).all(), "order")
    rec.close("dd recombine", np.abs((u * s) @ v.T - a).astype(float),
              30 * rel * np.abs(a).max().astype(float))
    sref = np.linalg.svd(a.astype(float), compute_uv=False)
    err = np.zeros(k)
    err[:sv.size] = sv
    rec.close("dd svals", np.abs(err - sref), 1e-14 * sref[0] * k)
    if spec != "zeros":
        again = svd.compute(src, case["hint"], case["strategy"])
        rec.true(all((x == y).all() for x, y in zip((u, s, v), again)),
                 "not reproducible")
    rec.interesting(big.sum() >= 2)
    rec.label(spec)
    rec.label("tall" if m > n else "wide" if m < n else "square")


@PROP.family(st.fixed_dictionaries({
    "lam": gen.loguniform(.5, 1e4), "m": st.integers(2, 60),
    "n": st.integers(2, 60), "hint": st.integers(1, 30),
    "strategy": st.sampled_from(["fast", "default", "accurate"])}), quick=800)
def kernels(case, rec):
    """Matrices of the kind the library decomposes"""
    x, wx = np.polynomial.legendre.leggauss(case["m"])
    y, wy = np.polynomial.legendre.leggauss(case["n"])
    k = gen.si.LogisticKernel(case["lam"])
    a = np.sqrt(wx)[:, None] * k(x[:, None], y[None, :]) * np.sqrt(wy)
    if a.max() < 1e-20:
        raise Discard
    u, s, v = svd.compute(a, case["hint"], case["strategy"])
    sref = np.linalg.svd(a, compute_uv=False)
    full = s.size == min(a.shape)
    check_factors(rec, "kernel", a, u, s, v, 5e-14, 3e-14,
                  sref if full else None, full)
    if not full:
        rec.close("kernel truncated", np.abs((u * s) @ v.T - a),
                  10 * sref[s.size] * np.sqrt(a.size) + 3e-14 * sref[0]
                  * np.sqrt(a.size))
    rec.interesting()


@PROP.family(st.sampled_from(["", "Fast", "jacobi", None, 1, "accurat"]),
             quick=16)
def unknown(case, rec):
    rec.raises(lambda: svd.compute(np.eye(3), None, case), "strategy")
    rec.interesting()


@PROP.family(st.sampled_from([5, 2, 3, 8]), quick=4)
def uninitialised(n, rec):
    """Known defect of the dependency (elsewhere repaired by pbt.env)"""
    a = np.linspace(1, 2, n)[None, :].astype(DD)
    xl = gen.env.xprec.linalg
    def unlucky(x):
        # memory about to be allocated happens to contain NaN
        junk = [np.full(k, np.nan) for k in range(1, 17) for _ in range(20)]
        del junk
        return gen.env.xprec_householder(x)

    repaired, xl.householder = xl.householder, unlucky
    try:
        with np.errstate(all="ignore"):
            u, s, v = svd.compute(a)
        if np.isnan(np.asarray(s, float)).any():
            rec.known("xprec-householder", "n=%d" % n)
    finally:
        xl.householder = repaired
    rec.interesting()
