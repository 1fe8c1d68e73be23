"""C10: decomposed matrices multiply exactly and solve least squares"""
import warnings

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Property
from .c09 import make_array, by_slice, LAYOUTS

si = gen.si
smp = si.sampling
PROP = Property(
    "C10",
    "Random matrices (square, tall, wide, single row or column; real, "
    "complex; random, graded, repeated or exactly vanishing singular values; "
    "vanishing columns; sampling matrices) with and without given "
    "decomposition; products against numpy, factors against their definition, "
    "solutions against numpy's least squares, stationarity of residual and "
    "minimum norm. Non-trivial: rank at least 2.",
    ["Rank deficiency is exact (zero singular values): the library drops "
     "nothing else.", "Condition number below 1e7 where solutions for "
     "arbitrary right-hand sides are compared."])


@st.composite
def matrix_cfg(draw, cplx=None):
    m, n = draw(st.integers(1, 12)), draw(st.integers(1, 12))
    c = draw(st.booleans()) if cplx is None else cplx
    return {"m": m, "n": n, "complex": c,
            "spec": draw(st.sampled_from(["random", "graded", "repeated",
                                          "zero", "zerocol", "huge",
                                          "steep"])),
            "layout": draw(st.sampled_from(LAYOUTS[:7])),
            "seed": draw(gen.SEED)}


def orth(rng, m, k, c):
    z = rng.normal(size=(m, k))
    if c:
        z = z + 1j * rng.normal(size=(m, k))
    return np.linalg.qr(z)[0]


def build(c):
    """Returns matrix and own (u, s, vh)"""
    rng = gen.rng(c["seed"])
    m, n, k = c["m"], c["n"], min(c["m"], c["n"])
    u, v = orth(rng, m, k, c["complex"]), orth(rng, n, k, c["complex"])
    s = np.sort(rng.uniform(.2, 2, k))[::-1]
    if c["spec"] == "graded":
        s = np.geomspace(1, 10**-rng.uniform(0, 6), k)
    elif c["spec"] == "steep":
        s = np.geomspace(1, 10**-rng.uniform(6, 13), k)
    elif c["spec"] == "repeated":
        s = np.sort(rng.choice([1., .5], k))[::-1]
    elif c["spec"] == "zero":
        s = s * (np.arange(k) <= rng.integers(0, k))
    elif c["spec"] == "huge":
        s = s * 10.**rng.uniform(-30, 30)
    return u, s, v.conj().T


@PROP.family(st.fixed_dictionaries({
    "mat": matrix_cfg(), "given": st.sampled_from(["none", "own", "numpy"]),
    "cols": st.lists(st.integers(1, 3), max_size=2),
    "axis": st.booleans(), "rhs": st.sampled_from(["real", "complex"]),
    "as_list": st.booleans(), "seed": gen.SEED}), quick=2500)
def dense(case, rec):
    c = case["mat"]
    u, s, vh = build(c)
    a = (u * s) @ vh
    rng = gen.rng(case["seed"])
    if c["spec"] == "zerocol":
        a[:, rng.integers(0, c["n"])] = 0
    own = c["spec"] == "zero" or case["given"] == "own"
    if c["spec"] == "zerocol" and own:
        own = False
    src = make_array(rng, a.shape, "c16" if c["complex"] else "f8", "C")
    src[...] = a
    if c["layout"] == "F":
        src = np.array(src, order="F")
    elif c["layout"] == "strided":
        src = np.repeat(np.repeat(src, 2, 0), 2, 1)[::2, ::2]
    if own:
        given = (u, s, vh)
    elif case["given"] == "numpy":
        given = np.linalg.svd(a, full_matrices=False)
    else:
        given = None
    if case["as_list"] and not own:
        src = src.tolist()
    before = np.array(src)
    d = smp.DecomposedMatrix(src) if given is None else \
        smp.DecomposedMatrix(src, given)

    # properties of the factors
    rs = np.linalg.svd(a, compute_uv=False)
    if own:
        rs = s
    nz = d.s.size
    scale = max(rs[0], 1e-300)
    if c["spec"] == "zerocol":
        # numpy may or may not make it exactly zero
        rs = rs[rs != 0]
    elif own:
        rs = rs[rs != 0]
    rec.true(nz == rs.size, lambda: "rank %d instead of %d" % (nz, rs.size))
    rec.true((d.s > 0).all() and (np.diff(d.s) <= 0).all(), "singular values")
    rec.close("svals", np.abs(d.s - rs), 1e-14 * scale)
    rec.true(d.u.shape == (c["m"], nz) and d.vH.shape == (nz, c["n"]),
             "shape of factors")
    eye = np.eye(nz)
    rec.close("u orth", np.abs(d.u.conj().T @ d.u - eye), 2e-14)
    rec.close("v orth", np.abs(d.vH @ d.vH.conj().T - eye), 2e-14)
    rec.close("recombine", np.abs((d.u * d.s) @ d.vH - a), 3e-14 * scale)
    rec.true(np.array_equal(d.a, before), "a")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rec.true(np.array_equal(np.asarray(d), before), "asarray")
        rec.true(np.asarray(d, dtype=complex).dtype == complex, "dtype")
    if nz:
        rec.close("cond", abs(d.cond / (rs[0] / rs[-1]) - 1),
                  1e-14 * rs[0] / rs[-1] + 1e-14)

    # products
    ndim = 1 + len(case["cols"])
    x = rng.normal(size=[c["n"]] + case["cols"])
    y = rng.normal(size=[c["m"]] + case["cols"])
    if case["rhs"] == "complex":
        x = x + 1j * rng.normal(size=x.shape)
        y = y + 1j * rng.normal(size=y.shape)
    if case["axis"] or ndim > 2:
        ax = int(rng.integers(ndim))
        kw = {"axis": ax}
        x, y = np.moveaxis(x, 0, ax), np.moveaxis(y, 0, ax)
    else:
        ax, kw = 0, {}
    prod = by_slice(lambda v: before @ v, x, ax)
    got = d.matmul(x, **kw)
    rec.true(got.shape == prod.shape, "shape of product")
    ptol = 1e-14 * c["n"] * scale * np.abs(x).max()
    rec.close("product", np.abs(got - prod), ptol)
    if ndim <= 2 and ax == 0:
        rec.close("product", np.abs(d @ x - prod), ptol)

    # least squares
    if nz == 0:
        rec.true(not np.any(d.lstsq(y, **kw)), "solution of zero problem")
        rec.label("zero matrix")
        return
    cond = rs[0] / rs[-1]
    sol = d.lstsq(y, **kw)
    rec.true(sol.shape == x.shape, "shape of solution")
    sol = np.moveaxis(sol, ax, 0).reshape(c["n"], -1)
    y2 = np.moveaxis(y, ax, 0).reshape(c["m"], -1)
    if cond < 1e7:
        # residual is orthogonal to range; relative to largest possible terms
        res = before @ sol - y2
        norm = np.linalg.norm(y2, axis=0)
        rec.close("stationary", np.abs(before.conj().T @ res) / scale,
                  1e-14 * cond * norm * 10)
        # minimum norm: solution is within the row space
        proj = sol - d.vH.conj().T @ (d.vH @ sol)
        rec.close("minimum norm", np.abs(proj),
                  1e-13 * np.linalg.norm(sol, axis=0))
        rc = rs[-1] / rs[0] / 3
        best = np.linalg.lstsq(before, y2, rcond=rc)[0]
        rec.close("solution", np.abs(sol - best),
                  3e-14 * cond**2 * norm / scale)
        # metamorphic: rhs outside of range does not contribute
        if own and nz < c["m"]:
            out = y2 - u[:, :nz] @ (u[:, :nz].conj().T @ y2)
            rec.close("outside range", np.abs(d.lstsq(out)),
                      1e-14 * cond * norm / scale * 10)
    # consistent right-hand side: accurate up to the condition number
    if cond < 1e14 and nz == c["n"]:
        x2 = np.moveaxis(x, ax, 0).reshape(c["n"], -1)
        back = d.lstsq(before @ x2)
        rec.close("consistent", np.abs(back - x2),
                  1e-14 * cond * np.abs(x2).max() * c["n"] * 3)
    rec.true(np.array_equal(before, np.asarray(src)), "argument modified")
    rec.interesting(nz >= 2)
    rec.label("tall" if c["m"] > c["n"] else "wide" if c["m"] < c["n"]
              else "square")
    rec.label(c["spec"])
    rec.label("deficient" if nz < min(c["m"], c["n"]) else "full rank")


@PROP.family(st.fixed_dictionaries({
    "mat": matrix_cfg(cplx=True), "cols": st.lists(st.integers(1, 3),
                                                   max_size=2),
    "axis": st.booleans(), "rhs": st.sampled_from(["real", "complex", "list"]),
    "seed": gen.SEED}), quick=1500)
def split(case, rec):
    c = case["mat"]
    rng = gen.rng(case["seed"])
    m, n = c["m"], c["n"]
    # real-valued problem of double the rows
    k = min(2 * m, n)
    ur, v = orth(rng, 2 * m, k, False), orth(rng, n, k, False)
    s = np.sort(rng.uniform(.2, 2, k))[::-1]
    if c["spec"] in ("graded", "steep"):
        s = np.geomspace(1, 10**-rng.uniform(0, 6), k)
    elif c["spec"] == "zero":
        s = s * (np.arange(k) <= rng.integers(0, k))
    u = ur[:m] + 1j * ur[m:]
    a = (u * s) @ v.T
    d = smp.SplitDecomposedMatrix(a, (u, s, v.T))
    nz = int((s > 0).sum())
    s0 = s[:nz]
    cond = s0[0] / s0[-1]
    rec.true(d.s.shape == (nz,) and (d.s > 0).all()
             and np.array_equal(d.s, s0), "singular values")
    rec.true(d.u.shape == (m, nz) and d.vH.shape == (nz, n), "shape")
    rec.true(not np.iscomplexobj(d.vH), "vH real")
    ud = d.u
    rec.close("u orth", np.abs((ud.conj().T @ ud).real - np.eye(nz)), 2e-14)
    rec.close("v orth", np.abs(d.vH @ d.vH.T - np.eye(nz)), 2e-14)
    rec.close("recombine", np.abs((ud * d.s) @ d.vH - a), 3e-14 * s0[0])
    rec.true(np.array_equal(np.asarray(d), a), "asarray")
    rec.close("cond", abs(d.cond / cond - 1), 1e-14)
    ndim = 1 + len(case["cols"])
    x = rng.normal(size=[n] + case["cols"])
    y = rng.normal(size=[m] + case["cols"])
    if case["rhs"] == "complex":
        y = y + 1j * rng.normal(size=y.shape)
    ax, kw = 0, {}
    if case["axis"] or ndim > 2:
        ax = int(rng.integers(ndim))
        kw = {"axis": ax}
        x, y = np.moveaxis(x, 0, ax), np.moveaxis(y, 0, ax)
    prod = by_slice(lambda w: a @ w, x, ax)
    rec.close("product", np.abs(d.matmul(x, **kw) - prod),
              1e-14 * n * s0[0] * np.abs(x).max())
    if not kw and ndim <= 2:
        rec.close("product", np.abs(d @ x - prod),
                  1e-14 * n * s0[0] * np.abs(x).max())
    sol = d.lstsq(y.tolist() if case["rhs"] == "list" else y, **kw)
    rec.true(sol.shape == x.shape and not np.iscomplexobj(sol), "shape")
    sol = np.moveaxis(sol, ax, 0).reshape(n, -1)
    y2 = np.moveaxis(y, ax, 0).reshape(m, -1)
    ys = np.vstack([y2.real, y2.imag])
    asp = np.vstack([a.real, a.imag])
    norm = np.linalg.norm(ys, axis=0)
    res = asp @ sol - ys
    rec.close("stationary", np.abs(asp.T @ res) / s0[0], 1e-13 * cond * norm)
    proj = sol - v[:, :nz] @ (v[:, :nz].T @ sol)
    rec.close("minimum norm", np.abs(proj),
              1e-13 * np.linalg.norm(sol, axis=0))
    best = (v[:, :nz] / s0) @ (ur[:, :nz].T @ ys)
    rec.close("solution", np.abs(sol - best), 3e-14 * cond * norm / s0[0])
    if nz == n:
        x2 = np.moveaxis(x, ax, 0).reshape(n, -1)
        rec.close("consistent", np.abs(d.lstsq(a @ x2) - x2),
                  1e-13 * cond * np.abs(x2).max())
    rec.interesting(nz >= 2)
    rec.label("deficient" if nz < k else "full rank")


@PROP.family(st.fixed_dictionaries({
    "m": st.integers(1, 6), "n": st.integers(1, 6), "complex": st.booleans(),
    "fault": st.sampled_from(["ndim0", "ndim1", "ndim3", "rows", "cols",
                              "rank_s", "rank_v", "split_vcomplex",
                              "split_ureal", "split_rows", "split_ndim",
                              "split_rank"]),
    "seed": gen.SEED}), quick=400)
def malformed(case, rec):
    rng = gen.rng(case["seed"])
    m, n = case["m"], case["n"]
    a = rng.normal(size=(m, n))
    if case["complex"]:
        a = a + 1j * rng.normal(size=(m, n))
    u, s, vh = np.linalg.svd(a, full_matrices=False)
    f = case["fault"]
    D, S = smp.DecomposedMatrix, smp.SplitDecomposedMatrix
    uc, vr = u.astype(complex), vh.real
    fn = {
        "ndim0": lambda: D(1.0), "ndim1": lambda: D(a[0]),
        "ndim3": lambda: D(a[None]),
        "rows": lambda: D(a, (np.vstack([u, u[:1]]), s, vh)),
        "cols": lambda: D(a, (u, s, np.hstack([vh, vh[:, :1]]))),
        "rank_s": lambda: D(a, (u, np.append(s, 1.), vh)),
        "rank_v": lambda: D(a, (u, s, np.vstack([vh, vh[:1]]))),
        "split_vcomplex": lambda: S(a + 0j, (uc, s, vh.astype(complex))),
        "split_ureal": lambda: S(a + 0j, (u.real, s, vr)),
        "split_rows": lambda: S(a + 0j, (np.vstack([uc, uc[:1]]), s, vr)),
        "split_ndim": lambda: S(a[0] + 0j, (uc, s, vr)),
        "split_rank": lambda: S(a + 0j, (uc, np.append(s, 1.), vr)),
    }[f]
    rec.raises(fn, f)
    rec.interesting(m > 1 and n > 1)
    rec.label(f)


@PROP.family(st.fixed_dictionaries({
    "cfg": gen.basis_cfg(ext=.1, lam_max=1e4, beta_lo=.1, beta_hi=100, big=3),
    "smpl": st.sampled_from(["tau", "matsu", "matsu+"]),
    "seed": gen.SEED}), quick=300)
def sampling(case, rec):
    """Matrices as they arise in sampling"""
    b = gen.basis(case["cfg"])
    if case["smpl"] == "tau":
        smpl = si.TauSampling(b)
        a = b.u(smpl.tau).T
        st_ = a
    else:
        smpl = si.MatsubaraSampling(b, positive_only=case["smpl"] == "matsu+")
        a = b.uhat(smpl.wn).T
        st_ = a
        if case["smpl"] == "matsu+":
            st_ = np.vstack([a.real, a.imag])
    d = smpl.matrix
    s = np.linalg.svd(st_, compute_uv=False)
    rec.true(np.array_equal(d.a, a), "a")
    rec.close("svals", np.abs(d.s - s), 1e-13 * s[0])
    rec.close("smpl recombine", np.abs((d.u * d.s) @ d.vH - a), 1e-13 * s[0])
    uu = d.u.conj().T @ d.u
    if case["smpl"] == "matsu+":
        uu = uu.real
        rec.true(not np.iscomplexobj(d.vH), "real")
    rec.close("smpl u orth", np.abs(uu - np.eye(b.size)), 1e-13)
    rec.close("smpl v orth", np.abs(d.vH @ d.vH.conj().T - np.eye(b.size)),
              1e-13)
    rec.close("smpl cond", abs(d.cond / (s[0] / s[-1]) - 1),
              1e-12 * d.cond)
    y = gen.rng(case["seed"]).normal(size=(2, a.shape[0]))
    y = y[0] + 1j * y[1] if np.iscomplexobj(a) else y[0]
    ys = np.hstack([y.real, y.imag]) if case["smpl"] == "matsu+" else y
    best = np.linalg.lstsq(st_, ys, rcond=None)[0]
    rec.close("smpl lstsq", np.abs(d.lstsq(y) - best),
              1e-13 * d.cond**2 * np.linalg.norm(y) / s[0])
    rec.interesting(b.size > 1)
