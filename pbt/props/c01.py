"""C01: the singular value expansion reproduces the kernel"""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Property

si = gen.si
PROP = Property(
    "C01",
    "Random kernel (logistic, regularised Bose, user-defined), cutoff and "
    "accuracy; sum of s u v compared with an independent kernel formula on "
    "knots, midpoints, uniform grid and generated points of the square. "
    "Non-trivial: at least 3 terms are needed.",
    ["The bound is the sum over the discarded terms plus a few hundred "
     "units of rounding in the working precision."])

POINTS = st.lists(st.tuples(gen.unit_points(), gen.unit_points()),
                  min_size=1, max_size=12)


def grid(poly, n):
    k = poly.knots
    mid = .5 * (k[1:] + k[:-1])
    return np.hstack([k, mid, np.linspace(poly.xmin, poly.xmax, n)])


def noise(cfg, kmax):
    """Rounding: working precision, where functions are accurate to ~1e-15
    times their magnitude in extended precision"""
    if cfg["eps"] is None or cfg["eps"] < 1e-8:
        return 2e-13 * kmax * (1 + cfg["lam"] / 300)
    if cfg["kind"] == "log" and .5 < cfg["lam"] < 2.2:
        return 1e-10 * kmax             # single segment per half-axis
    return 1e-11 * kmax * (1 + cfg["lam"] / 1e4)


def check_sum(rec, cfg, u, s, v, kref, kmax, x, y, tail=0., name="sum"):
    ux, vy = u(x), v(y)
    rec.true(ux.shape == s.shape + x.shape, "shape of u(x)")
    rec.true(vy.shape == s.shape + y.shape, "shape of v(y)")
    err = np.abs(np.einsum("l...,l,l...->...", ux, s, vy) - kref)
    rec.close(name, err, tail + noise(cfg, kmax))


@PROP.family(st.fixed_dictionaries({
    "cfg": gen.sve_cfg(ext=.2, huge=True, big=4), "pts": POINTS,
    "flip": st.booleans()}), quick=1600, cost=1)
def reconstruct(case, rec):
    cfg = case["cfg"]
    kind, lam = cfg["kind"], cfg["lam"]
    res = gen.sve(cfg)
    u, s, v = res
    kmax = ref.kernel_value(kind, lam, np.array([-1, 1]), np.array([1, -1]))
    kmax = max(kmax.max(), 1 / lam if kind == "bose" else .5)
    x, y = grid(u, 41), grid(v, 41)
    rec.label("ext" if noise(cfg, 1) < 1e-12 else "double")
    rec.label(kind)
    rec.interesting(s.size >= 3)
    kref = ref.kernel_value(kind, lam, x[:, None], y[None, :])
    ux, vy = u(x), v(y)
    err = np.abs((ux.T * s) @ vy - kref)
    rec.close("full-grid", err, noise(cfg, kmax))

    pts = np.array(case["pts"])
    px, py = pts[:, 0], pts[:, 1]
    kref = ref.kernel_value(kind, lam, px, py)
    check_sum(rec, cfg, u, s, v, kref, kmax, px, py, name="points")
    if case["flip"]:
        rec.true(np.shape(u(px[0])) == s.shape, "scalar shape")
        check_sum(rec, cfg, u, s, v, kref[0], kmax, px[0], py[0],
                  name="scalar point")

    # the part up to the requested accuracy, with rigorous bound for the rest
    eps = 0 if cfg["eps"] is None else cfg["eps"]
    up, sp, vp = res.part(cfg["eps"])
    n = sp.size
    if cfg["eps"] is not None:
        want = int((s >= eps * s[0]).sum())
        rec.true(n == want, "part(eps): %d terms instead of %d" % (n, want))
    tail = (s * np.abs(ux).max(1) * np.abs(vy).max(1))[n:].sum()
    err = np.abs((up(x).T * sp) @ vp(y)
                 - ref.kernel_value(kind, lam, x[:, None], y[None, :]))
    rec.close("part", err, 1.0001 * tail + noise(cfg, kmax))


@PROP.family(st.fixed_dictionaries({
    "kind": gen.KINDS, "lam": gen.lam(.05, 1e5), "eps": gen.eps_double(),
    "logcut": st.floats(-12.5, -0.5).map(gen.cround),
    "n_sv": st.one_of(st.none(), st.integers(1, 40))}), quick=700, cost=1)
def count(case, rec):
    """Neither cut short nor padded"""
    lam, kind = case["lam"], case["kind"]
    cutoff = 10.0**case["logcut"]
    res = si.compute_sve(gen.kernel_of(kind, lam), case["eps"], cutoff=cutoff,
                         n_sv=case["n_sv"])
    sref = ref.svals_double(kind, lam)
    lo = int((sref > cutoff * sref[0] * (1 + 1e-6)).sum())
    hi = int((sref > cutoff * sref[0] * (1 - 1e-6)).sum())
    if case["n_sv"] is not None:
        rec.label("limited by n_sv" if case["n_sv"] < lo else "n_sv too large")
        lo, hi = min(lo, case["n_sv"]), min(hi, case["n_sv"])
    rec.true(lo <= res.s.size <= hi, "%d terms, expected %d to %d"
             % (res.s.size, lo, hi))
    rec.interesting(res.s.size >= 3)
    u, s, v = res
    rec.true(u.shape == s.shape == v.shape, "consistent shapes")
    rec.close("values", np.abs(s - sref[:s.size]), 1e-12 * sref[0])
    # expansion is the best one with this number of terms in L2
    x, wx = ref.composite(ref.full(ref.edges_x(lam)), 14)
    y, wy = ref.composite(ref.full(ref.edges_y(lam)), 14)
    d = (u(x).T * s) @ v(y) - ref.kernel_value(kind, lam, x[:, None], y)
    l2 = np.sqrt((wx @ d**2) @ wy)
    rest = np.sqrt((sref[s.size:]**2).sum())
    rec.close("L2 error", np.abs(l2 - rest), 1e-5 * rest
              + noise({"kind": kind, "lam": lam, "eps": 1e-8}, sref[0]))


@PROP.family(st.fixed_dictionaries({
    "k": gen.custom_kernel_cfg(), "eps": gen.eps_double(),
    "logcut": st.one_of(st.none(), st.floats(-12, -1).map(gen.cround)),
    "pts": POINTS}), quick=900, cost=.5)
def custom(case, rec):
    kern = gen.CustomKernel(case["k"])
    cutoff = None if case["logcut"] is None else 10.0**case["logcut"]
    res = si.compute_sve(kern, case["eps"], cutoff=cutoff)
    u, s, v = res
    (xa, xb), (ya, yb) = kern.xrange, kern.yrange
    x, y = grid(u, 31), grid(v, 31)
    kref = kern.formula(x[:, None], y)
    kmax = np.abs(kref).max()
    tail = 0.
    if cutoff is not None:
        uf, sf, vf = si.compute_sve(kern, case["eps"])
        rec.true(s.size == (sf > cutoff * sf[0]).sum(), "cutoff for custom")
        n = s.size
        tail = (sf * np.abs(uf(x)).max(1) * np.abs(vf(y)).max(1))[n:].sum() * 2
    err = np.abs((u(x).T * s) @ v(y) - kref)
    rec.close("custom", err, tail + 1e-8 * kmax)
    pts = .5 * (np.array(case["pts"]) + 1)
    px = np.clip(xa + (xb - xa) * pts[:, 0], xa, xb)
    py = np.clip(ya + (yb - ya) * pts[:, 1], ya, yb)
    err = np.abs(np.einsum("lp,l,lp->p", u(px), s, v(py))
                 - kern.formula(px, py))
    rec.close("custom points", err, tail + 1e-8 * kmax)
    rec.label("symmetric" if case["k"]["symm"] else "general")
    rec.interesting(s.size >= 3)
