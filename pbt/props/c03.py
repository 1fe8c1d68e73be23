"""C03: singular triples solve the singular equations accurately"""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Property

si = gen.si
PROP = Property(
    "C03",
    "Random kernel, cutoff and accuracy; compared with quadrature of the "
    "kernel formula on an independent graded mesh, and with singular values "
    "and functions of an independent double-double discretisation. "
    "Non-trivial: smallest singular value compared is below 1e-3 s[0].",
    ["Reference: Gauss mesh graded towards the edges (x) and zero (y), "
     "20 nodes per interval from mpmath, SVD by the xprec package."])

POINTS = st.lists(gen.unit_points(), min_size=1, max_size=10)


@PROP.family(st.fixed_dictionaries({
    "cfg": gen.sve_cfg(ext=.2, huge=True, lam_min=.02, big=4), "x": POINTS, "y": POINTS}),
    quick=700, cost=1)
def equations(case, rec):
    cfg = case["cfg"]
    kind, lam = cfg["kind"], cfg["lam"]
    u, s, v = gen.sve(cfg)
    ext = cfg["eps"] is None or cfg["eps"] < 1e-8
    lax = 100 if kind == "log" and .5 < lam < 2.2 and not ext else 1
    for p, q, pts, other, axis in (
            (u, v, case["x"], ref.full(ref.edges_y(lam)), 0),
            (v, u, case["y"], ref.full(ref.edges_x(lam)), 1)):
        pts = np.hstack([pts, np.linspace(-1, 1, 13)])
        z, w = ref.composite(np.unique(np.hstack([q.knots, other])), 14)
        if axis == 0:
            k = ref.kernel_value(kind, lam, pts[:, None], z)
        else:
            k = ref.kernel_value(kind, lam, z, pts[:, None])
        lhs = s[:, None] * p(pts)
        rhs = (q(z) * w) @ k.T
        tol = 3e-12 * lax * (1 + lam / 1e4) * np.abs(k).max()
        rec.close("equation %d" % axis, np.abs(lhs - rhs), tol)
    # all singular values together
    rec.close("norm", abs((s @ s) / ref.kernel_norm2(kind, lam) - 1),
              2e-14 + 30 * (s[-1] / s[0])**2)
    rec.interesting(s[-1] < 1e-3 * s[0])


@PROP.family(st.fixed_dictionaries({
    "cfg": gen.sve_cfg(ext=.5, lam_min=.02, lam_max=1e4, lam_max_ext=150.)}),
    quick=320, cost=2)
def reference(case, rec):
    cfg = case["cfg"]
    kind, lam = cfg["kind"], cfg["lam"]
    ext = cfg["eps"] is None or cfg["eps"] < 1e-8
    sref, par, x, ur, y, vr = ref.svd_dd(kind, lam)
    res = gen.sve(cfg)
    u, s, v = res
    eps = max(cfg["eps"] or 0, 1e-15)
    n = int((sref >= eps * sref[0] * (1 + 1e-6)).sum())
    m = int((sref >= eps * sref[0] * (1 - 1e-6)).sum())
    have = int((s >= eps * s[0]).sum())
    rec.true(n <= have <= m, "%d singular values above %g, reference has %d"
             % (have, eps, n))
    n = min(have, sref.size)
    s, sref, u, v = s[:n], sref[:n], u[:n], v[:n]
    ur, vr = ur[:n], vr[:n]
    rel = s / s[0]
    # In double precision, errors are a multiple of rounding over the
    # singular value; with extended precision there is only output rounding
    # and the discretisation
    lax = 100 if kind == "log" and .5 < lam < 2.2 and not ext else 1
    stol = 1e-10 + (0 if ext else 1e-14 * lax * (1 + lam / 1e3) / rel)
    rec.close("values ext" if ext else "values", np.abs(s / sref - 1), stol)
    rec.close("absolute", np.abs(s - sref), 1e-14 * lax * (1 + lam / 1e3)
              * sref[0])
    ftol = 1e-9 if ext else 3e-13 * lax * (1 + lam / 1e3) / rel + 1e-10
    for p, z, fr, name in (u, x, ur, "u"), (v, y, vr, "v"):
        fz = p(z)
        sg = np.sign((fz * fr).sum(1))[:, None]
        sc = np.abs(fr).max(1)
        err = np.abs(fz * sg - fr).max(1) / sc
        rec.close(name + (" ext" if ext else ""), err, ftol)
    rec.true((np.asarray(u.symm) == par[:n]).all(), "parity")
    rec.interesting(rel[-1] < 1e-3)
    rec.label("ext" if ext else "double")
    rec.label(kind)
