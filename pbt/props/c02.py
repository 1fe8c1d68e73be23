"""C02: singular functions orthonormal, ordered, parity-definite, interlacing"""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Property

si = gen.si
PROP = Property(
    "C02",
    "Random kernel, cutoff and accuracy, as expansion and as basis in "
    "physical units; all functions checked by exact piecewise quadrature and "
    "on a dense grid. Non-trivial: at least 4 functions.",
    ["Sign changes, gauge and strict order are demanded of the functions up "
     "to the requested accuracy, orthonormality of all functions returned."])


def gram(p, q=None):
    x, w = ref.composite(p.knots, 20)
    px = p(x)
    qx = px if q is None else q(x)
    return (px * w) @ qx.T


def sign_changes(f, lo, hi, knots, nsub=24):
    k = np.asarray(knots)
    t = (np.arange(nsub) + .5) / nsub
    x = (k[:-1, None] + (k[1:] - k[:-1])[:, None] * t).ravel()
    fx = f(x)
    fx = np.sign(np.where(np.abs(fx) < 1e-13 * np.abs(fx).max(1)[:, None],
                          np.nan, fx))
    return [int((np.diff(row[~np.isnan(row)]) != 0).sum()) for row in fx]


def check_functions(rec, p, nacc, name, orth_tol, cont, gauge, gen_exact):
    n = p.size
    rec.close(name + " orthonormal", np.abs(gram(p) - np.eye(n)), orth_tol)
    xmid = .5 * (p.xmin + p.xmax)
    half = .5 * (p.xmax - p.xmin)
    # away from knots, where the right limit is taken
    t = np.hstack([np.linspace(.00123, .99877, 57), 1 - .9 * 3.0**-np.arange(2, 12)])
    a = p(np.minimum(xmid + half * t, p.xmax))
    b = p(np.maximum(xmid - half * t, p.xmin))
    par = (-1.0)**np.arange(n)
    rec.true(np.shape(p.symm) == (n,), "shape of symm")
    rec.true((np.asarray(p.symm)[:nacc] == par[:nacc]).all(),
             lambda: name + " recorded parity %r" % (p.symm,))
    sc = np.abs(a).max(1)
    err = np.abs(a - par[:, None] * b).max(1) / sc
    rec.close(name + " parity", err[:nacc], 1e-12 if gen_exact else 1e-9)
    # but the jump there must be small
    mid = p.knots[1:-1]
    step = p(mid) - p(mid - 1e-13 * half)
    if mid.size:
        rec.close(name + " jump", (np.abs(step).max(1) / sc)[:nacc], cont[:nacc])
    if gauge:
        rec.true((p(p.xmax)[:nacc] > 0).all(), name + " gauge")
    sc = sign_changes(p, p.xmin, p.xmax, p.knots)
    rec.true(sc[:nacc] == list(range(nacc)),
             lambda: name + " sign changes: %s" % (sc[:nacc],))


@PROP.family(st.fixed_dictionaries({
    "cfg": gen.sve_cfg(ext=.15, lam_min=.02, big=4)}), quick=900, cost=1)
def expansion(case, rec):
    cfg = case["cfg"]
    res = gen.sve(cfg)
    u, s, v = res
    eps = cfg["eps"] or 1e-15
    nacc = int((s >= max(eps, 1e-15) * s[0]).sum())
    rec.true(s.dtype == float and u.data.dtype == float, "result type")
    rec.true((s > 0).all() and (np.diff(s) <= 0).all(), "ordering")
    rec.true((np.diff(s[:nacc]) < 0).all(), "strictly decreasing")
    rec.true((u.xmin, u.xmax, v.xmin, v.xmax) == (-1, 1, -1, 1), "intervals")
    ext = cfg["eps"] is None or cfg["eps"] < 1e-8
    for p, name, gauge in (u, "u", True), (v, "v", False):
        check_functions(rec, p, nacc, name, 1e-11,
                        1e-6 + gen.func_tol(cfg, s / s[0]) * 100, gauge, True)
    # relative gauge of u and v: s is positive with K
    x, wx = ref.composite(u.knots, 16)
    y, wy = ref.composite(v.knots, 16)
    k = ref.kernel_value(cfg["kind"], cfg["lam"], x[:, None], y)
    d = np.einsum("lx,x,xy,y,ly->l", u(x)[:nacc], wx, k, wy, v(y)[:nacc],
                  optimize=True)
    big = s[:nacc] > 1e-9 * s[0]
    rec.close("expectation", np.abs(d - s[:nacc])[big], 1e-12 * s[0])
    rec.interesting(nacc >= 4)
    rec.label("ext" if ext else "double")


@PROP.family(st.fixed_dictionaries({
    "cfg": gen.basis_cfg(ext=.1, big=4)}), quick=500, cost=1)
def physical(case, rec):
    b = gen.basis(case["cfg"])
    n = b.size
    beta, wmax = case["cfg"]["beta"], case["cfg"]["wmax"]
    rec.true((b.s > 0).all() and (np.diff(b.s) < 0).all(), "ordering")
    rec.close("interval", [abs(b.u.xmin), abs(b.u.xmax - beta) / beta,
                           abs(b.v.xmin + wmax) / wmax,
                           abs(b.v.xmax - wmax) / wmax], 1e-15)
    cont = 1e-6 + gen.func_tol(case["cfg"], b.s / b.s[0]) * 100
    check_functions(rec, b.u, n, "u", 1e-11, cont, True, False)
    check_functions(rec, b.v, n, "v", 1e-11, cont, False, False)
    rec.interesting(n >= 4)
