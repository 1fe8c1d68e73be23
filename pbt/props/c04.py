"""C04: bases in physical units are rescalings of the dimensionless expansion"""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Property

si = gen.si
PROP = Property(
    "C04",
    "Random β, ωmax, eps, statistics and kernel; reconstruction of "
    "exp(-τω)/(1+exp(-βω)) or its regularised bosonic analogue in physical "
    "units, comparison with the dimensionless expansion, with bases of equal "
    "Λ and along random chains of rescalings. Non-trivial: wmax and beta "
    "both differ from 1 and at least 4 functions.",
    ["KNOWN-FINDING regbose-scale: singular values of the regularised Bose "
     "kernel carry wmax^-1 where the kernel in physical units needs wmax^+1; "
     "exactly this factor is recognised, any other deviation is reported."])

FRAC = st.lists(gen.unit_points(), min_size=1, max_size=8)
BETAS = st.one_of(st.sampled_from([1.0, 2.0, 10.0, 0.5, 1e3]),
                  gen.loguniform(1e-4, 1e6))


def phys_points(b, fx, fy):
    beta, wmax = b.beta, b.wmax
    tau = np.clip(beta * .5 * (1 + np.asarray(fx)), 0, b.u.xmax)
    om = np.clip(wmax * np.asarray(fy), b.v.xmin, b.v.xmax)
    return tau, om


@PROP.family(st.fixed_dictionaries({
    "cfg": gen.basis_cfg(ext=.15, huge=True, big=4), "x": FRAC, "y": FRAC}), quick=900)
def reconstruct(case, rec):
    c = case["cfg"]
    b = gen.basis(c)
    beta, wmax = c["beta"], c["wmax"]
    lam = beta * wmax
    rec.true(b.statistics == c["stat"], "statistics")
    rec.close("parameters", [abs(b.beta - beta) / beta,
                             abs(b.wmax - wmax) / wmax,
                             abs(b.lambda_ - lam) / lam,
                             abs(b.kernel.lambda_ - lam) / lam], 4e-16)
    fx = np.hstack([case["x"], np.linspace(-1, 1, 41)])
    fy = np.hstack([case["y"], np.linspace(-1, 1, 41)])
    tau, om = phys_points(b, fx, fy)
    k = ref.kernel_phys(c["kind"], beta, tau[:, None], om)
    ut, vo = b.u(tau), b.v(om)
    got = (ut.T * b.s) @ vo

    # The expansion of the dimensionless kernel up to the accuracy
    full = b.sve_result
    n = b.size
    rec.true(n == (full.s >= (c["eps"] or full.eps) * full.s[0]).sum(), "size")
    tail = (full.s * np.abs(full.u(np.clip(fx, -1, 1))).max(1)
            * np.abs(full.v(np.clip(fy, -1, 1))).max(1))[n:].sum()
    kd = ref.kernel_value(c["kind"], lam, fx[:, None], fy)
    scale = np.abs(k).max() / np.abs(kd).max()
    if c["kind"] == "bose":
        scale = wmax
    tol = (1.1 * tail + 1e-10 * (1 + lam / 1e4) * np.abs(kd).max()) * scale
    if c["kind"] == "bose":
        ok = (np.abs(got - k) <= tol).all()
        if not ok:
            rec.close("known scale", np.abs(got * wmax**2 - k),
                      tol)
            rec.known("regbose-scale", "wmax=%g" % wmax)
            rec.label("regbose-scale")
    else:
        rec.close("physical kernel", np.abs(got - k), tol)

    # Relation to dimensionless functions
    d = ut - np.sqrt(2 / beta) * full.u(fx)[:n]
    ftol = 10 * gen.func_tol(c, full.s[:n] / full.s[0])[:, None]
    rec.close("u", np.abs(d) / np.abs(ut).max(1)[:, None], ftol)
    d = vo - full.v(fy)[:n] / np.sqrt(wmax)
    rec.close("v", np.abs(d) / np.abs(vo).max(1)[:, None], ftol)
    rec.close("significance", np.abs(b.significance - full.s[:n] / full.s[0]),
              1e-14)
    rec.true(b.significance.shape == (n,), "shape of significance")
    nxt = full.s[n] if full.s.size > n else full.s[n - 1]
    rec.close("accuracy", abs(b.accuracy - nxt / full.s[0])
              / (nxt / full.s[0]), 1e-12)
    rec.true(b.shape == (n,) == b.u.shape == b.v.shape == b.uhat.shape
             == b.s.shape, "shapes")
    rec.interesting(n >= 4 and beta != 1 and wmax != 1)
    rec.label(c["kind"] + c["stat"])


def same(rec, a, b, name, tol=1e-10):
    """Two bases at possibly different temperature, same cutoff"""
    f = np.sqrt(a.beta / b.beta)
    rec.true(a.size == b.size, lambda: "%s: size %d, %d" % (name, a.size, b.size))
    t = np.linspace(0, 1, 23)
    ua = a.u(np.minimum(a.beta * t, a.u.xmax))
    ub = b.u(np.minimum(b.beta * t, b.u.xmax))
    sc = np.abs(ua).max()
    rec.close(name + " u", np.abs(f * ua - ub) / (f * sc), tol)
    y = np.linspace(-1, 1, 23)
    va = a.v(np.clip(y * a.wmax, a.v.xmin, a.v.xmax)) * np.sqrt(a.wmax)
    vb = b.v(np.clip(y * b.wmax, b.v.xmin, b.v.xmax)) * np.sqrt(b.wmax)
    rec.close(name + " v", np.abs(va - vb) / np.abs(va).max(), tol)
    z = 1 if a.statistics == "F" else 0
    n = np.array([z, 2 + z, -2 + z, 10 + z, 100 + z, 12345678 + z,
                  -12345678 - z])
    ha, hb = a.uhat(n), b.uhat(n)
    rec.close(name + " uhat", np.abs(ha / f - hb)
              / np.abs(hb).max(0), tol)
    rec.close(name + " significance", np.abs(a.significance - b.significance)
              / a.significance, tol)
    rec.close(name + " accuracy", abs(a.accuracy / b.accuracy - 1), tol)
    rec.close(name + " tau", np.abs(
        a.default_tau_sampling_points() / a.beta
        - b.default_tau_sampling_points() / b.beta), tol)
    rec.close(name + " omega", np.abs(
        a.default_omega_sampling_points() / a.wmax
        - b.default_omega_sampling_points() / b.wmax), tol)
    rec.true(np.array_equal(a.default_matsubara_sampling_points(),
                            b.default_matsubara_sampling_points()),
             name + " sampling frequencies")


@PROP.family(st.fixed_dictionaries({
    "cfg": gen.basis_cfg(ext=.1, big=4), "betas": st.lists(BETAS, min_size=1,
                                                     max_size=4),
    "max_size": st.one_of(st.none(), st.integers(1, 25))}), quick=450)
def rescale(case, rec):
    c = case["cfg"]
    b0 = gen.basis(c)
    if case["max_size"] is not None:
        b0 = b0[:case["max_size"]]
        if case["max_size"] < b0.size:
            rec.true(False, "slice too long")
    lam = c["beta"] * c["wmax"]
    b = b0
    for beta in case["betas"]:
        b = b.rescale(beta)
        rec.close("beta", abs(b.beta / beta - 1), 1e-15)
        rec.close("lambda", abs(b.lambda_ / lam - 1), 1e-15)
        rec.close("wmax", abs(b.wmax * beta / lam - 1), 1e-15)
        rec.true(b.statistics == c["stat"], "statistics")
        same(rec, b0, b, "chain")
    direct = si.FiniteTempBasis(
        c["stat"], b.beta, b.wmax, c["eps"], max_size=case["max_size"],
        kernel=b0.kernel, sve_result=b0.sve_result)
    same(rec, direct, b, "direct", 1e-13)
    pw = -1 if c["kind"] == "bose" else 0
    fac = np.sqrt(b.beta * b.wmax / b0.beta / b0.wmax) * (b.wmax / b0.wmax)**pw
    if c["kind"] == "bose" and not np.allclose(b.s, b0.s * fac, rtol=1e-12):
        fac *= (b.wmax / b0.wmax)**2
    rec.close("s", np.abs(b.s / (b0.s * fac) - 1), 1e-11)
    rec.interesting(b.size >= 4)


class Scaled(si.LogisticKernel):
    """Logistic kernel times a power of frequency in physical units"""
    def __init__(self, lam, power, radius):
        super().__init__(lam)
        self._power, self._radius = power, radius

    @property
    def ypower(self):
        return self._power

    @property
    def conv_radius(self):
        return self._radius


@PROP.family(st.fixed_dictionaries({
    "cfg": gen.basis_cfg(ext=0, lam_max=1e3, kinds=st.just("log")),
    "power": st.integers(-2, 3), "radius": gen.loguniform(20, 200),
    "size": st.one_of(st.none(), st.integers(1, 12)),
    "betas": st.lists(BETAS, min_size=1, max_size=3)}), quick=250)
def powers(case, rec):
    """Kernels of the user which scale with a power of the frequency"""
    c, p = case["cfg"], case["power"]
    lam = c["beta"] * c["wmax"]
    kern = Scaled(lam, p, case["radius"] * lam)
    a = gen.basis(c)
    if case["size"] is not None and case["size"] < a.size:
        a = a[:case["size"]]
    b = si.FiniteTempBasis(c["stat"], c["beta"], c["wmax"], c["eps"],
                           max_size=case["size"], kernel=kern)
    rec.true(b.kernel is kern, "kernel")
    same(rec, a, b, "power", 1e-5)
    ratio = b.s / a.s
    # known finding, the sign of the power
    known = np.allclose(ratio, b.wmax**-p, rtol=1e-5, atol=0)
    sign = -p if known else p
    rec.close("s", np.abs(ratio / b.wmax**sign - 1), 1e-5)
    if known and p and abs(np.log(b.wmax)) > 1e-3:
        rec.known("regbose-scale", "power %d" % p)
    for beta in case["betas"]:
        d = b.rescale(beta)
        rec.true(d.kernel.ypower == p, "power after scaling")
        same(rec, b, d, "scaled")
        fac = np.sqrt(d.beta * d.wmax / b.beta / b.wmax) * (
            d.wmax / b.wmax)**sign
        rec.close("scaled s", np.abs(d.s / (fac * b.s) - 1), 1e-11)
    rec.interesting(p != 0 and b.size > 3)


@PROP.family(st.fixed_dictionaries({
    "cfg": gen.basis_cfg(ext=0, lam_max=1e3), "beta": BETAS}), quick=250)
def only_lambda(case, rec):
    """Independently built bases at equal cutoff"""
    c = dict(case["cfg"])
    a = gen.basis(c)
    c["wmax"] = c["beta"] * c["wmax"] / case["beta"]
    c["beta"] = case["beta"]
    rel = a.sve_result.s / a.sve_result.s[0] / c["eps"]
    if (np.abs(rel - 1) < 1e-6).any():
        rec.label("borderline")
        return
    b = gen.make_basis(c)
    # rounding of beta * wmax is amplified by the inverse singular values
    same(rec, a, b, "equal lambda", 1e-5)
    rec.interesting(a.size >= 4)
