"""C06: any propagator with bounded spectrum is represented accurately"""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Property

si = gen.si
PROP = Property(
    "C06",
    "Random bases, and random spectral functions: sums of up to 6 poles "
    "(anywhere incl. edges and zero, real or complex weights) or continuous "
    "shapes; expansion coefficients by the documented formula, and by fits; "
    "propagators computed independently on all of [0, β] and at Matsubara "
    "frequencies. Non-trivial: two or more poles, or a continuous spectrum.",
    ["Bound: sum over discarded terms of s_l max|u_l| |∫ v_l ρ|, plus "
     "rounding of the working precision.",
     "KNOWN-FINDING regbose-scale as for C04."])


def noise(c):
    lam = c["beta"] * c["wmax"]
    if gen.is_ext(c):
        return 1e-12 * (1 + lam / 300)
    if c["kind"] == "log" and .5 < lam < 2.2:
        return 1e-10
    return 1e-11 * (1 + lam / 1e4)


def propagator_kernel(stat, beta, tau, om):
    """exp(-τω)/(1 ± exp(-βω))"""
    k = ref.kernel_phys("log" if stat == "F" else "bose", beta, tau, om)
    return k if stat == "F" else k / om


@st.composite
def spectrum(draw, bosonic):
    if draw(st.integers(0, 9)) < 6:
        n = draw(st.integers(1, 6))
        pos = draw(st.lists(gen.unit_points(), min_size=n, max_size=n))
        if bosonic:
            pos = [p if abs(p) > 1e-3 else .37 for p in pos]
        cplx = draw(st.booleans())
        w = draw(st.lists(st.tuples(
            st.floats(-1, 1).map(gen.cround),
            st.floats(-1, 1).map(gen.cround) if cplx else st.just(0.0)),
            min_size=n, max_size=n))
        return {"type": "poles", "pos": pos, "w": [list(t) for t in w]}
    kind = draw(st.sampled_from(["semicircle", "box", "triangle", "gauss",
                                 "cheb", "odd"]))
    a = draw(st.floats(-1, .8).map(gen.cround))
    b = draw(st.floats(.05, 1).map(gen.cround))
    return {"type": "cont", "shape": kind, "lo": a, "hi": min(1.0, a + b)}


@st.composite
def case_strategy(draw):
    c = draw(gen.basis_cfg(ext=.15, huge=True, lam_max=3e4, big=4))
    z = {"F": 1, "B": 0}[c["stat"]]
    n = draw(st.lists(st.one_of(st.integers(-20, 20), st.integers(-3000, 3000),
                                st.integers(-10**6, 10**6)),
                      min_size=1, max_size=8))
    return {"cfg": c, "rho": draw(spectrum(c["stat"] == "B")),
            "tau": draw(st.lists(gen.unit_points(), min_size=1, max_size=6)),
            "n": [2 * k + z for k in n]}


def discretise(c, rho):
    """Points and (weighted) spectral density in units of wmax"""
    if rho["type"] == "poles":
        y = np.array(rho["pos"])
        w = np.array([complex(*t) for t in rho["w"]])
        return y, (w if w.imag.any() else w.real)
    lo, hi = rho["lo"], rho["hi"]
    lam = c["beta"] * c["wmax"]
    e = ref.full(ref.edges_y(lam))
    e = np.unique(np.hstack([lo, hi, .5 * (lo + hi), e[(e > lo) & (e < hi)]]))
    y, w = ref.composite(e, 24)
    t = (2 * y - lo - hi) / (hi - lo)
    if rho["shape"] == "semicircle":
        f = np.sqrt(np.maximum(0, 1 - t**2))
    elif rho["shape"] == "box":
        f = np.ones_like(t)
    elif rho["shape"] == "triangle":
        f = 1 - np.abs(t)
    elif rho["shape"] == "gauss":
        f = np.exp(-4 * t**2)
    elif rho["shape"] == "cheb":
        f = np.cos(5 * np.arccos(np.clip(t, -1, 1)))
    else:
        f = t * np.abs(t)
    w = w * f
    if c["stat"] == "B":            # spectrum vanishing at zero
        w = w * y
    return y, w


@PROP.family(case_strategy(), quick=1600)
def represent(case, rec):
    c = case["cfg"]
    b = gen.basis(c)
    beta, wmax, stat = c["beta"], c["wmax"], c["stat"]
    y, a = discretise(c, case["rho"])
    om = np.clip(y * wmax, b.v.xmin, b.v.xmax)
    wfun = b.kernel.weight_func(stat)
    if stat == "F":
        wa = a * wfun(y)
        rec.close("fermionic weight", np.abs(wa - a), 0)
    elif c["kind"] == "log":
        wa = a * wfun(y)
    else:
        wa = a / om
        rec.close("bosonic weight", np.abs(a * wfun(y) / wmax - wa),
                  1e-14 * np.abs(wa))
    gl = -b.s * (b.v(om) @ wa)

    tau = np.hstack([np.linspace(0, beta, 25),
                     np.array(case["tau"]) * beta / 2 + beta / 2])
    tau = np.clip(tau, 0, b.u.xmax)
    gtau = -propagator_kernel(stat, beta, tau[:, None], om) @ a
    n = np.array(case["n"])
    iv = 1j * np.pi * n / beta
    with np.errstate(all="ignore"):
        giv = (1 / (iv[:, None] - om)) @ a

    # bound
    full = b.sve_result
    L = b.size
    sfac = {"log": 1, "bose": wmax}[c["kind"]]
    d = np.abs(full.v(np.clip(y, -1, 1)) @ wa)
    x = np.clip(2 * tau / beta - 1, -1, 1)
    umax = np.abs(full.u(np.hstack([x, np.linspace(-1, 1, 25)]))).max(1)
    tail = (full.s * umax * d)[L:].sum() * sfac
    kd = ref.kernel_value(c["kind"], beta * wmax, np.array([-1, 1.])[:, None],
                          y)
    size = (np.abs(kd).max(0) * sfac * np.abs(wa)).sum()
    tol = 1.1 * tail + noise(c) * size
    scale = 1.0
    got = b.u(tau).T @ gl
    if c["kind"] == "bose" and not (np.abs(got - gtau) <= tol).all():
        scale = wmax**2
        rec.known("regbose-scale", "wmax=%g" % wmax)
    rec.close("tau", np.abs(scale * got - gtau), tol)
    tailn = (full.s * d)[L:].sum() * sfac * beta * 1.5
    tol = tailn + noise(c) * size * beta
    rec.close("matsubara", np.abs(scale * (b.uhat(n).T @ gl) - giv), tol)
    rec.interesting(y.size >= 2)
    rec.label(c["kind"] + stat)
    rec.label(case["rho"]["type"])

    # Decay of coefficients: they are bounded by the singular values
    vmax = np.abs(b.v(np.linspace(b.v.xmin, b.v.xmax, 61))).max(1)
    vmax = np.maximum(vmax, np.abs(b.v(om)).max(1))
    rec.close("decay", np.abs(gl), b.s * vmax * np.abs(wa).sum() * (1 + 1e-12))

    # Fits to the sampled propagator
    smpl = si.TauSampling(b)
    ts = np.clip(smpl.sampling_points, 0, beta)
    g = -propagator_kernel(stat, beta, ts[:, None], om) @ a / scale
    back = smpl.fit(g)
    inv = np.linalg.norm(np.linalg.pinv(b.u(ts).T), 2)
    ferr = np.sqrt(ts.size) * (1.5 * tail + noise(c) * size) / scale
    rec.close("fit", np.abs(back - gl), inv * ferr)
    rec.close("decay of fit", np.abs(back),
              b.s * vmax * np.abs(wa).sum() + inv * ferr)
    ms = si.MatsubaraSampling(b)
    iv = 1j * np.pi * ms.wn / beta
    g = (1 / (iv[:, None] - om)) @ a / scale
    inv = 1 / np.linalg.svd(b.uhat(ms.wn).T, compute_uv=False)[-1]
    ferr = np.sqrt(ms.wn.size) * (tailn + noise(c) * size * beta) / scale
    rec.close("matsubara fit", np.abs(ms.fit(g) - gl), inv * ferr)


@PROP.family(st.fixed_dictionaries({
    "cfg": gen.basis_cfg(ext=.1, lam_max=1e3, stats="F"),
    "rho": spectrum(False)}), quick=200, cost=2)
def overlap(case, rec):
    """Coefficients from the documented b.v.overlap()"""
    c, rho = case["cfg"], case["rho"]
    if rho["type"] == "poles":
        rho = {"type": "cont", "shape": "gauss", "lo": -.7, "hi": .9}
    b = gen.basis(c)
    wmax = c["wmax"]
    y, a = discretise(c, rho)
    lo, hi = rho["lo"] * wmax, rho["hi"] * wmax

    def f(om):
        t = (2 * om - lo - hi) / (hi - lo)
        if abs(t) > 1:
            return 0.0
        return {"semicircle": max(0, 1 - t*t)**.5, "box": 1.0,
                "triangle": 1 - abs(t), "gauss": np.exp(-4 * t * t),
                "cheb": np.cos(5 * np.arccos(min(1, max(-1, t)))),
                "odd": t * abs(t)}[rho["shape"]]
    rtol = 1e-9
    pts = np.clip([lo, .5 * (lo + hi), hi], b.v.xmin, b.v.xmax)
    rhol = b.v.overlap(f, points=np.unique(pts), rtol=rtol)
    om = np.clip(y * wmax, b.v.xmin, b.v.xmax)
    want = b.v(om) @ a * wmax
    rec.close("overlap", np.abs(rhol - want),
              2e-4 * np.sqrt(wmax) if rho["shape"] in ("semicircle", "cheb")
              else 1e-7 * np.sqrt(wmax))
    rec.interesting()
