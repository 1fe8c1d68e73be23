"""C24: solver options change the cost of an expansion, not its result"""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Property

si = gen.si
sve = si.sve
PROP = Property(
    "C24",
    "Random kernel (built-in or user-defined, with or without symmetry, on "
    "generated intervals and segments) and random options; result compared "
    "with an independent Gauss quadrature of the kernel formula. Non-trivial: "
    "at least 3 terms and an option differing from its default.",
    ["Functions are compared up to rounding over the gap between singular "
     "values.", "Singular values next to a cutoff may fall on either side of "
     "it."])

STRATS = {None: None, "sampling": sve.SamplingSVE, "centro": sve.CentrosymmSVE}
SVD = st.sampled_from([None, None, "fast", "default", "accurate"])
WORK = {None: None, "float": float, "float32": np.float32,
        "ddouble": ref.DD}

OPTS = {
    "sve_strat": st.sampled_from([None, "sampling", "centro"]),
    "svd_strat": SVD,
    "more": st.one_of(st.none(), st.integers(0, 7), st.integers(0, 7),
                      st.integers(8, 40)),
    "dtype": st.sampled_from(["float", "float", "float32"]),
    "logcut": st.one_of(st.none(), st.floats(-11, -.5).map(gen.cround)),
    "n_sv": st.one_of(st.none(), st.integers(1, 30))}


def options(c, kern, ngauss):
    """Keyword arguments for compute"""
    kw = {}
    for k in "sve_strat", "svd_strat", "n_sv":
        if c[k] is not None:
            kw[k] = c[k] if k != "sve_strat" else STRATS[c[k]]
    if c["more"] is not None:
        kw["n_gauss"] = ngauss + c["more"]
    if c["dtype"] != "float":
        kw["dtype"] = np.float32
    if c["work"] is not None:
        kw["work_dtype"] = WORK[c["work"]]
    if c["logcut"] is not None:
        kw["cutoff"] = 10.0**c["logcut"]
    return kw


def gaps(s):
    """Distance of each singular value from its neighbours"""
    d = -np.diff(np.hstack([s, 0]))
    return np.maximum(np.minimum(d, np.hstack([np.inf, d[:-1]])), 1e-18 * s[0])


def check_count(rec, c, n, sref, noise):
    cut = 10.0**c["logcut"] if c["logcut"] is not None else noise
    lo = int((sref > (cut * (1 + 1e-5) + noise) * sref[0]).sum())
    hi = int((sref > (cut * (1 - 1e-5) - noise) * sref[0]).sum())
    if c["logcut"] is None or cut < 3 * noise:
        hi = 10**6                      # numerical rank is not claimed
    if c["n_sv"] is not None:
        lo, hi = min(lo, c["n_sv"]), min(hi, c["n_sv"])
        if c["n_sv"] < sref.size:
            # values equal within rounding are kept or dropped together
            same = sref[c["n_sv"]] + noise * sref[0]
            lo = min(lo, int((sref > same).sum()))
        rec.label("limited by n_sv" if lo == c["n_sv"] else "n_sv too large")
    rec.true(lo <= n <= hi, "%d terms, expected %d to %d" % (n, lo, hi))


def align(a, aref, w, tol, rec, name):
    """Compare functions with rows on the same points, up to signs"""
    sg = np.sign((a * w) @ aref.T).diagonal()
    err = np.abs(sg[:, None] * a - aref).max(1) / np.abs(aref).max(1)
    rec.close(name, err, tol)
    return sg


# --------------------------------------------------------------------------
# kernels of the library

def functions_ref(kind, lam):
    """Singular functions on a quadrature grid, good to 1e-15 * s[0] / gap"""
    x, wx = ref.composite(ref.edges_x(lam), 18)
    y, wy = ref.composite(ref.edges_y(lam), 18)
    kp = ref.kernel_value(kind, lam, x[:, None], y)
    km = ref.kernel_value(kind, lam, x[:, None], -y)
    sc = np.sqrt(wx)[:, None] * np.sqrt(wy)
    s, par, u, v = [], [], [], []
    for sg in 1, -1:
        ui, si_, vi = np.linalg.svd((kp + sg * km) * sc, full_matrices=False)
        s.append(si_)
        par.append(np.full(si_.size, sg))
        u.append(ui.T / np.sqrt(2 * wx))
        v.append(vi / np.sqrt(2 * wy))
    s, par = np.hstack(s), np.hstack(par)
    u, v = np.vstack(u), np.vstack(v)
    o = np.argsort(s)[::-1]
    return s[o], par[o], x, wx, u[o], y, wy, v[o]


@st.composite
def builtin_cfg(draw):
    c = {"kind": draw(gen.KINDS), "eps": draw(gen.eps_double()),
         **{k: draw(v) for k, v in OPTS.items()}}
    c["work"] = draw(st.sampled_from([None] * 4 + ["float"] * 4 + ["float32"]))
    c["lam"] = draw(gen.lam(.05, 3e3 if c["svd_strat"] == "accurate" else 3e4))
    if c["svd_strat"] == "accurate" and c["sve_strat"] == "sampling":
        c["lam"] = min(c["lam"], 300.)
    if c["sve_strat"] == "sampling" or (c["more"] or 0) > 7:
        c["lam"] = min(c["lam"], 1e3)
    if (c["more"] or 0) > 7 and (c["svd_strat"] == "accurate"
                                 or c["sve_strat"] == "sampling"):
        c["lam"] = min(c["lam"], 30.)
    if c["work"] == "float32":
        c["more"] = None if c["more"] is None else min(c["more"], 7)
        if c["logcut"] is not None:
            c["logcut"] = max(c["logcut"], -5.5)
    elif c["svd_strat"] != "accurate" and draw(st.integers(0, 7)) == 7:
        c["logcut"] = -999.             # zero
    return c


def check_builtin(case, rec):
    kind, lam = case["kind"], case["lam"]
    kern = gen.kernel_of(kind, lam)
    ext = case["work"] == "ddouble"
    single = case["work"] == "float32"
    hint_eps = case["eps"] if ext or single else 1e-8
    ngauss = kern.sve_hints(hint_eps).ngauss
    if ext:
        ngauss = 18
    kw = options(case, kern, ngauss)
    res = si.compute_sve(kern, case["eps"], **kw)
    u, s, v = res
    rec.true(res.K is kern, "kernel remembered")
    rec.true(u.shape == s.shape == v.shape, "consistent shapes")
    if case["more"] is not None:
        rec.true(u.polyorder == v.polyorder == kw["n_gauss"], lambda:
                 "n_gauss=%d gives order %d" % (kw["n_gauss"], u.polyorder))
    if kw.get("cutoff") == 0:
        tiny = si.compute_sve(kern, case["eps"], **dict(kw, cutoff=1e-300))
        rec.true(tiny.s.size == s.size, lambda: "%d terms, with cutoff zero %d"
                 % (tiny.s.size, s.size))
        rec.label("no cutoff")
    sref, par, x, wx, uref, y, wy, vref = functions_ref(kind, lam)
    noise = 3e-6 if single else 1e-13
    check_count(rec, case, s.size, sref, noise)
    n = min(s.size, sref.size)
    u, s, v = u[:n], s[:n], v[:n]
    rec.label("work %s" % case["work"])
    rec.label("svd %s" % case["svd_strat"])
    rec.label("sve %s" % case["sve_strat"])
    rec.interesting(n >= 3 and len(kw) > 0)
    rnd = 3e-7 if case["dtype"] == "float32" else 0
    # the discretisation error is of the order of eps at most
    rec.close("values", np.abs(s.astype(float) - sref[:n]),
              (5e-6 if single else 1e-12) * sref[0] + rnd * sref[:n])
    rec.true((np.diff(s) <= 0).all() and (s > 0).all(), "order")
    if case["dtype"] == "float32":
        rec.true(s.dtype == np.float32, lambda: "type %s" % s.dtype)
    if n == 0:
        return
    # functions up to accuracy determined by gap
    g = (gaps(sref) / sref[0])[:n]
    tol = gen.func_tol({"kind": kind, "lam": lam, "eps": 1e-8}, g)
    if single:
        tol = 1e-4 + 1e-5 * (1 + lam / 1e2) / g
    tol = 100 * rnd * (1 + lam / 50) + tol   # knots are rounded, too
    ok = tol < .1
    if case["dtype"] == "float32":
        ok &= g * sref[0] > 3e-7 * sref[:n]     # otherwise equal values
    # even and odd functions from the formula
    sc = np.sqrt(2 * wx), np.sqrt(2 * wy)
    for xx in x, -x:
        pu = np.where(xx[0] > 0, 1, par[:n])[:, None] * uref[:n]
        pv = np.where(xx[0] > 0, 1, par[:n])[:, None] * vref[:n]
        pos = xx[0] > 0
        su = align(u(xx)[ok], pu[ok], wx, tol[ok], rec,
                   "u" if pos else "u(-x)")
        sv = align(v(y if pos else -y)[ok], pv[ok], wy, tol[ok], rec,
                   "v" if pos else "v(-y)")
        if pos:
            su0, sv0 = su, sv
        else:
            rec.true((su == su0).all() and (sv == sv0).all(), "parity")
    # signs of the reference are arbitrary, but not relative to each other
    rec.true((su0 * sv0 > 0).all(), "relative sign of u and v")
    rec.true((u(1.0)[ok] > 0).all(), "u(1) > 0")
    del sc
    return u, s, v


@PROP.family(builtin_cfg(), quick=640, cost=1)
def builtin(case, rec):
    check_builtin(case, rec)


@st.composite
def extended_cfg(draw):
    c = {"kind": draw(gen.KINDS), "eps": draw(gen.eps_double()),
         **{k: draw(v) for k, v in OPTS.items()}}
    c["work"] = "ddouble"
    c["more"] = draw(st.integers(0, 4))
    c["svd_strat"] = draw(st.sampled_from([None, "fast"]))
    c["sve_strat"] = draw(st.sampled_from([None, "centro"]))
    c["lam"] = draw(gen.lam(.1, 20.))
    return c


@PROP.family(extended_cfg(), quick=100, thorough=2000, cost=3)
def extended(case, rec):
    check_builtin(case, rec)


@PROP.family(st.fixed_dictionaries({
    "kind": gen.KINDS, "lam": gen.lam(.5, 3e3), "eps": gen.eps_double(),
    "stat": st.sampled_from("FB"), "beta": gen.loguniform(.1, 100.),
    "n": st.lists(st.integers(-300, 300), min_size=1, max_size=6)}),
    quick=220, cost=1)
def basis(case, rec):
    """Bases from expansions which do not make use of symmetry"""
    kind, lam, beta = case["kind"], case["lam"], case["beta"]
    stat = "B" if kind == "bose" else case["stat"]
    kern = gen.kernel_of(kind, lam)
    eps = max(case["eps"], 1e-6)
    a, b = (si.FiniteTempBasis(
        stat, beta, lam / beta, eps, kernel=gen.kernel_of(kind, beta * (lam / beta)),
        sve_result=si.compute_sve(kern, case["eps"], sve_strat=k))
        for k in (sve.SamplingSVE, None))
    if a.size != b.size:
        # only if a singular value is just at the accuracy
        r = b.sve_result.s / b.sve_result.s[0]
        rec.true(np.abs(r / eps - 1).min() < 1e-6,
                 "%d and %d functions" % (a.size, b.size))
        return
    rec.interesting(a.size >= 3)
    tol = gen.func_tol({"kind": kind, "lam": lam, "eps": 1e-8},
                       gaps(b.sve_result.s / b.sve_result.s[0])[:a.size])
    rec.close("s", np.abs(a.s - b.s), 1e-12 * b.s[0])
    rec.close("accuracy", abs(a.accuracy - b.accuracy), 1e-11)
    tau = beta * np.linspace(0, 1, 53)
    sc = np.abs(b.u(tau)).max(1)
    rec.close("u", np.abs(a.u(tau) - b.u(tau)).max(1), tol * sc)
    # frequencies: even and odd functions
    n = 2 * np.array(case["n"]) + (stat == "F")
    rec.close("uhat", np.abs(a.uhat(n) - b.uhat(n)).max(1),
              tol * sc * beta)
    t = tol.max()
    big = b.sve_result.s[a.size:]
    if t < 1e-6 and big.size and big[0] > 1e-9 * b.sve_result.s[0]:
        p, q = a.default_tau_sampling_points(), b.default_tau_sampling_points()
        rec.true(p.shape == q.shape, "%d and %d points" % (p.size, q.size))
        rec.close("points", np.abs(p - q), 1e-4 * beta)
        p, q = a.default_omega_sampling_points(), b.default_omega_sampling_points()
        rec.true(p.shape == q.shape, "%d and %d omega" % (p.size, q.size))
        rec.close("omega points", np.abs(p - q) * beta / lam, 1e-4)


# --------------------------------------------------------------------------
# user-defined kernels

def custom_ref(kern, hints_eps, nq=26):
    """Independent discretisation of a user-defined kernel"""
    (xa, xb), (ya, yb) = kern.xrange, kern.yrange
    x, wx = ref.composite(np.linspace(xa, xb, 8), nq)
    y, wy = ref.composite(np.linspace(ya, yb, 8), nq)
    k = kern.formula(x[:, None], y)
    u, s, v = np.linalg.svd(np.sqrt(wx)[:, None] * k * np.sqrt(wy),
                            full_matrices=False)
    return s, x, wx, u.T / np.sqrt(wx), y, wy, v / np.sqrt(wy)


@st.composite
def custom_cfg(draw):
    c = {"k": draw(gen.custom_kernel_cfg()), "eps": draw(gen.eps_double()),
         **{k: draw(v) for k, v in OPTS.items()}}
    c["work"] = draw(st.sampled_from([None] * 6 + ["float"] * 6 + ["float32"]))
    if not c["k"]["symm"] and c["sve_strat"] == "centro":
        c["sve_strat"] = None
    if c["work"] == "float32":
        c["more"] = None if c["more"] is None else min(c["more"], 7)
        if c["logcut"] is not None:
            c["logcut"] = max(c["logcut"], -5.5)
    if c["k"]["form"] == "cauchy":
        # otherwise not resolved to rounding by 14 nodes on long segments
        c["k"] = {**c["k"], "strength": min(c["k"]["strength"], .5)}
    return c


def check_custom(case, rec):
    kern = gen.CustomKernel(case["k"])
    kw = options(case, kern, case["k"]["ngauss"])
    res = si.compute_sve(kern, case["eps"], **kw)
    u, s, v = res
    rec.true(res.K is kern, "kernel remembered")
    rec.true(u.shape == s.shape == v.shape, "consistent shapes")
    if case["more"] is not None:
        rec.true(u.polyorder == v.polyorder == kw["n_gauss"], lambda:
                 "n_gauss=%d gives order %d" % (kw["n_gauss"], u.polyorder))
    float32 = case["dtype"] == "float32" or case["work"] == "float32"
    for f, r, name in (u, kern.xrange, "u"), (v, kern.yrange, "v"):
        rec.true((f.xmin, f.xmax) == tuple(r) or float32 and
                 (f.xmin, f.xmax) == tuple(map(np.float32, r)),
                 "interval of " + name)
    single = case["work"] == "float32"
    sref, x, wx, uref, y, wy, vref = custom_ref(kern, case["eps"])
    sref = np.maximum(sref, 1e-17 * sref[0])
    noise = 3e-6 if single else 1e-13
    check_count(rec, case, s.size, sref, noise)
    n = min(s.size, sref.size)
    u, s, v = u[:n], s[:n], v[:n]
    rec.label("work %s" % case["work"])
    rec.label("sve %s" % case["sve_strat"])
    rec.label("svd %s" % case["svd_strat"])
    rec.label(case["k"]["form"])
    rec.interesting(n >= 3 and len(kw) > 0)
    rnd = 3e-7 if case["dtype"] == "float32" else 0
    rec.close("values", np.abs(s.astype(float) - sref[:n]),
              (5e-6 if single else 1e-11) * sref[0] + rnd * sref[:n])
    rec.true((np.diff(s) <= 0).all() and (s > 0).all(), "order")
    if n == 0:
        return
    g = (gaps(sref) / sref[0])[:n]
    tol = (1e-9 + 1e-11 / g) * (20 if case["k"]["form"] == "cauchy" else 4)
    if single:
        tol = 1e-4 + 1e-5 / g
    tol = tol + 100 * rnd
    ok = tol < .1
    if case["dtype"] == "float32":
        ok &= g * sref[0] > 3e-7 * sref[:n]     # otherwise equal values
    # knots move by rounding in single precision
    x = np.clip(x, u.xmin, u.xmax)
    y = np.clip(y, v.xmin, v.xmax)
    su = align(u(x)[ok], uref[:n][ok], wx, tol[ok], rec, "u")
    sv = align(v(y)[ok], vref[:n][ok], wy, tol[ok], rec, "v")
    rec.true((su * sv > 0).all(), "relative sign of u and v")
    rec.true((u(u.xmax)[ok] > 0).all(), "u(xmax) > 0")
    # orthonormality of what is returned
    if not single and not rnd:
        x, wx = ref.composite(u.knots, 20 + max(case["more"] or 0, 0))
        y, wy = ref.composite(v.knots, 20 + max(case["more"] or 0, 0))
        ux, vy = u(x), v(y)
        rec.close("u orthonormal", np.abs((ux * wx) @ ux.T - np.eye(n)), 1e-11)
        rec.close("v orthonormal", np.abs((vy * wy) @ vy.T - np.eye(n)), 1e-11)


@PROP.family(custom_cfg(), quick=900, cost=.6)
def custom(case, rec):
    check_custom(case, rec)


@st.composite
def custom_ext_cfg(draw):
    c = draw(custom_cfg())
    c["k"] = {**c["k"], "ngauss": draw(st.integers(8, 10)), "nseg": 4,
              "symm": draw(st.booleans()),
              "form": draw(st.sampled_from(["exp", "gauss"]))}
    if not c["k"]["symm"]:
        iv = st.floats(-1, 0).map(gen.cround)
        c["k"]["xr"] = [draw(iv), 1.0]
        c["k"]["yr"] = [draw(iv), 1.25]
        c["sve_strat"] = None
    c["work"], c["svd_strat"], c["more"] = "ddouble", None, 6
    c["eps"] = draw(st.sampled_from([1e-6, 1e-8, 1e-12, None]))
    return c


@PROP.family(custom_ext_cfg(), quick=100, thorough=2000, cost=2)
def custom_extended(case, rec):
    check_custom(case, rec)


@PROP.family(st.fixed_dictionaries({
    "k": gen.custom_kernel_cfg().map(lambda c: {**c, "symm": True,
                                                "half": [1.0, 1.0]}),
    "eps": gen.loguniform(1e-7, 1e-2), "beta": gen.loguniform(.1, 100.),
    "lam": gen.loguniform(.5, 50.), "stat": st.sampled_from("FB"),
    "conv": st.floats(20, 400).map(gen.cround),
    "yp": st.integers(0, 2), "seed": gen.SEED}), quick=250, cost=1)
def custom_basis(case, rec):
    """Basis in physical units for a kernel of one's own"""
    class Kernel(gen.CustomKernel):
        conv_radius = case["conv"]
        ypower = case["yp"]

    kern = Kernel(case["k"])
    beta, wmax = case["beta"], case["lam"] / case["beta"]
    b = si.FiniteTempBasis(case["stat"], beta, wmax, case["eps"], kernel=kern)
    sref, x, wx, uref, y, wy, vref = custom_ref(kern, case["eps"])
    lo = int((sref > case["eps"] * (1 + 1e-5) * sref[0]).sum())
    hi = int((sref > case["eps"] * (1 - 1e-5) * sref[0]).sum())
    n = b.size
    rec.true(lo <= n <= hi, "%d functions, expected %d to %d" % (n, lo, hi))
    rec.interesting(n >= 3)
    rec.true(b.kernel is kern, "kernel")
    rec.close("significance", np.abs(b.significance - sref[:n] / sref[0]), 1e-11)
    if hi == lo:
        rec.close("accuracy", abs(b.accuracy - sref[n] / sref[0]), 1e-11)
    g = (gaps(sref) / sref[0])[:n]
    tol = 1e-8 + 3e-10 / g
    su = align(b.u(np.clip(beta / 2 * (x + 1), 0, beta)) * np.sqrt(beta / 2),
               uref[:n], wx, tol, rec, "u")
    sv = align(b.v(np.clip(wmax * y, -wmax, wmax)) * np.sqrt(wmax),
               vref[:n], wy, tol, rec, "v")
    rec.true((su * sv > 0).all(), "relative sign")
    # Fourier transform below the announced start of the asymptotics
    r = gen.rng(case["seed"])
    m = int(case["conv"] / 2) - 1
    freq = 2 * r.integers(-m, m, 5) + (case["stat"] == "F")
    c = ref.leg_coeffs(b.sve_result.u[:n], b.sve_result.u.polyorder)
    want = ref.fourier(c, b.sve_result.u.knots, freq) * np.sqrt(beta / 2)
    rec.close("uhat", np.abs(b.uhat(freq) - want).max(1),
              1e-11 * np.sqrt(beta) * (1 + 0 * tol))
