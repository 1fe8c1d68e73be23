"""C19: truncating a basis is the same as asking for a smaller one"""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Property

si = gen.si
PROP = Property(
    "C19",
    "Random expansions, and random chains of truncations (by eps, max_size, "
    "slices with open, negative, oversized and NumPy stops, part) and "
    "rescalings applied to them, against a model which merely tracks the "
    "number of leading terms; n_sv and cutoff of the solver against its "
    "result without these. Non-trivial: at least one step which discards "
    "some, but not all, terms.",
    ["If nothing is asked for (max_size=0, eps > 1), errors are accepted."])


def basis_values(b, x, n):
    tau = np.clip((np.array(x) + 1) * b.beta / 2, 0, b.u.xmax)
    om = np.clip(np.array(x) * b.wmax, b.v.xmin, b.v.xmax)
    return b.u(tau), b.v(om), b.uhat(n)


def points(b, method, **kw):
    """Points, empty if functions are too noisy (all of an expansion kept)"""
    try:
        return getattr(b, method)(**kw)
    except ValueError:
        return np.zeros(0)


def snap(x):
    """Leave out points which after scaling are on one or the other side of
    the central knot, where pieces do not match perfectly"""
    return 0.0 if abs(x) < 1e-14 else x


STOP = st.one_of(st.none(), st.integers(1, 12), st.integers(1, 60),
                 st.integers(-12, -1), st.sampled_from([10**6, 2**40]))
OP = st.one_of(
    st.fixed_dictionaries({"op": st.just("slice"), "stop": STOP,
                           "start": st.sampled_from([None, 0]),
                           "step": st.sampled_from([None, None, 1]),
                           "np": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("rescale"),
                           "beta": gen.loguniform(1e-3, 1e5)}),
    st.fixed_dictionaries({"op": st.just("again"),
                           "size": st.one_of(st.none(), st.integers(1, 60)),
                           "eps": st.one_of(st.none(), st.just(0.0),
                                            gen.loguniform(1e-17, 1.))}),
    st.fixed_dictionaries({"op": st.just("at"), "l": st.integers(0, 60),
                           "side": st.sampled_from([-1, 0, 1])}))


@PROP.family(st.fixed_dictionaries({
    "cfg": gen.basis_cfg(ext=.1, lam_max=1e4, big=4),
    "ops": st.lists(OP, min_size=1, max_size=5),
    "x": st.lists(gen.unit_points().map(snap), min_size=1, max_size=4),
    "k": st.lists(st.integers(-300, 300), min_size=1, max_size=4)}), quick=480)
def chain(case, rec):
    cfg = case["cfg"]
    b = gen.basis(cfg)
    full = b.sve_result
    s = full.s
    ratio = s / s[0]
    n = 2 * np.array(case["k"]) + (cfg["stat"] == "F")
    kernel = b.kernel
    beta = cfg["beta"]
    eps0 = full.eps
    size = int((s >= (eps0 if cfg["eps"] is None else cfg["eps"]) * s[0]).sum())
    rec.true(b.size == size, "size of basis")
    first = basis_values(b, case["x"], n)
    first_s = b.s
    for op in case["ops"]:
        kind = op["op"]
        rec.label(kind)
        if kind == "slice":
            stop = op["stop"]
            if stop is not None and op["np"] and stop < 2**31:
                stop = np.int32(stop)
            new = slice(op["start"], op["stop"]).indices(size)[1]
            if new == 0:
                continue
            b = b[slice(op["start"], stop, op["step"])]
        elif kind == "rescale":
            beta = op["beta"]
            b = b.rescale(beta)
            new = size
        elif kind == "at":
            # eps at, just above or just below relative singular value
            l = min(op["l"], s.size - 1)
            eps = float(ratio[l])
            eps *= 1 + 1e-9 * op["side"]
            if eps > 1:
                continue
            new = int((s > eps * s[0] * (1 + 1e-10 * np.sign(-op["side"]))).sum())
            lo = int((ratio > ratio[l] * (1 + 1e-12)).sum())
            hi = int((ratio >= ratio[l] * (1 - 1e-12)).sum())
            b = si.FiniteTempBasis(cfg["stat"], beta, b.wmax, eps,
                                   kernel=kernel, sve_result=full)
            if op["side"] == 0:
                rec.true(lo <= b.size <= hi, lambda: "size %d at eps, %d..%d"
                         % (b.size, lo, hi))
                new = b.size
            else:
                new = hi if op["side"] < 0 else lo
        else:
            eps = op["eps"]
            new = int((s >= (eps0 if eps is None else eps) * s[0]).sum())
            if op["size"] is not None:
                new = min(new, op["size"])
            b = si.FiniteTempBasis(cfg["stat"], beta, b.wmax, eps,
                                   max_size=op["size"], kernel=kernel,
                                   sve_result=full)
        if new < s.size:
            rec.interesting()
        size = new
        rec.true(b.size == size and b.shape == (size,) and b.s.size == size
                 and b.u.size == size and b.v.size == size
                 and b.uhat.size == size, lambda: "size after %s: %d, should "
                 "be %d" % (op, b.size, size))
        rec.true(b.statistics == cfg["stat"] and b.beta == beta
                 and b.sve_result is full and b.kernel is kernel, "metadata")
        acc = ratio[size] if size < s.size else ratio[size - 1]
        rec.close("accuracy", np.abs(b.accuracy - acc), 4e-16 * acc)
        rec.close("significance", np.abs(b.significance - ratio[:size]),
                  1e-15 * ratio[:size])
        rec.close("lambda", np.abs(b.lambda_ / cfg["beta"] / cfg["wmax"] - 1),
                  1e-15)
        # leading functions, bit for bit
        fresh = si.FiniteTempBasis(cfg["stat"], beta, b.wmax, 0, kernel=kernel,
                                   sve_result=full)
        rec.true(np.array_equal(b.s, fresh.s[:size]), "singular values")
        got = basis_values(b, case["x"], n)
        want = basis_values(fresh, case["x"], n)
        rec.true(np.array_equal(got[0], want[0][:size]), "values of u")
        rec.true(np.array_equal(got[1], want[1][:size]), "values of v")
        rec.close("values of uhat", np.abs(got[2] - want[2][:size]),
                  5e-14 * np.abs(want[2]).max())
        # same functions up to the change of units
        m = min(size, first_s.size)
        f = np.sqrt(beta / cfg["beta"])
        fw = np.sqrt(b.wmax / cfg["wmax"])
        # (rounding of points close to the ends, where functions are steep)
        for name, g, h, p in [("u", got[0] * f, first[0], full.u),
                              ("v", got[1] * fw, first[1], full.v),
                              ("uhat", got[2] / f, first[2], None)]:
            tol = 1e-12 * max(np.abs(h).max(), 1e-3 * np.abs(g).max())
            if p is not None:
                c = cfg["beta"] / 2 if name == "u" else cfg["wmax"]
                tol += (5e-15 / np.sqrt(c)
                        * np.abs(p.deriv()(np.array([0, .9, 1.]))).max())
            rec.close("rescaled " + name, np.abs(g[:m] - h[:m]), tol)
        fs = f * fw * (b.wmax / cfg["wmax"])**-kernel.ypower
        rec.close("rescaled s", np.abs(b.s[:m] - fs * first_s[:m]),
                  3e-14 * b.s[:m])
        # sampling points are those of the full basis for this number
        for mth in ("default_tau_sampling_points",
                    "default_matsubara_sampling_points",
                    "default_omega_sampling_points"):
            rec.true(np.array_equal(points(b, mth),
                                    points(fresh, mth, npoints=size)), mth)


@PROP.family(st.fixed_dictionaries({
    "cfg": gen.sve_cfg(ext=.1, lam_max=1e4, big=4),
    "eps": st.lists(st.one_of(gen.loguniform(1e-17, 1.), st.none()),
                    min_size=2, max_size=8),
    "size": st.one_of(st.none(), st.integers(1, 70)),
    "size_np": st.booleans(), "index": st.integers(0, 70),
    "x": st.lists(gen.unit_points(), min_size=1, max_size=4)}), quick=500)
def part(case, rec):
    """Parts of expansion: sizes, monotonicity, values"""
    full = gen.sve(case["cfg"])
    s = full.s
    rec.true((np.diff(s) <= 0).all() and s[-1] > 0, "singular values ordered")
    x = np.array(case["x"])
    ux, vx = full.u(x), full.v(x)
    size = case["size"]
    if size is not None and case["size_np"]:
        size = np.int64(size)
    last = None
    for eps in sorted(case["eps"], key=lambda e: full.eps if e is None else e):
        want = int((s >= (full.eps if eps is None else eps) * s[0]).sum())
        if size is not None:
            want = min(want, int(size))
        u, sp, v = full.part(eps, size)
        rec.interesting(0 < want < s.size)
        rec.true(u.size == sp.size == v.size == want, lambda: "size %d of %s, "
                 "should be %d" % (sp.size, eps, want))
        rec.true(last is None or want <= last, "monotonic")
        last = want
        rec.true(np.array_equal(sp, s[:want]) and sp.dtype == s.dtype, "s")
        rec.true(np.array_equal(u(x), ux[:want])
                 and np.array_equal(v(x), vx[:want]), "functions")
        rec.true(np.array_equal(u.symm, full.u.symm[:want])
                 and np.array_equal(v.symm, full.v.symm[:want]), "symmetry")
        if want:
            l = min(case["index"], want - 1)
            rec.true(np.array_equal(u[l](x), ux[l]), "single function")
    a, b, c = full
    rec.true(a.size == b.size == c.size == s.size, "iteration over result")


@PROP.family(st.fixed_dictionaries({
    "cfg": gen.basis_cfg(ext=.05, lam_max=300., lam_max_ext=5.),
    "how": st.sampled_from(["max_size", "slice", "negative", "eps", "part",
                            "part eps", "again", "n_sv"])}), quick=100)
def nothing(case, rec):
    """If nothing is asked for, then there is no result, or an empty one"""
    b = gen.basis(case["cfg"])
    how = case["how"]
    rec.interesting()
    rec.label(how)

    def again(**kw):
        return si.FiniteTempBasis(b.statistics, b.beta, b.wmax,
                                  kernel=b.kernel, **kw)

    try:
        if how == "max_size":
            n = again(eps=case["cfg"]["eps"], max_size=0).size
        elif how == "slice":
            n = b[:0].size
        elif how == "negative":
            n = b[:-b.size].size
        elif how == "eps":
            n = again(eps=1.1, sve_result=b.sve_result).size
        elif how == "part":
            n = b.sve_result.part(max_size=0)[1].size
        elif how == "part eps":
            n = b.sve_result.part(eps=1.1)[1].size
        elif how == "again":
            n = again(max_size=0, sve_result=b.sve_result).size
        else:
            n = si.compute_sve(b.kernel, case["cfg"]["eps"], n_sv=0).s.size
    except (ValueError, IndexError, ZeroDivisionError):
        return
    rec.true(n == 0, "%d functions though none asked for" % n)


@PROP.family(st.fixed_dictionaries({
    "cfg": gen.sve_cfg(ext=.12, lam_max=1e4, lam_max_ext=20),
    "n_sv": st.one_of(st.none(), st.integers(1, 20), st.integers(1, 90),
                      st.just(10**6)),
    "cutoff": st.one_of(st.none(), st.just(0.0), gen.loguniform(1e-30, .9),
                        st.tuples(st.integers(1, 50),
                                  st.sampled_from([-1, 1]))),
    "np": st.booleans()}), quick=200, cost=3)
def solver(case, rec):
    """n_sv and cutoff of solver"""
    cfg = case["cfg"]
    kern = gen.kernel_of(cfg["kind"], cfg["lam"])
    full = gen._solver_full(cfg["kind"], cfg["lam"], cfg["eps"])
    default = gen.sve(cfg)
    s = full.s.astype(float)
    ext = gen.is_ext(cfg)
    lowest = 2 * (4.93e-32 if ext else 2.22e-16)
    cutoff = case["cutoff"]
    if isinstance(cutoff, (tuple, list)):
        l, side = min(cutoff[0], default.s.size - 1), cutoff[1]
        cutoff = float(s[l] / s[0]) * (1 + 1e-7 * side)
        want = l + (side < 0)
        rec.label("cutoff at singular value")
    else:
        c = lowest if cutoff is None else cutoff
        want = int((s > c * s[0]).sum())
    # near degeneracy to rounding both counts are fine
    lo, hi = want, want
    if cutoff not in (None, 0.0) and not isinstance(case["cutoff"], (tuple, list)):
        lo = int((s > cutoff * s[0] * (1 + 1e-12)).sum())
        hi = int((s > cutoff * s[0] * (1 - 1e-12)).sum())
    elif cutoff is None:
        lo = hi = default.s.size
    n_sv = case["n_sv"]
    if n_sv is not None:
        # degenerate terms are never split
        if n_sv < s.size:
            lo = min(lo, int((s > s[n_sv]).sum()))
        hi = min(hi, n_sv)
        if case["np"]:
            n_sv = np.int64(n_sv)
    res = si.compute_sve(kern, cfg["eps"], n_sv=n_sv, cutoff=cutoff)
    size = res.s.size
    rec.true(lo <= size <= hi, lambda: "%d terms, should be %d" % (size, want))
    rec.interesting(size < s.size)
    rec.true(res.u.size == size and res.v.size == size, "size of functions")
    rec.true(res.eps == full.eps, "accuracy remembered")
    rec.true(np.array_equal(res.s, full.s[:size]), "singular values")
    x = np.linspace(-1, 1, 23)
    # rounding of the transform to coefficients only
    tol = 1e-11
    m = min(size, int((s > lowest * 10 * s[0]).sum()))
    for a, b in ((res.u, full.u), (res.v, full.v)):
        a, b = a(x), b(x)
        sc = np.abs(b).max(1, keepdims=True)
        rec.close("functions", np.abs(a - b[:size])[:m], tol * sc[:m])
    # a basis from it offers no more than these
    if cfg["kind"] == "log":
        b = si.FiniteTempBasis("F", 1., cfg["lam"], cfg["eps"], sve_result=res)
        rec.true(b.size <= size, "basis from truncated expansion")
