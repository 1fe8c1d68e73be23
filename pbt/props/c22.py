"""C22: pairs of bases and basis sets are consistent with individual ones"""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Property
from .c06 import noise, propagator_kernel

si = gen.si
PROP = Property(
    "C22",
    "Random parameters, with or without an expansion given (computed to the "
    "same, a finer, or a coarser accuracy): sets and pairs against bases and "
    "samplings built individually; random fermionic propagators and products "
    "of two of these transformed along random walks between the four grids, "
    "against exact values. Non-trivial: at least 3 functions, 3 steps.",
    ["Accuracy of transforms: cutoff and noise times condition numbers."])

CFG = gen.basis_cfg(ext=.08, lam_max=3e3, lam_max_ext=20, stats="F",
                    kinds=st.just("log"))
GIVEN = st.sampled_from([None, None, "same", "finer", "coarser", "noeps"])


def make(case, how):
    """Set or pair, and arguments for individual bases"""
    c = case["cfg"]
    beta, wmax, eps = c["beta"], c["wmax"], c["eps"]
    given = case["given"]
    sve = None
    if given:
        other = {"same": eps, "finer": 1e-8, "coarser": 1e-2,
                 "noeps": eps}[given]
        if gen.is_ext(c) and given in ("finer", "coarser"):
            other = None        # double precision has noise at this accuracy
        sve = gen.sve({"kind": "log", "lam": beta * wmax, "eps": other})
        if given == "noeps":
            eps = None
    if how == "pair":
        if case["positional"]:
            f, b = si.finite_temp_bases(beta, wmax, eps, sve)
        else:
            f, b = si.finite_temp_bases(beta=beta, wmax=wmax, eps=eps,
                                        sve_result=sve)
        return f, b, eps, sve
    if case["positional"]:
        s = si.FiniteTempBasisSet(beta, wmax, eps, sve)
    else:
        s = si.FiniteTempBasisSet(beta=beta, wmax=wmax, eps=eps, sve_result=sve)
    return s, eps, sve


def same_basis(rec, b, ref, x, n):
    rec.true(b.size == ref.size and b.beta == ref.beta and b.wmax == ref.wmax
             and b.statistics == ref.statistics and b.lambda_ == ref.lambda_
             and b.accuracy == ref.accuracy, "metadata")
    rec.true(type(b.kernel) is type(ref.kernel)
             and b.kernel.lambda_ == ref.kernel.lambda_, "kernel")
    rec.true(np.array_equal(b.s, ref.s)
             and np.array_equal(b.significance, ref.significance), "s")
    tau = np.clip((x + 1) * ref.beta / 2, 0, ref.u.xmax)
    om = np.clip(x * ref.wmax, ref.v.xmin, ref.v.xmax)
    rec.true(np.array_equal(b.u(tau), ref.u(tau)), "u")
    rec.true(np.array_equal(b.v(om), ref.v(om)), "v")
    n = 2 * n + (ref.statistics == "F")
    want = ref.uhat(n)
    rec.close("uhat", np.abs(b.uhat(n) - want), 1e-14 * np.abs(want).max())


@PROP.family(st.fixed_dictionaries({
    "cfg": CFG, "given": GIVEN, "positional": st.booleans(),
    "x": st.lists(gen.unit_points(), min_size=1, max_size=4),
    "k": st.lists(st.integers(-1000, 1000), min_size=1, max_size=4),
    "seed": gen.SEED}), quick=250)
def parts(case, rec):
    c = case["cfg"]
    x, k = np.array(case["x"]), np.array(case["k"])
    f, b, eps, sve = make(case, "pair")
    rec.label("given %s" % case["given"])
    fresh_sve = sve
    if sve is None:
        fresh_sve = si.compute_sve(si.LogisticKernel(c["beta"] * c["wmax"]),
                                   eps)
    own = {stat: si.FiniteTempBasis(stat, c["beta"], c["wmax"], eps,
                                    sve_result=fresh_sve) for stat in "FB"}
    if sve is None:
        # not given anything
        same_basis(rec, si.FiniteTempBasis("B", c["beta"], c["wmax"], eps),
                   own["B"], x, k)
    rec.interesting(f.size >= 3)
    rec.true(f.sve_result is b.sve_result, "pair shares its expansion")
    rec.true(sve is None or f.sve_result is sve, "expansion given is used")
    same_basis(rec, f, own["F"], x, k)
    same_basis(rec, b, own["B"], x, k)

    s, eps, sve = make(case, "set")
    rec.true(s.basis_f.sve_result is s.basis_b.sve_result
             and s.sve_result is s.basis_f.sve_result, "set shares expansion")
    rec.true(sve is None or s.sve_result is sve, "expansion given is used")
    same_basis(rec, s.basis_f, own["F"], x, k)
    same_basis(rec, s.basis_b, own["B"], x, k)
    rec.true(s.beta == c["beta"] and s.wmax == c["wmax"]
             and s.lambda_ == own["F"].lambda_
             and s.accuracy == own["F"].accuracy, "metadata of set")
    rng = gen.rng(case["seed"])
    for stat, basis, tau, wn in (
            ("F", s.basis_f, s.smpl_tau_f, s.smpl_wn_f),
            ("B", s.basis_b, s.smpl_tau_b, s.smpl_wn_b)):
        o = own[stat]
        rec.true(tau.basis is basis and wn.basis is basis, "basis of sampling")
        rt, rw = si.TauSampling(o), si.MatsubaraSampling(o)
        for got, want in ((tau, rt), (wn, rw)):
            rec.true(type(got) is type(want), "type of sampling")
            rec.true(np.array_equal(got.sampling_points, want.sampling_points),
                     "sampling points")
            al = rng.normal(size=(o.size, 2))
            ev = want.evaluate(al)
            rec.close("evaluate", np.abs(got.evaluate(al) - ev),
                      1e-13 * np.abs(ev).max())
            rec.close("fit", np.abs(got.fit(ev) - want.fit(ev)),
                      1e-13 * want.cond * np.abs(al).max())
            rec.close("cond", np.abs(got.cond - want.cond), 1e-9 * want.cond
                      + 1e-14 * want.cond**2)
        rec.true(not wn.positive_only, "all frequencies")
    rec.true(np.array_equal(s.tau, s.smpl_tau_f.sampling_points)
             and np.array_equal(s.tau, s.smpl_tau_b.sampling_points),
             "one time axis")
    rec.true(np.array_equal(s.wn_f, s.smpl_wn_f.wn) and (s.wn_f % 2 == 1).all(),
             "fermionic frequencies")
    rec.true(np.array_equal(s.wn_b, s.smpl_wn_b.wn) and (s.wn_b % 2 == 0).all(),
             "bosonic frequencies")


GRIDS = {"tf": ("smpl_tau_f", "F"), "wf": ("smpl_wn_f", "F"),
         "tb": ("smpl_tau_b", "B"), "wb": ("smpl_wn_b", "B")}


@PROP.family(st.fixed_dictionaries({
    "cfg": CFG, "given": GIVEN, "positional": st.booleans(),
    "poles": st.tuples(st.floats(-.5, .5).map(gen.cround),
                       st.floats(-.5, .5).map(gen.cround)).map(list),
    "walk": st.lists(st.sampled_from(["w", "t"]), min_size=2, max_size=6),
    "axis": st.integers(0, 1)}), quick=600)
def transforms(case, rec):
    c = case["cfg"]
    s, eps, sve = make(case, "set")
    beta = c["beta"]
    om = np.array(case["poles"]) * c["wmax"]
    if abs(om.sum()) < 1e-6 * c["wmax"]:
        return
    rec.interesting(s.basis_f.size >= 3 and len(case["walk"]) >= 3)
    tau = s.tau

    def exact_f(grid):
        if grid == "t":
            return -propagator_kernel("F", beta, tau[:, None], om)
        return 1 / (1j * np.pi / beta * s.wn_f[:, None] - om)

    tot = om.sum()
    # half of tanh(a) + tanh(b) where a = beta * om[0] / 2, without cancellation
    ab = np.abs(beta * om)
    at = abs(beta * tot)
    fac = np.sign(tot) * np.exp(.5 * (at - ab.sum())) * -np.expm1(-at) / (
        1 + np.exp(-ab)).prod()
    if abs(fac) < 1e-30:
        return

    def exact_b(grid):
        """Product of both propagators"""
        if grid == "t":
            return exact_f("t").prod(1)[:, None]
        return -fac / (1j * np.pi / beta * s.wn_b[:, None] - tot)

    conf = dict(c)
    if sve is not None and sve.eps > 1e-9:
        conf["eps"] = max(sve.eps, 1e-8)
    tail = np.abs(s.basis_f.accuracy) + noise(conf)
    for stat, exact, which in (("F", exact_f, "f"), ("B", exact_b, "b")):
        basis = getattr(s, "basis_" + which)
        smpl = {"t": getattr(s, "smpl_tau_" + which),
                "w": getattr(s, "smpl_wn_" + which)}
        cond = max(np.linalg.cond(basis.u(tau)),
                   np.linalg.cond(basis.uhat(smpl["w"].wn)))
        if cond > 1e8:
            rec.label("ill-conditioned")
            return
        g = exact("t")
        last = "t"
        tol = 0
        for step in case["walk"]:
            if case["axis"]:
                gl = smpl[last].fit(g.T, axis=1)
                g = smpl[step].evaluate(gl, axis=1).T
            else:
                g = smpl[step].evaluate(smpl[last].fit(g))
            want = exact(step)
            size = np.abs(want).max()
            rel = 4 * cond * tail
            tol = max(tol, rel)
            rec.true(g.shape == want.shape, "shape")
            rec.close("transform " + stat + step, np.abs(g - want),
                      max(rel, 1e-12) * size * 3)
            last = step
