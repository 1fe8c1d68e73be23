"""C17: quadrature rules integrate polynomials exactly on any interval"""
import mpmath
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Property

gauss = gen.env.sparse_ir._gauss
DD = ref.DD
PROP = Property(
    "C17",
    "Gauss-Legendre rules of random order in double and extended precision, "
    "and random sequences of moving, scaling, splitting, joining and casting "
    "them, against 50-digit nodes, weights and integrals of random "
    "polynomials; collocation matrices; the nested rule. Non-trivial: order "
    "at least 3 and not the plain interval.",
    ["Nodes are compared absolutely to rounding of the interval, distances "
     "to its ends relatively where the rule was made in extended precision."])

EPS = {"f": 2.3e-16, "d": 5e-31}


def mpf(x):
    """Exact value of float or ddouble"""
    hi = float(x)
    lo = float(x - hi)
    return mpmath.mpf(hi) + mpmath.mpf(lo)


def mpl(a):
    return [mpf(t) for t in np.asarray(a).ravel()]


def legendre_mp(n):
    return ref.gauss_mp(n, 50)


def dtype_of(d):
    return {"f": float, "d": DD}[d]


@PROP.family(st.one_of(
    st.tuples(st.integers(1, 60), st.just("f")),
    st.tuples(st.integers(60, 400), st.just("f")),
    st.tuples(st.integers(1, 60), st.just("d"))).map(
        lambda t: {"n": t[0], "d": t[1]}), quick=300, cost=5)
def basic(case, rec):
    n, d = case["n"], case["d"]
    rule = gauss.legendre(n) if d == "f" else gauss.legendre(n, DD)
    eps = EPS[d]
    rec.true(rule.x.shape == rule.w.shape == rule.x_forward.shape
             == rule.x_backward.shape == (n,), "shapes")
    rec.true(rule.x.dtype == dtype_of(d) == rule.w.dtype, "dtype")
    rec.true(rule.a == -1 and rule.b == 1, "interval")
    rec.true((rule.x[1:] > rule.x[:-1]).all(), "ascending")
    rec.true((rule.x > -1).all() and (rule.x < 1).all(), "interior")
    rec.true((rule.w > 0).all(), "positive weights")
    with mpmath.workdps(50):
        x, w = mpl(rule.x), mpl(rule.w)
        xf, xb = mpl(rule.x_forward), mpl(rule.x_backward)
        if n <= 80:
            rx, rw = legendre_mp(n)
        else:
            rx, rw = map(lambda t: [mpmath.mpf(s) for s in t.tolist()],
                         ref.gauss(n))
        # numpy's own nodes are less accurate for high orders
        slack = 3 if n <= 80 else 30
        rec.close("nodes", [float(abs(p - q)) for p, q in zip(x, rx)],
                  slack * eps)
        if n <= 80:
            rec.close("weights", [float(abs(p - q) / q) for p, q in
                                  zip(w, rw)], eps * (60 + 60 * n**2))
        else:
            rec.close("weights", [float(abs(p - q)) for p, q in zip(w, rw)],
                      2e-13)
        rec.close("distance", [float(abs(p - q - 1)) for p, q in zip(xf, x)],
                  eps)
        rec.close("distance", [float(abs(p + q - 1)) for p, q in zip(xb, x)],
                  eps)
        rec.close("symmetric", [float(abs(p + q)) for p, q in
                                zip(x, x[::-1])], 3 * eps)
        # integrals of Legendre polynomials of degree below 2n
        top = 2 * n if n <= 80 else 60
        p0, p1 = [mpmath.mpf(1)] * n, x
        worst = []
        for k in range(top):
            s = mpmath.fdot(w, p0)
            worst.append((float(abs(s - (2 if k == 0 else 0))),
                          eps * (60 + 10 * k + 4 * n)))
            p0, p1 = p1, [((2*k + 3) * xi * b - (k + 1) * a) / (k + 2)
                          for xi, a, b in zip(x, p0, p1)]
        rec.close("exact", [t[0] for t in worst], [t[1] for t in worst])
    rec.interesting(n > 2)
    rec.label(d)


@st.composite
def ops_case(draw):
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        op = draw(st.sampled_from(["reseat", "scale", "piecewise", "join",
                                   "astype"]))
        ops.append({"op": op, "a": draw(st.floats(-3, 3).map(gen.cround)),
                    "len": draw(gen.loguniform(1e-3, 10)),
                    "f": draw(st.sampled_from([1.0, 2.0, .3, -1.5, 3])),
                    "cuts": sorted(draw(st.lists(
                        st.floats(.02, .98).map(gen.cround), max_size=3,
                        unique=True)))})
    return {"n": draw(st.integers(1, 25)), "d": draw(st.sampled_from("fd")),
            "ops": ops, "deg": draw(st.integers(0, 49)), "seed": draw(gen.SEED)}


class Model:
    """Rule as nodes and weights to 50 digits"""
    def __init__(self, x, w, a, b):
        self.x, self.w, self.a, self.b = x, w, a, b

    def reseat(self, a, b):
        s = (b - a) / (self.b - self.a)
        return Model([a + (t - self.a) * s for t in self.x],
                     [t * s for t in self.w], a, b)


@PROP.family(ops_case(), quick=1200, cost=2)
def sequences(case, rec):
    """Random sequences of operations"""
    n, d = case["n"], case["d"]
    dt = dtype_of(d)
    with mpmath.workdps(50):
        rule = gauss.legendre(n, dt)
        rx, rw = legendre_mp(n)
        model = Model(list(rx), list(rw), mpmath.mpf(-1), mpmath.mpf(1))
        eps, factor, npieces = EPS[d], mpmath.mpf(1), 1
        big = mpmath.mpf(1)         # size of numbers rounded, per length
        exact_ends = d == "d"
        cast = False
        for op in case["ops"]:
            kind = op["op"]
            if kind == "reseat":
                a = op["a"]
                b = a + op["len"]
                if cast or d == "f":
                    aa, bb = a, b
                else:
                    aa, bb = DD.type(a), DD.type(b)
                before = rule.x.copy(), rule.w.copy()
                new = rule.reseat(aa, bb)
                rec.true(np.array_equal(before[0], rule.x)
                         and np.array_equal(before[1], rule.w), "modified")
                rule = new
                model = model.reseat(mpmath.mpf(a), mpmath.mpf(b))
                big = max(big, max(abs(model.a), abs(model.b))
                          / (model.b - model.a))
            elif kind == "scale":
                rule = rule.scale(op["f"])
                f = mpmath.mpf(op["f"])
                model = Model(model.x, [f * t for t in model.w], model.a,
                              model.b)
                factor *= f
            elif kind == "piecewise":
                if npieces * (len(op["cuts"]) + 1) > 12 or npieces > 1:
                    continue
                e = op["a"] + op["len"] * np.array([0] + op["cuts"] + [1.])
                ee = e if cast or d == "f" else e.astype(DD)
                rule = rule.piecewise(ee)
                es = [mpmath.mpf(t) for t in e.tolist()]
                parts = [model.reseat(p, q) for p, q in zip(es, es[1:])]
                model = Model(sum((t.x for t in parts), []),
                              sum((t.w for t in parts), []), es[0], es[-1])
                npieces *= len(parts)
                big = max(big, max(abs(es[0]), abs(es[-1]))
                          / min(q - p for p, q in zip(es, es[1:])))
            elif kind == "join":
                if npieces > 6:
                    continue
                b0, w = rule.b, op["len"]
                b1 = b0 + w
                other = rule.reseat(b0, b1)
                m1 = model.reseat(model.b, mpf(b1))
                rule = gauss.Rule.join(rule, other)
                model = Model(model.x + m1.x, model.w + m1.w, model.a, m1.b)
                npieces *= 2
                big = max(big, max(abs(model.a), abs(model.b))
                          / (m1.b - m1.a) * 4)
            else:
                rule = rule.astype(float)
                rec.true(rule.x.dtype == rule.w.dtype == np.float64
                         and rule.x_forward.dtype == np.float64, "cast")
                if d == "d" and not cast:
                    eps = EPS["f"]
                cast = True
        rec.true(float(abs(mpf(rule.a) - model.a)) <= 1e-15 * (
            1 + abs(model.a)) and float(abs(mpf(rule.b) - model.b)) <= 1e-15
            * (1 + abs(model.b)), "interval")
        length = model.b - model.a
        tol = 20 * eps * len(case["ops"]) * (1 + big)
        x, w = mpl(rule.x), mpl(rule.w)
        rec.true(len(x) == len(model.x), "number of points")
        rec.close("nodes", [float(abs(p - q) / length) for p, q in
                            zip(x, model.x)], float(tol))
        wmax = max(abs(t) for t in model.w)
        rec.close("weights", [float(abs(p - q) / abs(q)) for p, q in
                              zip(w, model.w)],
                  float(tol * (10 + 5 * n**2)))
        rec.true((rule.x[1:] >= rule.x[:-1]).all(), "ascending")
        rec.true((rule.w * np.sign(float(factor)) > 0).all(), "sign")
        xf, xb = mpl(rule.x_forward), mpl(rule.x_backward)
        af, ab = ([q - model.a for q in model.x],
                  [model.b - q for q in model.x])
        rec.close("forward", [float(abs(p - q) / length) for p, q in
                              zip(xf, af)], float(tol))
        rec.close("backward", [float(abs(p - q) / length) for p, q in
                               zip(xb, ab)], float(tol))
        if exact_ends and cast and npieces == 1:
            # distances are accurate relative to themselves, even if the end
            # is not the origin
            rec.close("relative forward", [float(abs(p - q) / q) for p, q in
                                           zip(xf, af)],
                      1e-15 * (2 + len(case["ops"])) + 1e-16 * float(
                          big if case["ops"][-1]["op"] != "astype" else 1)
                      + 1e-15 * float(big))
        # random polynomial in the reduced variable
        deg = min(case["deg"], 2 * n - 1)
        c = gen.rng(case["seed"]).normal(size=deg + 1)
        cm = [mpmath.mpf(t) for t in c.tolist()]
        mid, half = (model.a + model.b) / 2, length / 2
        val = [mpmath.polyval(cm, (t - mid) / half) for t in x]
        got = mpmath.fdot(w, val)
        k = len(cm)
        want = factor * half * sum(
            cm[k - 1 - j] * (1 - (-1)**(j + 1)) / mpmath.mpf(j + 1)
            for j in range(k))
        mag = mpmath.fdot([abs(t) for t in w], [
            sum(abs(t) for t in cm)] * len(w))
        rec.close("integral", float(abs(got - want)),
                  float(tol * mag * (deg + 2)) + 1e-300)
        del wmax
    rec.interesting(n > 2)
    for op in case["ops"]:
        rec.label(op["op"])
    rec.label(d)


# edges of pieces, also crowded towards an end like segments of kernels
CUTS = st.one_of(st.floats(.02, .98).map(gen.cround),
                 st.integers(1, 14).map(lambda k: 10.**-k),
                 st.integers(1, 14).map(lambda k: 1 - 10.**-k))


@PROP.family(st.fixed_dictionaries({
    "n": st.integers(1, 30), "d": st.sampled_from("fd"),
    "cuts": st.lists(CUTS, min_size=1, max_size=4, unique=True),
    "lo": st.sampled_from([-1.0, 0.0, -2.5])}), quick=300, cost=2)
def ends(case, rec):
    """Distances to the ends of composite rules, as used for kernels"""
    n, d = case["n"], case["d"]
    dt = dtype_of(d)
    lo = case["lo"]
    e = np.unique(lo + (1 - lo) * np.array([0] + case["cuts"] + [1]))
    rule = gauss.legendre(n, dt).piecewise(e.astype(dt))
    fl = rule.astype(float)
    rx, _ = legendre_mp(n)
    with mpmath.workdps(50):
        es = [mpmath.mpf(t) for t in e.tolist()]
        i = 0
        for k, (p, q) in enumerate(zip(es, es[1:])):
            for t in rx:
                f = (p - es[0]) + (q - p) * (1 + t) / 2
                b = (es[-1] - q) + (q - p) * (1 - t) / 2
                # relative accuracy, limited by that of the original rule
                tf = 8 * EPS[d] * (1 + 1 / float(1 + t))
                tb = 8 * EPS[d] * (1 + 1 / float(1 - t))
                rec.close("forward", float(abs(mpf(rule.x_forward[i]) - f)
                                           / f), tf)
                rec.close("backward", float(abs(mpf(rule.x_backward[i]) - b)
                                            / b), tb)
                rec.close("cast", float(abs(mpf(fl.x_forward[i]) - f) / f),
                          tf + 2.3e-16)
                rec.close("cast", float(abs(mpf(fl.x_backward[i]) - b) / b),
                          tb + 2.3e-16)
                i += 1
    rec.true(i == rule.x.size, "size")
    rec.true(rule.a == e[0] and rule.b == e[-1], "interval")
    rec.interesting(n > 2)


@PROP.family(st.fixed_dictionaries({
    "n": st.integers(1, 40), "m": st.integers(0, 40),
    "d": st.sampled_from("ffd"), "none": st.booleans(),
    "seed": gen.SEED}), quick=500)
def collocation(case, rec):
    n, d = case["n"], case["d"]
    rule = gauss.legendre(n, dtype_of(d))
    m = n if case["none"] else min(case["m"], n) or 1
    c = (gauss.legendre_collocation(rule) if case["none"]
         else gauss.legendre_collocation(rule, m))
    rec.true(c.shape == (m, n) and c.dtype == rule.x.dtype, "shape")
    # evaluation of an expansion, in mpmath
    coef = gen.rng(case["seed"]).normal(size=m)
    with mpmath.workdps(50):
        cm = [mpmath.mpf(t) for t in coef.tolist()]
        xs = mpl(rule.x)
        vals = []
        for t in xs:
            p0, p1, s = mpmath.mpf(1), t, mpmath.mpf(0)
            for k in range(m):
                s += cm[k] * p0
                p0, p1 = p1, ((2*k + 3) * t * p1 - (k + 1) * p0) / (k + 2)
            vals.append(s)
        mat = [mpl(row) for row in c]
        eps = EPS[d]
        for k in range(m):
            got = mpmath.fdot(mat[k], vals)
            rec.close("collocation", float(abs(got - cm[k])),
                      2 * eps * (k + 1) * (10 + n) * (1 + np.abs(coef).sum()))
    rec.interesting(n > 2)
    rec.label(d)


@PROP.family(st.fixed_dictionaries({
    "a": st.floats(-3, 3).map(gen.cround), "len": gen.loguniform(1e-3, 10),
    "f": st.sampled_from([1.0, 2.0, .3]), "seed": gen.SEED,
    "ops": st.lists(st.sampled_from(["reseat", "scale", "astype"]),
                    max_size=3)}), quick=300)
def nested(case, rec):
    """Gauss-Kronrod rule"""
    rule = gauss.kronrod_31_15()
    a, b, f = -1., 1., 1.
    for op in case["ops"]:
        if op == "reseat":
            a, b = case["a"], case["a"] + case["len"]
            rule = rule.reseat(a, b)
        elif op == "scale":
            f *= case["f"]
            rule = rule.scale(case["f"])
        else:
            rule = rule.astype(np.float64)
    rec.true(rule.x.size == 31 and rule.v.size == 15, "sizes")
    rec.true(rule.x[rule.vsel].size == 15, "selection")
    rec.true((rule.x[1:] > rule.x[:-1]).all(), "ascending")
    x = (rule.x - .5 * (a + b)) / (.5 * (b - a))
    sc = f * (b - a) / 2
    tol = 1e-14 * sc * (1 + max(abs(a), abs(b)) / (b - a))
    for k in range(47):
        p = np.polynomial.legendre.legval(x, [0] * k + [1])
        want = 2 * sc if k == 0 else 0
        rec.close("kronrod", abs(p @ rule.w - want), tol * (1 + k))
        if k < 30:
            rec.close("gauss", abs(p[rule.vsel] @ rule.v - want),
                      tol * (1 + k))
    # same nodes as Gauss
    rec.close("nodes", np.abs(x[rule.vsel] - ref.gauss(15)[0]),
              1e-14 * (1 + max(abs(a), abs(b)) / (b - a)))
    rec.close("distance", np.abs(rule.x_forward - (rule.x - a)),
              1e-15 * (b - a + abs(a) + abs(b)))
    rec.close("distance", np.abs(rule.x_backward - (b - rule.x)),
              1e-15 * (b - a + abs(a) + abs(b)))
    rec.interesting("reseat" in case["ops"])


@PROP.family(st.fixed_dictionaries({
    "n": st.integers(1, 12), "a": st.floats(-3, 3).map(gen.cround),
    "starts": st.lists(st.floats(-5, 5).map(gen.cround), min_size=1,
                       max_size=4),
    "lens": gen.loguniform(1e-2, 5), "gap": gen.loguniform(1e-6, 3),
    "cut": st.floats(.1, .9).map(gen.cround)}), quick=300)
def structure(case, rec):
    """Arrays of intervals, shifted recurrence, errors"""
    n = case["n"]
    rule = gauss.legendre(n)
    s = np.array(case["starts"])[:, None]
    r = rule.reseat(s, s + case["lens"])
    rec.true(r.x.shape == r.w.shape == (s.size, n), "broadcast")
    for i in range(s.size):
        one = rule.reseat(s[i, 0], s[i, 0] + case["lens"])
        rec.close("broadcast", np.abs(one.x - r.x[i]), 1e-14)
        rec.close("broadcast", np.abs(one.w - r.w[i]), 1e-14)
        rec.close("broadcast", np.abs(one.x_forward - r.x_forward[i]), 1e-14)
        rec.close("broadcast", np.abs(one.x_backward - r.x_backward[i]),
                  1e-14)
    # recurrence shifted to another interval
    a, ln = case["a"], case["lens"]
    k = np.arange(n)
    alpha = np.full(n, a + ln / 2)
    beta = (ln / 2)**2 * k**2 / (4. * k**2 - 1)
    t = gauss.rule_from_recurrence(alpha, beta, a, a + ln)
    u = rule.reseat(a, a + ln)
    big = 1 + (abs(a) + ln) / ln
    rec.close("recurrence", np.abs(t.x - u.x), 2e-14 * ln * big)
    rec.close("recurrence", np.abs(t.w / u.w - 1), 1e-13 * n * big)
    rec.close("recurrence", np.abs(t.x_forward - u.x_forward),
              2e-14 * ln * big)
    # errors
    g = case["gap"]
    p, q = rule.reseat(0., 1.), rule.reseat(1 + g, 2 + g)
    rec.raises(lambda: gauss.Rule.join(p, q), "gap", (ValueError,))
    rec.raises(lambda: gauss.Rule.join(q, p), "order", (ValueError,))
    rec.raises(lambda: gauss.Rule.join(p, rule.reseat(1 - g, 2.)),
               "overlap", (ValueError,))
    rec.raises(lambda: rule.piecewise([0, g, g]), "empty piece",
               (ValueError,))
    rec.raises(lambda: rule.piecewise([0, g, g / 2]), "edges", (ValueError,))
    j = gauss.Rule.join(p, rule.reseat(1., 2.))
    w = rule.piecewise([0, 1, 2])
    rec.close("join", np.abs(j.x - w.x), 0)
    rec.close("join", np.abs(j.x_backward - w.x_backward), 0)
    rec.true(gauss.Rule.join().x.size == 0, "empty")
    # splitting does not change integrals
    c = a + ln * case["cut"]
    if a < c < a + ln:
        w = rule.piecewise([a, c, a + ln])
        for m in range(min(2 * n, 6)):
            f = ((w.x - a) / ln)**m
            rec.close("split", abs(f @ w.w - ln / (m + 1)), 2e-14 * ln * big)
    rec.interesting(n > 2)
