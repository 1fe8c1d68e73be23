"""C20: results depend on arguments only, not on history of calls or threads"""
import copy
import json
import pickle
import sys
import threading
import warnings

import numpy as np
from hypothesis import strategies as st

from .. import gen, pristine, ref
from ..core import Property

si = gen.si
PROP = Property(
    "C20",
    "Random sequences of derivations (slices, rescalings, parts, "
    "derivatives, samplings, augmentations, pole representations, bound "
    "methods) and calls on objects shared by all of them: each result against "
    "the one on objects made anew for this call alone, in another order, "
    "again after scribbling over all arrays handed out, and from concurrent "
    "threads; arguments must stay the same, may be read-only. Repetition of "
    "expansions and decompositions with others in between. Non-trivial: at "
    "least 3 calls, on at least 2 objects.",
    ["Results of calls are compared to 1e-12 (expansions: exactly)."])


# ---------------------------------------------------------------- objects

_PICKLES = {}


def new_base(cfg):
    """Basis sharing nothing with any other object"""
    key = json.dumps(cfg, sort_keys=True)
    if key not in _PICKLES:
        if len(_PICKLES) > 30:
            _PICKLES.clear()
        kern = gen.kernel_of(cfg["kind"], cfg["beta"] * cfg["wmax"])
        res = si.compute_sve(kern, cfg["eps"])
        if cfg.get("terms"):
            k = min(cfg["terms"], res.s.size)
            res = si.SVEResult(res.u[:k], res.s[:k], res.v[:k], kern,
                               cfg["eps"])
        _PICKLES[key] = pickle.dumps(res)
    res = pickle.loads(_PICKLES[key])
    return si.FiniteTempBasis(cfg["stat"], cfg["beta"], cfg["wmax"],
                              cfg["eps"], max_size=cfg.get("size"),
                              kernel=res.K, sve_result=res)


# name: (types of parent, type of result)
NEW = {"slice": ("basis", "basis"), "rescale": ("basis", "basis"),
       "again": ("basis", "basis"),
       "u": ("basis dlr aug", "poly"), "v": ("basis", "poly"),
       "uhat": ("basis dlr aug", "ft"), "kernel": ("basis", "kernel"),
       "deriv": ("poly", "poly"), "head": ("poly ft", "same"),
       "item": ("poly ft", "same"), "tau": ("basis aug dlr", "tau"),
       "mat": ("basis aug dlr", "mat"), "aug": ("basis", "aug"),
       "dlr": ("basis", "dlr"), "method": ("poly ft tau mat kernel dlr",
                                           "method"),
       "symm": ("kernel", "kernel")}
ACT = {"call": "poly ft kernel method", "value": "poly", "roots": "poly",
       "overlap": "poly", "features": "ft", "evaluate": "tau mat",
       "fit": "tau mat", "points": "basis aug dlr", "ir": "dlr",
       "attributes": "basis tau mat poly ft"}


def pick(entries, types, i):
    cand = [e for e in entries if e[0] in types.split()]
    return cand[i % len(cand)] if cand else None


def resolve(case):
    """Turn case into list of (action, type, recipe, parameters)"""
    entries = [("basis", ["base", cfg]) for cfg in case["bases"]]
    calls = []
    for op in case["ops"]:
        name = op["op"]
        if name in NEW:
            parents, result = NEW[name]
            e = pick(entries, parents, op["i"])
            if e is None:
                continue
            typ = e[0] if result == "same" else result
            entries.append((typ, [name, e[1], op["p"]]))
        else:
            e = pick(entries, ACT[name], op["i"])
            if e is not None:
                calls.append((name, e[0], e[1], op))
                if op.get("all"):       # same call on similar objects, too
                    calls += [(name, t, r, op) for t, r in entries
                              if t == e[0] and r is not e[1]][:4]
                if op.get("kin"):       # and on objects made from this one
                    calls += [(name, t, r, op) for t, r in kin(*e, op)]
    return calls


def kin(typ, recipe, op):
    """Close relatives of object"""
    p = op["p"]
    if typ == "basis":
        new = [(k, recipe) for k in ("slice", "rescale", "again")]
    elif typ in ("poly", "ft"):
        one = recipe
        if "item" not in recipe_names(recipe):
            one = ["item", recipe, p]
        new = [("deriv", one), ("deriv", recipe)] if typ == "poly" else []
        yield typ, one
    else:
        new = []
    for name, r in new:
        yield typ, [name, r, p]
    yield typ, recipe


def derive(kind, par, p):
    """Derived object, p parametrising it"""
    if kind == "slice":
        return par[:1 + p % par.size]
    if kind == "rescale":
        return par.rescale(par.beta * [.5, 3., 10., 1.][p % 4])
    if kind == "again":
        return si.FiniteTempBasis(par.statistics, par.beta, par.wmax,
                                  [None, 1e-3, 0][p % 3], kernel=par.kernel,
                                  sve_result=par.sve_result)
    if kind in ("u", "v", "uhat", "kernel"):
        return getattr(par, kind)
    if kind == "deriv":
        return par.deriv(p % 4)
    if kind == "head":
        return par[:1 + p % par.size]
    if kind == "item":
        return par[p % par.size]
    if kind == "tau":
        if p % 2:
            return si.TauSampling(par)
        return si.TauSampling(par, np.linspace(0, par.beta, par.size + 2)[1:-1])
    if kind == "mat":
        pos = p % 3 == 1
        if p % 2:
            return si.MatsubaraSampling(par, positive_only=pos)
        z = {"F": 1, "B": 0}[par.statistics]
        n = np.arange(0 if pos else -par.size, par.size + 1) * 2 + z
        return si.MatsubaraSampling(par, n, positive_only=pos)
    if kind == "aug":
        if par.statistics == "B":
            augs = [[si.augment.TauConst], [si.augment.TauLinear],
                    [si.augment.MatsubaraConst],
                    [si.augment.TauConst, si.augment.TauLinear]][p % 4]
        else:
            augs = [si.augment.MatsubaraConst]
        return si.augment.AugmentedBasis(par, *augs)
    if kind == "dlr":
        return si.dlr.DiscreteLehmannRepresentation(par)
    if kind == "symm":
        return par.get_symmetrized([1, -1][p % 2])
    names = {si.TauSampling: ["evaluate", "fit"],
             si.MatsubaraSampling: ["evaluate", "fit"],
             si.dlr.DiscreteLehmannRepresentation: ["from_IR", "to_IR"]}
    names = names.get(type(par), ["__call__"])
    return getattr(par, names[p % len(names)])


class Fail:
    """Outcome of a call which raised"""
    def __init__(self, e):
        self.kind = type(e)


class World:
    """Makes objects, once only or anew each time"""
    def __init__(self, shared):
        self.shared = shared
        self.memo = {}

    def get(self, recipe):
        if recipe[0] == "base":
            par = None
        else:
            par = self.get(recipe[1])
            if isinstance(par, Fail):
                return par
        key = json.dumps(recipe, sort_keys=True)
        if self.shared and key in self.memo:
            return self.memo[key]
        try:
            if par is None:
                res = new_base(recipe[1])
            else:
                res = derive(recipe[0], par, recipe[2])
        except Exception as e:
            res = Fail(e)
        self.memo[key] = res
        return res


# ------------------------------------------------------------------ calls

def domain(recipe):
    """Information needed for arguments, not asking the objects themselves"""
    r, chain = recipe, []
    while r[0] != "base":
        chain.append(r)
        r = r[1]
    return r[1], chain[::-1]


def zeta(recipe):
    return {"F": 1, "B": 0}[domain(recipe)[0]["stat"]]


def arguments(name, typ, recipe, op, obj):
    """Positional and keyword arguments for call"""
    rng = gen.rng(op["seed"])
    t = np.array(op["t"])
    if typ == "method" and name == "call":
        parent = recipe[1]
        inner = {"poly": "call", "ft": "call", "kernel": "call"}
        pk = parent[0]
        kind = ("kernel" if pk in ("kernel", "symm") else
                pk if pk in ("tau", "mat", "dlr") else
                "poly" if is_poly(parent) else "ft")
        self = getattr(obj, "__self__", None) or getattr(obj, "instance", None)
        if kind in inner:
            return arguments("call", kind, parent, op, self)
        meth = getattr(obj, "__name__", "")
        if kind == "dlr":
            n = self.basis.size if meth == "from_IR" else self.size
            return (rng.normal(size=(n, 3)),), {}
        return arguments(meth, kind, parent, op, self)
    if name == "call" and typ == "poly":
        lo, hi = bounds(recipe)
        return (np.clip(lo + (hi - lo) * (t + 1) / 2, lo, hi),), {}
    if name == "call" and typ == "ft":
        return (2 * rng.integers(-op["p"] - 1, op["p"] + 1, size=t.size)
                + zeta(recipe),), {}
    if name == "call" and typ == "kernel":
        lo = 0 if "symm" in recipe_names(recipe) else -1
        x = np.clip(t if lo else np.abs(t), lo, 1)
        y = rng.uniform(lo, 1, size=x.size)
        if op["p"] % 2:
            return (x, y, x + 1, 1 - x), {}
        return (x, y), {}
    if name == "value":
        lo, hi = bounds(recipe)
        l = rng.integers(0, getattr(obj, "size", 1), size=t.size)
        return (l, np.clip(lo + (hi - lo) * (t + 1) / 2, lo, hi)), {}
    if name in ("evaluate", "fit"):
        n = (obj.basis.size if name == "evaluate"
             else obj.sampling_points.size)
        shape = [2, 3]
        axis = op["p"] % 3
        shape.insert(axis, n)
        a = rng.normal(size=shape)
        kw = {"axis": axis}
        if op["p"] % 5 == 4:
            pts = obj.sampling_points
            kw["points"] = np.array(pts if name == "fit"
                                    else pts[:max(1, op["p"] % 7)])
        if op["p"] % 2:
            a = a + 1j * rng.normal(size=shape)
        return (a,), kw
    if name == "ir":
        n = obj.basis.size if op["p"] % 2 else obj.size
        return (rng.normal(size=(n, 2)),), {}
    return (), {}


def recipe_names(recipe):
    return [r[0] for r in domain(recipe)[1]]


def is_poly(recipe):
    names = recipe_names(recipe)
    return "u" in names or "v" in names


def bounds(recipe):
    cfg, chain = domain(recipe)
    beta = cfg["beta"]
    wmax = cfg["wmax"]
    for r in chain:
        if r[0] == "rescale":
            lam = beta * wmax
            beta = beta * [.5, 3., 10., 1.][r[2] % 4]
            wmax = lam / beta
    if any(r[0] == "v" for r in chain):
        return -.9 * wmax, .9 * wmax
    return 0, beta * (1 - 1e-14)


def single(f, p):
    return f[p % f.size] if getattr(f, "shape", ()) else f


def perform(name, typ, obj, op, args, kw):
    if isinstance(obj, Fail):
        return obj
    p = op["p"]
    try:
        if name == "call":
            return obj(*args, **kw)
        if name == "value":
            return obj.value(*args)
        if name == "roots":
            f = single(obj, p)
            return f.roots(*[(), (2,), (3,), ()][op["seed"] % 4])
        if name == "overlap":
            c = 3. / max(abs(obj.xmax), abs(obj.xmin))
            return obj.overlap(lambda x: np.cos(c * x + p))
        if name == "features":
            f = single(obj, p)
            m = [f.extrema, f.sign_changes][p % 2]
            return m(positive_only=p % 3 == 0)
        if name == "evaluate":
            return obj.evaluate(*args, **kw)
        if name == "fit":
            return obj.fit(*args, **kw)
        if name == "points":
            m = getattr(obj, "default_%s_sampling_points" % [
                "tau", "matsubara", "omega"][p % 3])
            if p % 4 == 0 and typ == "basis":
                return m(npoints=1 + p // 12 % obj.size)
            return m()
        if name == "ir":
            return obj.from_IR(*args) if p % 2 else obj.to_IR(*args)
        return attributes(typ, obj)
    except Exception as e:
        return Fail(e)


def attributes(typ, obj):
    """Copies of public attributes"""
    if typ == "basis":
        names = ["s", "size", "beta", "wmax", "accuracy", "significance",
                 "statistics", "lambda_"]
    elif typ in ("tau", "mat"):
        names = ["sampling_points", "cond"]
    elif typ == "poly":
        names = ["xmin", "xmax", "knots", "data", "symm", "size", "polyorder"]
    else:
        names = ["shape", "zeta", "size", "ndim"]
    return [copy.deepcopy(np.asarray(getattr(obj, n))) for n in names
            if hasattr(obj, n)]


def arrays(x):
    """Arrays making up a result"""
    if isinstance(x, (list, tuple)):
        return [a for e in x for a in arrays(e)]
    return [np.asarray(x)]


def frozen(x):
    return x if isinstance(x, Fail) else [np.array(a) for a in arrays(x)]


def agree(rec, what, got, want, tol):
    if isinstance(want, Fail) or isinstance(got, Fail):
        rec.true(isinstance(want, Fail) and isinstance(got, Fail),
                 lambda: "%s: one raised %s, the other did not" % (
                     what, (want if isinstance(want, Fail) else got).kind))
        rec.true(got.kind is want.kind, what + ": different errors")
        return
    rec.true(len(got) == len(want), what + " structure")
    for g, w in zip(got, want):
        rec.true(g.shape == w.shape and g.dtype == w.dtype,
                 lambda: "%s: %s%s instead of %s%s" % (what, g.dtype, g.shape,
                                                       w.dtype, w.shape))
        if g.dtype.kind not in "fciu":
            rec.true(np.array_equal(g, w), what)
            continue
        with np.errstate(all="ignore"):
            same = (g == w) | (np.isnan(g) & np.isnan(w))
            fin = np.abs(w[np.isfinite(w)])
            rec.close(what, np.where(same, 0, np.abs(g - w)),
                      tol * fin.max(initial=0))


def tolerance(name, obj):
    if name == "fit" or "fit" in str(getattr(obj, "__name__", "")):
        o = getattr(obj, "__self__", obj)
        return 1e-13 * min(getattr(o, "cond", 1), 1e15) + 1e-12
    if "IR" in str(getattr(obj, "__name__", "")) or name == "ir":
        return 1e-3
    return 1e-12


NEWOP = st.fixed_dictionaries({
    "op": st.sampled_from(sorted(NEW) + ["method", "tau", "mat", "uhat", "u",
                                         "dlr"]),
    "i": st.integers(0, 30), "p": st.integers(0, 60)})
ACTOP = st.fixed_dictionaries({
    "op": st.sampled_from(["call"] * 4 + ["evaluate", "fit"] * 2 + sorted(ACT)),
    "i": st.integers(0, 30), "p": st.integers(0, 60),
    "t": st.lists(gen.unit_points(), min_size=1, max_size=5),
    "seed": gen.SEED, "all": st.booleans(), "kin": st.booleans()})
OPS = st.one_of(ACTOP, NEWOP, ACTOP)
NEWOP_FEW = st.fixed_dictionaries({
    "op": st.sampled_from(["tau", "mat", "slice", "rescale", "u", "uhat"]),
    "i": st.integers(0, 30), "p": st.integers(0, 60)})
ACTOP_POINTS = st.fixed_dictionaries({
    "op": st.sampled_from(["points", "points", "attributes", "features"]),
    "i": st.integers(0, 30), "p": st.one_of(
        st.integers(0, 60), st.integers(0, 20).map(lambda k: 3 * k)),
    "t": st.just([0.]), "seed": st.just(0), "all": st.booleans(),
    "kin": st.booleans()})


@st.composite
def ops_list(draw, n_new, n_act):
    """Some objects first, then a mixture"""
    return (draw(st.lists(NEWOP, min_size=n_new, max_size=n_new + 5))
            + draw(st.lists(OPS, min_size=n_act, max_size=3 * n_act)))


CFG = gen.basis_cfg(ext=0, lam_max=200, beta_lo=.1, beta_hi=100)


@st.composite
def related_bases(draw, n_min):
    """Bases, some of which share some of their parameters"""
    res = [draw(CFG)]
    for _ in range(draw(st.integers(n_min - 1, 2))):
        c = draw(CFG)
        how = draw(st.integers(0, 7))
        old = res[draw(st.integers(0, len(res) - 1))]
        new = dict(old)
        if how == 0:
            new = c
        else:
            # equal cutoff (and kernel), at least
            if how & 1:
                new["eps"] = c["eps"]
            if how & 2 and old["kind"] == "log":
                new["stat"] = c["stat"]
            if how & 4:
                new["wmax"] = old["beta"] * old["wmax"] / c["beta"]
                new["beta"] = c["beta"]
        res.append(dict(new))
    # same number of functions, of the same or another expansion
    k = draw(st.sampled_from([2, 3, 5, 8]))
    for c in res:
        how = draw(st.sampled_from([None, "size", "terms"]))
        if how:
            c[how] = k
    return res


BASES = related_bases(1)


LIVE = []


def run_shared(rec, calls, world, readonly):
    """Perform calls on shared objects"""
    out = []
    LIVE.clear()
    for name, typ, recipe, op in calls:
        obj = world.get(recipe)
        try:
            args, kw = arguments(name, typ, recipe, op, obj)
        except Exception as e:
            args, kw = (), {}
            obj = Fail(e)
        keep = copy.deepcopy((args, kw))
        given = list(args) + list(kw.values())
        if readonly:
            for a in given:
                if isinstance(a, np.ndarray):
                    a.flags.writeable = False
        res = perform(name, typ, obj, op, args, kw)
        for a, b in zip(given, list(keep[0]) + list(keep[1].values())):
            rec.true(np.array_equal(a, b) and type(a) is type(b),
                     lambda: "%s modified its argument" % name)
        out.append((obj, keep, res, frozen(res)))
        LIVE.append((args, kw))
    return out


@PROP.family(st.fixed_dictionaries({
    "bases": BASES, "ops": ops_list(2, 6),
    "readonly": st.booleans()}), quick=700)
def history(case, rec):
    calls = resolve(case)
    world = World(True)
    out = run_shared(rec, calls, world, case["readonly"])
    snap = {k: attributes(t, world.memo[k]) for k, t in known_types(calls)
            if k in world.memo and not isinstance(world.memo[k], Fail)}
    rec.interesting(len(calls) >= 3
                    and len({json.dumps(c[2]) for c in calls}) >= 2)
    for name, typ, _, _ in calls:
        rec.label("%s %s" % (name, typ))
    for (obj, keep, res, fr), (name, typ, recipe, op) in zip(out, calls):
        if isinstance(res, Fail):
            rec.label("raised")
            continue
        agree(rec, "result of %s changed later" % name, frozen(res), fr, 0)
    # objects made for the call alone, in reverse order
    for (obj, keep, res, fr), (name, typ, recipe, op) in reversed(
            list(zip(out, calls))):
        fresh = World(False).get(recipe)
        args, kw = keep
        again = perform(name, typ, fresh, op, *copy.deepcopy(keep))
        if isinstance(obj, Fail):
            continue
        agree(rec, "%s on %s vs. fresh one" % (name, typ), frozen(again), fr,
              tolerance(name, obj))
    # scribble over what was handed out
    for (obj, keep, res, fr), (name, typ, recipe, op) in zip(out, calls):
        if isinstance(res, np.ndarray) and res.flags.writeable:
            res[...] = -77
    for (obj, keep, res, fr), (name, typ, recipe, op) in reversed(
            list(zip(out, calls))):
        again = perform(name, typ, obj, op, *copy.deepcopy(keep))
        agree(rec, "%s on %s again" % (name, typ), frozen(again), fr, 1e-13)
    for k, v in snap.items():
        t = dict(known_types(calls))[k]
        agree(rec, "attributes of " + t, attributes(t, world.memo[k]), v, 0)
    # the arrays given may be used for something else afterwards
    for (obj, keep, res, fr), (name, typ, recipe, op), (args, kw) in zip(
            out, calls, LIVE):
        given = [a for a in list(args) + list(kw.values())
                 if isinstance(a, np.ndarray) and a.size > 1]
        if isinstance(obj, Fail) or not given:
            continue
        perform(name, typ, obj, op, args, kw)
        for a in given:
            a.flags.writeable = True
            a[...] = a[::-1].copy()
        keep = copy.deepcopy((args, kw))
        again = perform(name, typ, obj, op, args, kw)
        fresh = perform(name, typ, World(False).get(recipe), op, *keep)
        agree(rec, "%s on %s, arguments changed in place" % (name, typ),
              frozen(again), frozen(fresh), tolerance(name, obj))


# ---------------------------------------------- compared to other processes

def perform_all(job):
    """Executed in process of its own: performs calls in sequence"""
    pickles, calls = job
    _PICKLES.clear()
    _PICKLES.update(pickles)
    world = World(True)
    out = []
    for name, typ, recipe, op in calls:
        obj = world.get(recipe)
        tol = 0.
        try:
            args, kw = arguments(name, typ, recipe, op, obj)
            tol = tolerance(name, obj)
        except Exception as e:
            args, kw = (), {}
            obj = Fail(e)
        out.append((frozen(perform(name, typ, obj, op, args, kw)), tol))
    return out


@st.composite
def isolated_case(draw):
    bases = draw(related_bases(2))
    ops = draw(st.lists(st.one_of(OPS, ACTOP_POINTS, NEWOP_FEW),
                        min_size=4, max_size=10))
    return {"bases": bases, "ops": ops}


@PROP.family(isolated_case(), quick=150, cost=6)
def isolated(case, rec):
    """Sequence of calls, and each as the only one in its process"""
    calls = resolve(case)
    rec.interesting(len(calls) >= 3
                    and len({json.dumps(c[2]) for c in calls}) >= 2)
    pickles = {}
    for cfg in case["bases"]:
        new_base(cfg)
        key = json.dumps(cfg, sort_keys=True)
        pickles[key] = _PICKLES[key]
    # different order, too
    jobs = [(pickles, calls), (pickles, calls[::-1])]
    jobs += [(pickles, [c]) for c in calls]
    res = pristine.ask("c20", "perform_all", jobs)
    for k, (name, typ, _, _) in enumerate(calls):
        alone, tol = res[2 + k][0]
        rec.label("%s %s" % (name, typ))
        for seq, j in ((res[0], k), (res[1], len(calls) - 1 - k)):
            if isinstance(alone, Fail) and isinstance(seq[j][0], Fail):
                continue
            agree(rec, "%s on %s, only call in process" % (name, typ),
                  seq[j][0], alone, max(tol, 1e-12))


def known_types(calls):
    res = []
    for _, typ, recipe, _ in calls:
        if typ in ("basis", "tau", "mat", "poly", "ft"):
            res.append((json.dumps(recipe, sort_keys=True), typ))
        while recipe[0] != "base":
            recipe = recipe[1]
            if recipe[0] in ("base", "slice", "rescale", "again"):
                res.append((json.dumps(recipe, sort_keys=True), "basis"))
    return res


@PROP.family(st.fixed_dictionaries({
    "bases": BASES, "ops": ops_list(3, 5),
    "threads": st.integers(2, 6), "repeat": st.integers(2, 5)}), quick=250,
    cost=3)
def threads(case, rec):
    calls = resolve(case)
    reference = run_shared(rec, calls, World(True), False)
    n, repeat = case["threads"], case["repeat"]
    world = World(True)
    prepared = []
    for (_, keep, _, fr), (name, typ, recipe, op) in zip(reference, calls):
        prepared.append((name, typ, world.get(recipe), op, keep, fr))
    rec.interesting(len(calls) >= 3
                    and len({json.dumps(c[2]) for c in calls}) >= 2)
    barrier = threading.Barrier(n)
    problems, results = [], [[] for _ in range(n)]

    def work(k):
        try:
            barrier.wait()
            for r in range(repeat):
                for j in range(len(prepared)):
                    j = (j + k) % len(prepared)
                    name, typ, obj, op, keep, _ = prepared[j]
                    res = perform(name, typ, obj, op, *copy.deepcopy(keep))
                    results[k].append((j, frozen(res)))
        except BaseException as e:
            problems.append(e)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    if problems:
        raise problems[0]
    for k in range(n):
        for j, res in results[k]:
            name, typ, obj, op, keep, fr = prepared[j]
            if isinstance(fr, Fail) and isinstance(res, Fail):
                continue
            agree(rec, "%s on %s from thread" % (name, typ), res, fr,
                  tolerance(name, obj))


def result_arrays(r):
    return [np.array(a) for a in (r.s, r.u.data, r.v.data, r.u.knots,
                                  r.v.knots)]


@PROP.family(st.fixed_dictionaries({
    "cfgs": st.lists(gen.sve_cfg(ext=.15, lam_max=3e3, lam_max_ext=10),
                     min_size=1, max_size=3),
    "strategy": st.sampled_from([None, None, "fast", "default", "accurate"]),
    "order": st.lists(st.integers(0, 2), min_size=2, max_size=5),
    "seed": gen.SEED}), quick=120, cost=3)
def expansions(case, rec):
    """Expansions are reproducible, whatever else is done"""
    cfgs = case["cfgs"]
    kernels = [gen.kernel_of(c["kind"], c["lam"]) for c in cfgs]
    first, kept = {}, []
    np.random.seed(case["seed"])
    for i in case["order"]:
        i %= len(cfgs)
        before = np.random.get_state()
        r = si.compute_sve(kernels[i], cfgs[i]["eps"],
                           svd_strat=case["strategy"])
        after = np.random.get_state()
        rec.true(before[0] == after[0] and np.array_equal(before[1], after[1])
                 and before[2:] == after[2:], "global random state")
        a = result_arrays(r)
        if i in first:
            rec.interesting()
            for x, y in zip(a, first[i]):
                rec.true(x.shape == y.shape and x.dtype == y.dtype
                         and np.array_equal(x, y), "expansion repeats exactly")
        first.setdefault(i, a)
        kept.append((r, a))
        # something else in between
        np.random.random(1 + i)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for stat in "FB":
                if cfgs[i]["kind"] == "bose" and stat == "F":
                    continue
                b = si.FiniteTempBasis(stat, 2., cfgs[i]["lam"] / 2, 1e-3,
                                       kernel=kernels[i], sve_result=r)
                b.default_matsubara_sampling_points()
                b.default_tau_sampling_points()
                b[:2].rescale(7.).u.deriv()
        si.svd.compute(gen.rng(case["seed"]).normal(size=(8, 5)), 3)
        r.part(1e-2)
    for r, a in kept:
        for x, y in zip(result_arrays(r), a):
            rec.true(np.array_equal(x, y), "expansion modified later")


@PROP.family(st.fixed_dictionaries({
    "shape": st.tuples(st.integers(1, 14), st.integers(1, 14)).map(list),
    "strategy": st.sampled_from(["fast", "default", "accurate"]),
    "ext": st.booleans(), "fortran": st.booleans(), "decay": st.booleans(),
    "readonly": st.booleans(), "seed": gen.SEED,
    "hint": st.one_of(st.none(), st.integers(1, 14))}), quick=600)
def decompositions(case, rec):
    """Decompositions do not modify the matrix and repeat exactly"""
    rng = gen.rng(case["seed"])
    a = rng.normal(size=case["shape"])
    if case["decay"]:
        a *= .1**np.arange(a.shape[1])
    if case["fortran"]:
        a = np.asfortranarray(a)
    if case["ext"]:
        a = a.astype(si.svd.MAX_DTYPE)
    keep = np.array(a)
    if case["readonly"]:
        a.flags.writeable = False
    rec.interesting(min(case["shape"]) > 1)
    r1 = si.svd.compute(a, case["hint"], case["strategy"])
    rec.true((a == keep).all(), "matrix modified")
    si.svd.compute(rng.normal(size=(6, 7)), 3)
    np.random.random(3)
    r2 = si.svd.compute(a, case["hint"], case["strategy"])
    rec.true((a == keep).all(), "matrix modified")
    for x, y in zip(r1, r2):
        rec.true(x.shape == y.shape and (x == y).all(), "repeats exactly")
    if not case["ext"]:
        d = si.sampling.DecomposedMatrix(a)
        x = rng.normal(size=(case["shape"][0], 2))
        y = rng.normal(size=(case["shape"][1], 2))
        x0, y0 = np.array(x), np.array(y)
        l1, m1 = d.lstsq(x), d.matmul(y, 0)
        m2, l2 = d @ y, d.lstsq(x, 0)
        rec.true(np.array_equal(x, x0) and np.array_equal(y, y0)
                 and np.array_equal(a, keep), "arguments modified")
        rec.close("again", np.abs(m1 - m2), 1e-13 * np.abs(m1).max())
        rec.close("again", np.abs(l1 - l2), 1e-13 * np.abs(l1).max())


@PROP.family(st.fixed_dictionaries({
    "order": st.integers(1, 8),
    "edges": st.lists(st.floats(.1, 2), min_size=1, max_size=5),
    "shape": st.lists(st.integers(1, 3), max_size=2),
    "dx": st.booleans(), "seed": gen.SEED,
    "ft": st.sampled_from(["odd", "even"])}), quick=300, cost=.5)
def sources(case, rec):
    """Polynomials made from arrays which are used for something else later"""
    rng = gen.rng(case["seed"])
    knots = np.cumsum([0.] + case["edges"])
    knots = 2 * knots / knots[-1] - 1
    knots[-1] = 1
    data = rng.normal(size=(case["order"], knots.size - 1, *case["shape"]))
    symm = rng.integers(-1, 2, case["shape"]) if len(
        case["shape"]) == 1 else None
    args = [data, knots] + [np.diff(knots)] * case["dx"]
    kw = {} if symm is None else {"symm": symm}
    poly = si.poly.PiecewiseLegendrePoly
    p = poly(*args, **kw)
    q = poly(np.array(data), p, symm=p.symm)
    parts = [p, q, p.deriv(), si.poly.PiecewiseLegendreFT(p, case["ft"])]
    if case["shape"]:
        parts += [p[..., -1] if len(case["shape"]) > 1 else p[-1]]
    x = np.linspace(-1, 1, 11)
    n = 2 * np.arange(-4, 5) + (case["ft"] == "odd")

    def look():
        out = [f(n if f is parts[3] else x) for f in parts]
        return out + [f.knots for f in parts if f is not parts[3]] + [p.data]

    before = [np.array(t) for t in look()]
    keep = [np.array(t) for t in args]
    for t, t0 in zip(args, keep):
        rec.true(np.array_equal(t, t0), "arguments modified")
        t[...] = 3
    for t, t0 in zip(look(), before):
        rec.true(np.array_equal(t, t0), "polynomial follows its sources")
    # nor do operations leave traces
    p.deriv(2), p.overlap(np.cos)
    if not case["shape"]:
        p.roots()
    for t, t0 in zip(look(), before):
        rec.true(np.array_equal(t, t0), "polynomial modified by use")
    rec.interesting(case["order"] > 1)


@PROP.family(st.fixed_dictionaries({
    "n": st.integers(1, 20), "ext": st.booleans(),
    "edges": st.lists(st.floats(.1, 2), min_size=1, max_size=5),
    "ops": st.lists(st.tuples(st.sampled_from(["reseat", "scale", "piecewise",
                                               "join", "collocation"]),
                              st.integers(0, 5)), min_size=1, max_size=6)}),
    quick=300)
def rules(case, rec):
    """Quadrature rules are not modified by deriving others from them"""
    gauss = si._gauss
    dtype = si.svd.MAX_DTYPE if case["ext"] else float
    rules_ = [gauss.legendre(case["n"], dtype)]
    snaps = [(np.array(rules_[0].x), np.array(rules_[0].w))]
    kron = gauss.kronrod_31_15()
    kron = np.array(kron.x), np.array(kron.v)
    edges = np.cumsum([-1.] + case["edges"]).astype(dtype)
    keep = np.array(edges)
    rec.interesting(len(case["ops"]) > 1)
    for name, i in case["ops"]:
        r = rules_[i % len(rules_)]
        if name == "reseat":
            new = r.reseat(-.3, 2.5)
        elif name == "scale":
            new = r.scale(1.7)
        elif name == "piecewise":
            new = r.piecewise(edges) if r.x.size <= 20 else None
        elif name == "join":
            r.join(rules_[0].reseat(-2, -1), rules_[0])
            new = None
        else:
            if r.x.size <= 20:
                gauss.legendre_collocation(rules_[0])
            new = None
        if new is not None:
            rules_.append(new)
            snaps.append((np.array(new.x), np.array(new.w)))
    for r, (x, w) in zip(rules_, snaps):
        rec.true((r.x == x).all() and (r.w == w).all(), "rule modified")
    rec.true((edges == keep).all(), "edges modified")
    # whoever has them may use them for something else
    for r in rules_ + [gauss.kronrod_31_15()]:
        for a in (r.x, r.w, r.x_forward, r.x_backward, getattr(r, "v", r.x)):
            if a.flags.writeable:
                a[...] = 7
    rec.true((gauss.kronrod_31_15().x == kron[0]).all()
             and (gauss.kronrod_31_15().v == kron[1]).all(), "Kronrod rule")
    again = gauss.legendre(case["n"], dtype)
    rec.true((again.x == snaps[0][0]).all() and (again.w == snaps[0][1]).all(),
             "rule repeats")
