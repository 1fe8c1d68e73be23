"""Generators and (cached) builders shared by the properties.

All generated cases are plain data; builders turn them into objects.
"""
import functools
import json
import multiprocessing
import os
import pickle
import time

from . import env
import numpy as np
from hypothesis import strategies as st

si = env.sparse_ir
THOROUGH = os.environ.get("VERIF_TIER", "quick") == "thorough"

SPECIAL_LAM = [0.1, 0.5, 1.0, 2.0, 10.0, 42.0, 100.0, 1000.0, 1e4]


def loguniform(lo, hi):
    """Log-uniform floats, shrinking towards simple ones"""
    a, b = np.log10(lo), np.log10(hi)
    return st.floats(a, b, allow_nan=False).map(
        lambda t: min(max(float("%.6g" % 10.0**t), lo), hi))


def lam(lo=0.05, hi=1e5):
    return st.one_of(st.sampled_from([v for v in SPECIAL_LAM if lo <= v <= hi]),
                     loguniform(lo, hi), loguniform(max(lo, 1), min(hi, 300)))


def eps_double():
    """Accuracies for which the working precision is double"""
    return st.one_of(st.sampled_from([1e-8, 1e-6, 1e-4, 1e-2]),
                     loguniform(1e-8, 3e-2))


def eps_ext():
    """Accuracies for which extended working precision is needed"""
    return st.one_of(st.sampled_from([None, 1e-15, 1e-12, 1e-10]),
                     loguniform(3e-16, 9.9e-9))


# percentage of cases with cutoffs which are larger by far, if asked for
HUGE = 5

KINDS = st.sampled_from(["log", "log", "bose"])


def kernel_of(kind, lam_):
    return {"log": si.LogisticKernel,
            "bose": si.RegularizedBoseKernel}[kind](lam_)


# Extended precision at large cutoffs takes long, so there is a fixed set of
# expansions shared by all processes, see prepare()
BIG = [("log", 1e4, None), ("bose", 1e4, 1e-12), ("log", 1e3, 1e-15),
       ("bose", 1e3, None), ("log", 300., 1e-10), ("log", 100., None)]
if THOROUGH:
    BIG = [("log", 1e6, None), ("log", 1e5, 1e-13), ("bose", 1e5, None)] + BIG
BIG_USED = []
_BIG = {}


def _expand(key):
    try:
        return pickle.dumps(_compute(*key))
    except Exception:
        return None


def _compute(kind, lam_, eps):
    return si.compute_sve(kernel_of(kind, lam_), eps)


def prepare(nproc, wall):
    """Compute all of BIG, if needed, for use by processes forked later on

    Whatever fails or takes too long is left to the individual cases.
    """
    if not BIG_USED:
        return
    ctx = multiprocessing.get_context("fork")
    t_end = time.monotonic() + wall
    with ctx.Pool(nproc) as pool:
        jobs = [(key, pool.apply_async(_expand, (key,))) for key in BIG]
        for key, job in jobs:
            try:
                res = job.get(max(0, t_end - time.monotonic()))
                if res is not None:
                    _BIG[key] = pickle.loads(res)
            except Exception:
                pass


def big_sve(kind, lam_, eps):
    """Shared expansion, or none"""
    for key in BIG:
        if key[0] == kind and key[2] == eps and abs(lam_ / key[1] - 1) < 5e-16:
            if key not in _BIG:
                _BIG[key] = _compute(*key)
            return _BIG[key]
    return None


def sve_cfg(ext=0.15, lam_max=1e5, lam_max_ext=60., kinds=KINDS, lam_min=0.05,
            huge=False, big=0):
    """Kernel, cutoff and accuracy; big percent with shared expansions"""
    if big:
        BIG_USED.append(True)
        big = int(os.environ.get("PBT_BIG", big))
    return _sve_cfg(ext, lam_max, lam_max_ext, kinds, lam_min, huge, big)


@st.composite
def _sve_cfg(draw, ext, lam_max, lam_max_ext, kinds, lam_min, huge, big):
    kind = draw(kinds)
    if big and draw(st.integers(0, 99)) >= 100 - big:
        keys = [k for k in BIG if k[0] == kind]
        key = keys[draw(st.integers(0, len(keys) - 1))]
        return {"kind": kind, "lam": key[1], "eps": key[2]}
    if ext > 0 and draw(st.integers(0, 99)) >= 100 - round(100 * ext):
        return {"kind": kind, "lam": draw(lam(lam_min, lam_max_ext)),
                "eps": draw(eps_ext())}
    if huge and kind == "log" and draw(st.integers(0, 99)) >= 100 - HUGE:
        return {"kind": kind, "lam": draw(loguniform(lam_max, 1e9)),
                "eps": draw(eps_double())}
    return {"kind": kind, "lam": draw(lam(lam_min, lam_max)),
            "eps": draw(eps_double())}


@functools.lru_cache(40)
def _sve(kind, lam_, eps):
    return si.compute_sve(kernel_of(kind, lam_), eps)


def sve(cfg):
    """SVE of the library for configuration; extended precision for eps<1e-8.

    Each call within double precision gives the same result for any eps, but
    computing it anew is cheap, so do not share it between accuracies.
    """
    res = big_sve(cfg["kind"], cfg["lam"], cfg["eps"])
    if res is not None:
        return res
    return _sve(cfg["kind"], cfg["lam"], cfg["eps"])


@functools.lru_cache(40)
def _solver_full(kind, lam_, eps):
    """SVE of the library without cutting off singular values"""
    return si.compute_sve(kernel_of(kind, lam_), eps, cutoff=0)


def basis_cfg(ext=0.12, lam_max=3e4, lam_max_ext=42., stats="FB", kinds=KINDS,
              lam_min=0.05, beta_lo=1e-3, beta_hi=1e5, huge=False, big=0):
    """Statistics, beta, wmax, eps and kernel"""
    return _basis_cfg(sve_cfg(ext, lam_max, lam_max_ext, kinds, lam_min, huge,
                              big), stats, beta_lo, beta_hi)


@st.composite
def _basis_cfg(draw, cfg, stats, beta_lo, beta_hi):
    c = draw(cfg)
    stat = draw(st.sampled_from(list(stats)))
    if c["kind"] == "bose":
        if "B" in stats:
            stat = "B"
        else:
            c["kind"] = "log"
    beta = draw(st.one_of(st.sampled_from([1.0, 10.0, 3.7, 250.0, 0.25]),
                          loguniform(beta_lo, beta_hi)))
    return {"stat": stat, "beta": beta, "wmax": c["lam"] / beta,
            "eps": c["eps"], "kind": c["kind"]}


@functools.lru_cache(24)
def _basis(key):
    c = json.loads(key)
    return make_basis(c)


def make_basis(c):
    """Fresh basis"""
    kern = None
    if c["kind"] == "bose":
        kern = kernel_of("bose", c["beta"] * c["wmax"])
    return si.FiniteTempBasis(c["stat"], c["beta"], c["wmax"], c["eps"],
                              kernel=kern, sve_result=big_sve(
                                  c["kind"], c["beta"] * c["wmax"], c["eps"]))


def basis(c):
    return _basis(json.dumps(c, sort_keys=True))


def exhausted_basis(case):
    """Basis made from an expansion consisting of its functions only"""
    c = case["cfg"]
    res = sve(c)
    k = min(case["terms"], int((res.s > 1e-8 * res.s[0]).sum()))
    res = si.SVEResult(res.u[:k], res.s[:k], res.v[:k], res.K, res.eps)
    return si.FiniteTempBasis(
        case["stat"] if c["kind"] == "log" else "B", case["beta"],
        c["lam"] / case["beta"], kernel=res.K, sve_result=res)


EXHAUSTED = {"cfg": sve_cfg(0, 1e5), "terms": st.integers(1, 45),
             "stat": st.sampled_from("FB"), "beta": loguniform(1e-3, 1e5)}


def rng(seed):
    return np.random.default_rng(seed)


SEED = st.integers(0, 2**32 - 1)


def unit_points():
    """Points of [-1, 1] with weight on edges, centre and their vicinity"""
    return st.one_of(
        st.sampled_from([-1.0, 1.0, 0.0, -0.0, 0.5, -0.5]),
        st.floats(-1, 1, allow_nan=False),
        st.floats(-1, 1).map(lambda t: float(np.tanh(6 * t))),
        st.integers(1, 60).map(lambda k: 1 - 2.0**-k),
        st.integers(1, 60).map(lambda k: -1 + 2.0**-k),
        st.integers(1, 200).map(lambda k: 2.0**-k),
        st.integers(1, 200).map(lambda k: -2.0**-k))


def cround(x):
    """Few digits, and no numbers close to underflow"""
    return 0.0 if abs(x) < 1e-30 else float("%.6g" % x)


# --------------------------------------------------------------------------
# user-defined kernels

class CustomHints(si.kernel.AbstractSVEHints):
    def __init__(self, segx, segy, ngauss, nsvals):
        self._v = np.asarray(segx), np.asarray(segy), ngauss, nsvals

    @property
    def segments_x(self):
        return self._v[0]

    @property
    def segments_y(self):
        return self._v[1]

    @property
    def ngauss(self):
        return self._v[2]

    @property
    def nsvals(self):
        return self._v[3]


class CustomKernel(si.kernel.AbstractKernel):
    """User-defined kernel, written the way the base class documents"""
    def __init__(self, c):
        self.c = c
        self.symm = c["symm"]
        hx, hy = c.get("half", [1, 1])
        self._xr = (-hx, hx) if self.symm else tuple(c["xr"])
        self._yr = (-hy, hy) if self.symm else tuple(c["yr"])

    def formula(self, x, y):
        c, s = self.c, self.c["strength"]
        if c["form"] == "exp":
            z = np.exp(s * x * y)
        elif c["form"] == "gauss":
            z = np.exp(-s * (x - y)**2)
        else:
            z = 1 / (1 + s * (x - 0.7 * y)**2)
        if not self.symm:
            z = z * (1 + .3 * x) * np.exp(-.4 * y)
        return z

    def __call__(self, x, y, x_plus=None, x_minus=None):
        x = np.asarray(x)
        if self.c.get("dist") == "plus" and x_plus is not None:
            x = self._xr[0] + np.asarray(x_plus)
        elif self.c.get("dist") == "minus" and x_minus is not None:
            x = self._xr[1] - np.asarray(x_minus)
        return self.formula(x, np.asarray(y))

    def sve_hints(self, eps):
        n = self.c["nseg"]

        def seg(lohi):
            lo, hi = lohi
            if self.symm:
                if self.c.get("nozero"):
                    return np.linspace(lo, hi, 2 * n)
                half = np.linspace(0, hi, n + 1)
                return np.hstack([-half[:0:-1], half])
            t = np.linspace(0, 1, n + 1)**1.2
            res = lo + (hi - lo) * t
            res[-1] = hi
            return res
        return CustomHints(seg(self._xr), seg(self._yr), self.c["ngauss"],
                           self.c["ngauss"] * n)

    @property
    def xrange(self):
        return self._xr

    @property
    def yrange(self):
        return self._yr

    @property
    def is_centrosymmetric(self):
        return self.symm


@st.composite
def custom_kernel_cfg(draw):
    iv = st.tuples(st.floats(-3, 1).map(cround), st.floats(.5, 3).map(cround)
                   ).map(lambda t: [t[0], cround(t[0] + t[1])])
    return {"form": draw(st.sampled_from(["exp", "gauss", "cauchy"])),
            "strength": draw(st.floats(.1, 1.5).map(cround)),
            "symm": draw(st.booleans()), "xr": draw(iv), "yr": draw(iv),
            "half": draw(st.one_of(st.just([1.0, 1.0]), st.lists(
                st.floats(.5, 1.5).map(cround), min_size=2, max_size=2))),
            "nozero": draw(st.booleans()),
            "dist": draw(st.sampled_from(["x", "plus", "minus"])),
            "nseg": draw(st.integers(4, 6)), "ngauss": draw(st.integers(14, 18))}


def is_ext(cfg):
    return cfg["eps"] is None or cfg["eps"] < 1e-8


def func_tol(cfg, rel):
    """Accuracy of singular functions relative to their maximum, where rel is
    the relative singular value.  With extended precision, rounding of the
    result and discretisation; otherwise rounding over the singular value."""
    if is_ext(cfg):
        return 1e-9 + 0 * rel
    lam = cfg["lam"] if "lam" in cfg else cfg["beta"] * cfg["wmax"]
    lax = 100 if cfg["kind"] == "log" and .5 < lam < 2.2 else 1
    return 1e-9 + 3e-13 * lax * (1 + lam / 1e3) / rel
