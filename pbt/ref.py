"""Reference formulas and reference computations, independent of the library"""
import functools

from . import env                                           # noqa: F401
import mpmath
import numpy as np
import xprec
import xprec.linalg

DD = xprec.ddouble


def kernel_value(kind, lam, x, y):
    """Kernel in double precision, good to a few 1e-16 * (1 + lam) absolute"""
    x, y = np.broadcast_arrays(np.asarray(x, float), np.asarray(y, float))
    up, um, v = .5 * (1 + x), .5 * (1 - x), lam * y
    if kind == "log":
        return np.exp(-np.logaddexp(up * v, -um * v))
    if kind == "bose":
        av = np.abs(v)
        e = np.exp(-av * np.where(v >= 0, up, um))
        with np.errstate(all="ignore"):
            q = np.where(av < 1e-150, 1.0, av / -np.expm1(-av))
        return e * q / lam
    raise ValueError(kind)


def kernel_mp(kind, lam, x, y, dps=60, xp=None, xm=None):
    """Kernel at a single point to many digits; xp, xm are 1+x and 1-x"""
    with mpmath.workdps(dps):
        lam, x, y = mpmath.mpf(lam), mpmath.mpf(x), mpmath.mpf(y)
        xp = 1 + x if xp is None else mpmath.mpf(xp)
        v = lam * y
        if kind == "log":
            return mpmath.exp(-xp / 2 * v) / (1 + mpmath.exp(-v))
        if v == 0:
            return 1 / lam
        return y * mpmath.exp(-xp / 2 * v) / -mpmath.expm1(-v)


def kernel_phys(kind, beta, tau, omega):
    """exp(-τω)/(1 + exp(-βω)), or ω exp(-τω)/(1 - exp(-βω))"""
    tau, omega = np.broadcast_arrays(np.asarray(tau, float),
                                     np.asarray(omega, float))
    if kind == "log":
        return np.exp(-np.logaddexp(tau * omega, (tau - beta) * omega))
    bw = np.abs(beta * omega)
    e = np.exp(-np.abs(omega) * np.where(omega >= 0, tau, beta - tau))
    with np.errstate(all="ignore"):
        q = np.where(bw < 1e-150, 1.0, bw / -np.expm1(-bw))
    return e * q / beta


# --------------------------------------------------------------------------
# quadrature

@functools.lru_cache(None)
def gauss(n):
    return np.polynomial.legendre.leggauss(n)


@functools.lru_cache(None)
def gauss_mp(n, dps=40):
    """Nodes, weights as lists of mpf, ascending"""
    with mpmath.workdps(dps):
        xs, ws = [], []
        for x in gauss(n)[0]:
            x = mpmath.mpf(float(x))
            for _ in range(4):
                p0, p1 = mpmath.mpf(1), x
                for k in range(1, n):
                    p0, p1 = p1, ((2*k + 1) * x * p1 - k * p0) / (k + 1)
                dp = n * (x * p1 - p0) / (x**2 - 1)
                x -= p1 / dp
            p0, p1 = mpmath.mpf(1), x
            for k in range(1, n):
                p0, p1 = p1, ((2*k + 1) * x * p1 - k * p0) / (k + 1)
            dp = n * (x * p1 - p0) / (x**2 - 1)
            xs.append(+x)
            ws.append(2 / ((1 - x**2) * dp**2))
        return xs, ws


def to_dd(vals):
    """List of mpf to array of double-doubles"""
    hi = np.array([float(v) for v in vals])
    lo = np.array([float(v - mpmath.mpf(h)) for v, h in zip(vals, hi)])
    return hi.astype(DD) + lo


def composite(edges, n):
    """Composite Gauss rule"""
    x0, w0 = gauss(n)
    edges = np.asarray(edges, float)
    h = .5 * (edges[1:] - edges[:-1])
    m = .5 * (edges[1:] + edges[:-1])
    return (m[:, None] + h[:, None] * x0).ravel(), (h[:, None] * w0).ravel()


def kernel_norm2(kind, lam):
    """Sum of all squared singular values

    The integral of the squared kernel over x is known in closed form.
    """
    e = np.hstack([0, np.geomspace(1e-3, lam, 20 + int(8 * np.log10(1 + lam)))])
    v, w = composite(e if lam > 1e-3 else np.array([0, lam]), 20)
    if kind == "log":
        return 2 / lam * (np.tanh(.5 * v) / v) @ w
    return 2 / lam**3 * (v / np.tanh(.5 * v)) @ w


def edges_x(lam):
    """Half-interval [0, 1] graded towards 1 on the scale 1/lam"""
    k = max(1, int(np.ceil(np.log2(max(lam, 2)))))
    return np.hstack([0, 1 - 2.0**-np.arange(1, k + 1), 1])


def edges_y(lam):
    """Half-interval [0, 1] graded towards 0 on the scale 1/lam"""
    k = max(1, int(np.ceil(np.log2(max(lam, 2)))))
    return np.hstack([0, 2.0**-np.arange(k, 0, -1), 1])


def full(edges):
    return np.hstack([-edges[:0:-1], edges])


@functools.lru_cache(64)
def svals_double(kind, lam, n=18):
    """Singular values, absolutely accurate to some 1e-15 * s[0]"""
    x, wx = composite(edges_x(lam), n)
    y, wy = composite(edges_y(lam), n)
    kp = kernel_value(kind, lam, x[:, None], y)
    km = kernel_value(kind, lam, x[:, None], -y)
    sc = np.sqrt(wx)[:, None] * np.sqrt(wy)
    s = [np.linalg.svd((kp + sg * km) * sc, compute_uv=False)
         for sg in (1, -1)]
    s = np.sort(np.hstack(s))[::-1]
    return s


def _kernel_dd(kind, lam, xp, xm, y):
    """Kernel in extended precision, where xp = 1 + x, xm = 1 - x and y > 0,
    together with the value at -y"""
    v = lam * y
    ep = np.exp(-v * (xp * .5))         # exp(-u+ v)
    em = np.exp(-v * (xm * .5))
    ev = np.exp(-v)
    if kind == "log":
        d = 1 + ev
        return ep / d, em / d
    d = 1 - ev
    return y * ep / d, y * em / d


@functools.lru_cache(16)
def svd_dd(kind, lam, n=20):
    """Singular values and functions in extended precision.

    Returns ``s, parity, x, u[l,x], y, v[l,y]``, sorted, as doubles, where x
    and y are points in (0, 1).  Cancellation in the (anti)symmetrised kernel
    limits the accuracy to about 1e-30 * s[0], which is fine for singular
    values down to 1e-15 * s[0].
    """
    xs, ws = gauss_mp(n)
    x0, w0 = to_dd(xs), to_dd(ws)

    def comp(edges):
        e = edges.astype(DD)
        h = (e[1:] - e[:-1]) * .5
        m = (e[1:] + e[:-1]) * .5
        return ((m[:, None] + h[:, None] * x0[None, :]).reshape(-1),
                (h[:, None] * w0[None, :]).reshape(-1))
    x, wx = comp(edges_x(lam))
    y, wy = comp(edges_y(lam))
    lam = np.array(lam).astype(DD)
    kp, km = _kernel_dd(kind, lam, (1 + x)[:, None], (1 - x)[:, None],
                        y[None, :])
    rx, ry = np.sqrt(wx), np.sqrt(wy)
    sc = rx[:, None] * ry[None, :]
    s, par, u, v = [], [], [], []
    for sg in (1, -1):
        ui, si, vhi = xprec.linalg.svd_trunc((kp + sg * km) * sc)
        s.append(si.astype(float))
        par.append(np.full(si.size, sg))
        # normalised on [-1, 1]
        u.append((ui.T / rx[None, :]).astype(float) / np.sqrt(2))
        v.append((vhi / ry[None, :]).astype(float) / np.sqrt(2))
    s, par = np.hstack(s), np.hstack(par)
    u, v = np.vstack(u), np.vstack(v)
    o = np.argsort(s)[::-1]
    return (s[o], par[o], x.astype(float), u[o], y.astype(float), v[o])


# --------------------------------------------------------------------------
# piecewise polynomials

def leg_coeffs(p, order, knots=None):
    """Legendre coefficients of p on each of its pieces, obtained by sampling

    Result c[k, i, ...] where p = sum_k c[k,i] P_k(xi) with xi in [-1, 1].
    """
    x0, w0 = gauss(order + 2)
    knots = np.asarray(p.knots if knots is None else knots, float)
    h = .5 * np.diff(knots)
    x = knots[:-1, None] + h[:, None] * (1 + x0)
    px = p(x)
    vander = np.polynomial.legendre.legvander(x0, order - 1)
    vander = vander * w0[:, None] * (np.arange(order) + .5)
    c = np.tensordot(px, vander, (-1, 0))           # ..., seg, k
    return np.moveaxis(c, (-1, -2), (0, 1))


def data_coeffs(p):
    """Same as leg_coeffs, from the normalised coefficients stored

    Unlike sampling, this does not suffer from rounding of points close to the
    ends, which high derivatives there are sensitive to.
    """
    return np.asarray(p.data) * np.sqrt(2 / np.asarray(p.dx))[:, None]


def leg_end_derivs(order):
    """Table d[j, k] of the j-th derivatives of P_k at 1"""
    d = np.zeros((order, order))
    for k in range(order):
        v = 1.0
        for j in range(k + 1):
            d[j, k] = v
            v *= (k + j + 1) * (k - j) / (2. * (j + 1))
    return d


def _turns(n, x):
    """exp(iπ n x / 2)"""
    t = np.fmod(np.asarray(n, np.longdouble) * np.asarray(x, np.longdouble), 4)
    t = t.astype(float) * (.5 * np.pi)
    return np.cos(t) + 1j * np.sin(t)


def fourier(c, knots, n, shift=1):
    """Integrals of exp(iπ n (x + shift) / 2) p(x) for pieces c[k, i, ...]"""
    knots = np.asarray(knots, float)
    order, nseg = c.shape[:2]
    h = .5 * np.diff(knots)
    m = .5 * (knots[:-1] + knots[1:])
    flat = c.reshape(order, nseg, -1)
    n = np.atleast_1d(n)
    res = np.zeros((flat.shape[2], n.size), complex)
    ends = leg_end_derivs(order)
    sg = (-1.0)**np.arange(order)
    sgd = sg[None, :] * sg[:, None]
    x0, w0 = gauss(420)
    vander = np.polynomial.legendre.legvander(x0, order - 1)
    thr = max(300., 2. * order**2)
    # derivatives at right, left end: j, seg, func
    right = np.einsum("jk,kif->jif", ends, flat)
    left = np.einsum("jk,kif->jif", ends * sgd, flat)
    for a, ni in enumerate(n):
        theta = .5 * np.pi * abs(ni) * h
        small = theta <= thr
        acc = np.zeros(flat.shape[2], complex)
        if small.any():
            ex = np.exp(1j * theta[small, None] * np.sign(ni) * x0) * w0
            t = ex @ vander * (_turns(ni, m[small] + shift) * h[small])[:, None]
            acc += np.einsum("ik,kif->f", t, flat[:, small])
        if (~small).any():
            it = 1j * theta[~small] * np.sign(ni)
            pw = (-1.0)**np.arange(order)[:, None] / it**(
                np.arange(order)[:, None] + 1)
            er = _turns(ni, knots[1:][~small] + np.longdouble(shift))
            el = _turns(ni, knots[:-1][~small] + np.longdouble(shift))
            acc += np.einsum("ji,jif->f", pw * er * h[~small], right[:, ~small])
            acc -= np.einsum("ji,jif->f", pw * el * h[~small], left[:, ~small])
        res[:, a] = acc
    return res.reshape(c.shape[2:] + n.shape)


def fourier_ends_noise(c, dx, n):
    """Effect of relative rounding in the coefficients on fourier_ends

    Only important if the outermost segments are small.
    """
    order = c.shape[0]
    h = .5 * np.asarray(dx, float)[[0, -1]].min()
    mag = np.abs(c.reshape(*c.shape[:2], -1)[:, [0, -1]]).max((0, 1))
    iw = .5 * np.pi * np.abs(np.atleast_1d(n))
    res = sum(s / (h**j * iw**(j + 1)) for j, s in
              enumerate(leg_end_derivs(order).sum(1)))
    return 1e-15 * np.multiply.outer(mag, res).reshape(c.shape[2:] + iw.shape)


def fourier_ends(c, dx, n):
    """High-frequency expansion of the Fourier integral from the two ends"""
    order = c.shape[0]
    ends = leg_end_derivs(order)
    sg = (-1.0)**np.arange(order)
    h = .5 * np.asarray(dx, float)
    flat = c.reshape(*c.shape[:2], -1)
    j = np.arange(order)[:, None]
    right = (ends @ flat[:, -1]) / h[-1]**j
    left = ((ends * sg[None, :] * sg[:, None]) @ flat[:, 0]) / h[0]**j
    n = np.atleast_1d(n)
    iw = .5j * np.pi * n
    stat = np.where(n % 2 == 0, 1, -1)
    # stat is exp(iπn)
    res = sum((-1.0)**k * (stat * right[k][:, None] - left[k][:, None])
              / iw**(k + 1) for k in range(order))
    return res.reshape(c.shape[2:] + n.shape)
