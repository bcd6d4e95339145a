"""Reference model of what pyregpt computes, written from the published formulas and the documented contract, not from the C.

Everything is plain numpy.  Kernels whose closed form cancels are evaluated in extended precision (80-bit) together with a
bound on the rounding error a double-precision evaluation may have (`cond`)."""
import numpy as np

LD = np.longdouble
EPS = 2.3e-16
PI = np.pi


# ------------------------------------------------------------------------------------------------ linear spectrum
class Table(object):
    """Tabulated spectrum: local polynomial / linear interpolation inside, power law outside."""

    def __init__(self, k, pk):
        self.k, self.pk = np.asarray(k, 'f8'), np.asarray(pk, 'f8')

    def slope(self, lo, hi):
        s = 0.
        for i in range(lo, hi):
            if self.pk[i + 1] <= 0. or self.pk[i - 1] <= 0.:
                return None
            s += np.log(LD(self.pk[i + 1]) / LD(self.pk[i - 1])) / np.log(LD(self.k[i + 1]) / LD(self.k[i - 1]))
        return float(s / (hi - lo))

    def slope_error(self, lo, hi):
        """Bound of the rounding error of the slope, however its logarithms are combined."""
        i = np.arange(lo, hi)
        if (self.pk[lo - 1:hi + 1] <= 0.).any():
            return 0.
        with np.errstate(all='ignore'):
            lp, lk = np.log(self.pk), np.log(self.k)
        d = lk[i + 1] - lk[i - 1]
        err = (np.abs(lp[i + 1]) + np.abs(lp[i - 1]) + np.abs((lp[i + 1] - lp[i - 1]) / d) * (np.abs(lk[i + 1]) + np.abs(lk[i - 1]) + 1.) + 1.) / d
        return 4. * np.finfo('f8').eps * float(np.mean(err))

    def outside_error(self, x):
        """Relative error allowed for the power laws outside the table."""
        x = np.asarray(x, 'f8')
        n = len(self.k)
        e = np.zeros(x.shape)
        low, high = x < self.k[0], x > self.k[-1]
        if low.any():
            e[low] = self.slope_error(1, min(15, n - 1)) * np.abs(np.log(np.maximum(x[low], 1e-300) / self.k[1]))
        if high.any():
            e[high] = self.slope_error(max(1, n - 16), n - 1) * np.log(x[high] / self.k[-1])
        return 1e-10 + e

    def find(self, x, interpol='poly'):
        x = np.asarray(x, 'f8')
        flat = x.ravel()
        out = np.empty(flat.shape)
        n = len(self.k)
        low, high = flat < self.k[0], flat > self.k[-1]
        if low.any():
            s = self.slope(1, min(15, n - 1))
            out[low] = 0. if s is None else self.pk[1] * (flat[low] / self.k[1])**s
        if high.any():
            s = self.slope(max(1, n - 16), n - 1)
            out[high] = 0. if s is None else self.pk[-1] * (flat[high] / self.k[-1])**s
        m = ~(low | high)
        if m.any():
            xx = flat[m]
            i = np.searchsorted(self.k, xx, side='right') - 1
            if interpol == 'lin':
                i = np.minimum(i, n - 2)
                t = (xx - self.k[i]) / (self.k[i + 1] - self.k[i])
                out[m] = self.pk[i] + t * (self.pk[i + 1] - self.pk[i])
            else:
                out[m] = self._poly(xx, i)
        return out.reshape(x.shape)

    def cond(self, x):
        """Sum of |weight * value| of the polynomial interpolation: the scale of its rounding error."""
        x = np.asarray(x, 'f8')
        flat = x.ravel()
        out = np.abs(self.find(flat))
        m = (flat >= self.k[0]) & (flat <= self.k[-1])
        if m.any():
            out[m] = self._poly(flat[m], np.searchsorted(self.k, flat[m], side='right') - 1, True)
        return out.reshape(x.shape)

    def _poly(self, xx, i, absolute=False):
        n = len(self.k)
        lo, hi = np.maximum(i - 2, 0), np.minimum(i + 2, n - 1)
        out = np.zeros(len(xx), LD)
        for width in np.unique(hi - lo):
            m = (hi - lo) == width
            idx = lo[m][:, None] + np.arange(width + 1)
            K, P, X = self.k[idx].astype(LD), self.pk[idx].astype(LD), xx[m].astype(LD)
            tot = np.zeros(len(X), LD)
            for a in range(width + 1):
                w = np.ones(len(X), LD)
                for b in range(width + 1):
                    if b != a:
                        w *= (X - K[:, b]) / (K[:, a] - K[:, b])
                tot += np.abs(w * P[:, a]) if absolute else w * P[:, a]
            out[m] = tot
        return out.astype('f8')

    def scale(self):
        """Magnitude for absolute tolerances."""
        return np.max(np.abs(self.pk))

    def sigmad2(self, k, uvcutoff=0.5):
        """1/(6 pi^2) int_0^{k*uvcutoff} P dq, with the table joined by straight lines and nothing outside it."""
        k = np.asarray(k, 'f8')
        cum = np.concatenate([[0.], np.cumsum(0.5 * (self.pk[1:] + self.pk[:-1]) * np.diff(self.k))])
        x = np.clip(k * uvcutoff, self.k[0], self.k[-1])
        i = np.clip(np.searchsorted(self.k, x, side='right') - 1, 0, len(self.k) - 2)
        t = (x - self.k[i]) / (self.k[i + 1] - self.k[i])
        px = self.pk[i] + t * (self.pk[i + 1] - self.pk[i])
        return (cum[i] + 0.5 * (self.pk[i] + px) * (x - self.k[i])) / (6. * PI**2)


# ------------------------------------------------------------------------------------------------ quadrature grids
_LEG = {}


def leggauss(n):
    if n not in _LEG:
        _LEG[n] = np.polynomial.legendre.leggauss(n)
    return _LEG[n]


class GridQ(object):
    """n Gauss-Legendre nodes in log q; a range that is not positive means that of the table."""

    def __init__(self, tab, n, qmin, qmax, interpol='poly'):
        if qmin <= 0. or qmax <= 0.:
            qmin, qmax = tab.k[0], tab.k[-1]
        x, w = leggauss(n)
        h = 0.5 * (np.log(qmax) - np.log(qmin))
        self.q = np.exp(0.5 * (np.log(qmax) + np.log(qmin)) + h * x)
        self.w = w * h
        self.pk = tab.find(self.q, interpol)
        self.n = n


def mu_range(x, xmin, xmax, half):
    """Range of mu = cos(k,q) for which both q and |k-q| are on the grid's range; half: keep q < |k-q|.

    None if empty.  The third value bounds the rounding error of the bounds: a range that is empty or not only by rounding
    contributes at most that much."""
    lo = max(-1., (1. + x * x - xmax * xmax) / 2. / x)
    hi = min(1., (1. + x * x - xmin * xmin) / 2. / x)
    e = 2e-15 * (1. + (1. + x * x + xmax * xmax) / 2. / x)
    if lo >= 1. + e or hi <= -1. - e or hi <= lo - e:
        return None
    if half and x >= 0.5:
        hi = 0.5 / x
    if hi <= lo:
        hi = lo + 1e-3 * e
    return lo, hi, e


def loop2d(grid, nmu, k, half):
    """Nodes (iq, q, mu, kq, weight in mu, rounding error of that weight) of the integral over q and mu at wavenumber k."""
    x = grid.q / k
    m, wm = leggauss(nmu)
    iqs, mus, ws, es = [], [], [], []
    for iq in range(grid.n):
        r = mu_range(x[iq], x[0], x[-1], half)
        if r is None:
            continue
        lo, hi, e = r
        jac = 0.5 * (hi - lo)
        mus.append((m + 1.) * jac + lo)
        ws.append(wm * jac)
        es.append(wm * e)
        iqs.append(np.full(nmu, iq))
    if not iqs:
        z = np.zeros(0)
        return z.astype(int), z, z, z, z, z
    iqs, mus, ws, es = np.concatenate(iqs), np.concatenate(mus), np.concatenate(ws), np.concatenate(es)
    xx = x[iqs]
    arg = 1. + xx * xx - 2. * mus * xx
    kq = k * np.sqrt(np.maximum(arg, 0.))
    return iqs, xx, mus, kq, ws, es


# ------------------------------------------------------------------------------------------------ Gamma^(1)
def _gamma1_exact(flag, x):
    """Exact kernels of the one-loop propagator (Crocce & Scoccimarro 2006), times x; and rounding-error scale."""
    x = x.astype(LD)
    x2 = x * x
    with np.errstate(all='ignore'):
        lg = np.where(np.abs(x - 1) < 1e-18, LD(0), np.log(np.abs((1 - x) / (1 + x))))
        if flag == 'delta':
            t = [6 / x2, -79 + 0 * x, 50 * x2, -21 * x2 * x2, LD(1.5) * (1 / x - x)**3 * (2 + 7 * x2) * lg]
            d = LD(504)
        else:
            t = [6 / x2, -41 + 0 * x, 2 * x2, -3 * x2 * x2, LD(1.5) * (1 / x - x)**3 * (2 + x2) * lg]
            d = LD(168)
        # |log| itself is computed with an absolute error of an ulp of its argument
        lerr = np.abs(LD(1.5) * (1 / x - x)**3 * (2 + 7 * x2)) * (np.abs(lg) + 1)
        val = sum(t) / d
        err = (sum(np.abs(u) for u in t) + lerr) / d * EPS
    return val, err


def gamma1_kernel(flag, x):
    """(value, tolerance) of kernel * x: exact, with the truncation the published series may have near x=1 and at large x."""
    x = np.asarray(x, 'f8')
    val, err = _gamma1_exact(flag, x)
    big = x > 30.
    if big.any():    # asymptotic series of the exact kernel (the closed form cancels there)
        xb = x[big].astype(LD)
        if flag == 'delta':
            s = -LD(61) / 630 + LD(2) / 105 / xb**2 - LD(10) / 1323 / xb**4
        else:
            s = -LD(3) / 10 + LD(26) / 245 / xb**2 - LD(38) / 2205 / xb**4
        val[big] = s
    tol = np.where(np.abs(x - 1) < 0.0101, 0.6 * np.abs(x - 1)**3 * (1 + np.abs(np.log(np.maximum(np.abs(x - 1), 1e-30)))), 8 * err.astype('f8'))
    tol = np.where(x > 9.99, 0.06 / x**6 + 1e-14, tol)
    # between 9.99 and 10 both forms are legitimate
    tol = np.where(np.abs(x - 10) < 0.02, 0.06 / x**6 + 8 * err.astype('f8'), tol)
    return (val * x).astype('f8'), tol * x + 1e-15


def gamma1_1loop(flag, grid, k):
    v, t = gamma1_kernel(flag, grid.q / k)
    f = k**3 / (2 * PI**2)
    return f * np.sum(v * grid.pk * grid.w), f * np.sum((t + 1e-13 * np.abs(v)) * np.abs(grid.pk * grid.w))


# ------------------------------------------------------------------------------------------------ second-order kernels
def F2(flag, p2, q2, pq):
    if flag == 'delta':
        return 5. / 7. + 0.5 * pq * (1. / p2 + 1. / q2) + 2. / 7. * pq**2 / (p2 * q2)
    return 3. / 7. + 0.5 * pq * (1. / p2 + 1. / q2) + 4. / 7. * pq**2 / (p2 * q2)


def gamma2_tree(flag, k1, k2, k3):
    return F2(flag, k1**2, k2**2, 0.5 * (k3**2 - k1**2 - k2**2))


def F2_err(flag, p2, q2, pq, big2):
    """Bound on the rounding error of F2 where pq is a difference of squares as large as big2."""
    c = 2. / 7. if flag == 'delta' else 4. / 7.
    return 3e-15 * big2 * (0.5 * (1. / p2 + 1. / q2) + 2 * c * np.abs(pq) / (p2 * q2)) + 1e-15 * np.abs(0.5 * pq * (1. / p2 + 1. / q2)) + 1e-15


def pk_gamma2_tree(tab, grid, nmu, interpol_mu, a, b, k):
    """P^(2)_ab = 2 int d^3q/(2pi)^3 F2_a F2_b P(q) P(|k-q|) over the half domain q < |k-q|, doubled; and its tolerance."""
    iq, x, mu, kq, w, we = loop2d(grid, nmu, k, True)
    pkq = tab.find(kq, interpol_mu)
    q = grid.q[iq]
    F, E = {}, {}
    for fl in (a, b):
        pq = k * q * mu - q * q                 # q.(k-q), without cancellation
        F[fl] = F2(fl, kq**2, q**2, pq)
        E[fl] = F2_err(fl, kq**2, q**2, pq, np.maximum(kq, k)**2)
    pw = 2. * grid.pk[iq] * pkq * x**3 * grid.w[iq]
    pp = pw * w
    f = k**3 / (2 * PI**2)
    s = pp * F[a] * F[b]
    # kq itself is a square root of a sum: its relative error grows where k ~ q
    return f * np.sum(s), f * np.sum(np.abs(pp) * (np.abs(F[a]) * E[b] + np.abs(F[b]) * E[a]) + 2e-12 * np.abs(s) + np.abs(pw * we * F[a] * F[b]))


class Loop(object):
    """All nodes of a (q, mu) quadrature at one wavenumber, with the spectra there and rounding-error bounds."""

    def __init__(self, tab, grid, nmu, interpol_mu, k, half, tab2=None):
        self.k, self.grid = k, grid
        self.iq, self.x, self.mu, self.kq, self.w, self.we = loop2d(grid, nmu, k, half)
        self.q = grid.q[self.iq]
        self.y = np.maximum(1. + self.x * self.x - 2. * self.mu * self.x, 1e-300)
        self.pq = grid.pk[self.iq]
        self.pkq = tab.find(self.kq, interpol_mu)
        self.yerr = 4e-16 * (1. + self.x**2 + 2 * np.abs(self.mu) * self.x) / self.y      # relative, of y = (kq/k)^2
        self.muqkq = (self.mu - self.x) / np.sqrt(self.y)                       # cosine of q and k-q
        self.muerr = 4e-16 * np.maximum(1., np.maximum(self.x, np.sqrt(self.y)))**2 / (self.x * np.sqrt(self.y)) + self.yerr
        self.wq = grid.w[self.iq]

    def sum(self, vals, errs, power=3):
        """Sum of vals over the nodes with measure x^power dlnx dmu; and its tolerance, where errs bounds the error of vals."""
        m = self.x**power * self.wq
        s = vals * m * self.w
        return np.sum(s), np.sum(errs * m * np.abs(self.w)) + np.sum(np.abs(vals) * m * self.we) + 1e-12 * np.sum(np.abs(s))


# ------------------------------------------------------------------------------------------------ bias terms
def bias_terms(tab, grid, nmu, interpol_mu, k):
    """McDonald & Roy (2009) integrals: {term: (value, tolerance)}."""
    out = {}
    f = k**3 / (4 * PI**2)
    L = Loop(tab, grid, nmu, interpol_mu, k, True)
    pp = L.pq * L.pkq
    s2 = L.muqkq**2 - 1. / 3.
    s2e = 2 * np.abs(L.muqkq) * L.muerr
    for suf, fl in (('d', 'delta'), ('t', 'theta')):
        # F2 in terms of the cosine, with the error of q.(k-q)
        c = 2. / 7. if fl == 'delta' else 4. / 7.
        r = L.x / np.sqrt(L.y)
        F = (5. / 7. if fl == 'delta' else 3. / 7.) + 0.5 * L.muqkq * (r + 1. / r) + c * L.muqkq**2
        Fe = L.muerr * (0.5 * (r + 1. / r) + 2 * c * np.abs(L.muqkq)) + 1e-15 * (np.abs(L.muqkq) * (r + 1. / r) + 1)
        for name, ang, ange in (('pk_b2', 1., 0.), ('pk_bs2', s2, s2e)):
            v, t = L.sum(2 * pp * F * ang, 2 * np.abs(pp) * (Fe * np.abs(ang) + np.abs(F) * ange + 4 * L.yerr * np.abs(F * ang)))
            out[name + suf] = f * v, f * t
    L = Loop(tab, grid, nmu, interpol_mu, k, False)
    s2 = L.muqkq**2 - 1. / 3.
    s2e = 2 * np.abs(L.muqkq) * L.muerr
    pe = 4 * L.yerr * np.abs(L.pkq)
    aq = np.abs(L.pq)
    for name, ang, ange, const in (('pk_b22', 1., 0., 1.), ('pk_b2s2', s2, s2e, 2. / 3.), ('pk_bs22', s2**2, 2 * np.abs(s2) * s2e, 4. / 9.)):
        v, t = L.sum(0.5 * L.pq * (ang * L.pkq - const * L.pq),
                     0.5 * aq * (np.abs(ang) * pe + ange * np.abs(L.pkq)) + 1e-12 * aq * (np.abs(ang * L.pkq) + const * aq))
        out[name] = f * v, f * t
    d2 = 2. / 7. * (L.mu**2 - 1.)
    v, t = L.sum(105. / 16. * L.pq * (d2 * s2 + 8. / 63.), 105. / 16. * aq * (np.abs(d2) * s2e + 1e-15))
    out['sigma3sq'] = f * v, f * t
    return out


# ------------------------------------------------------------------------------------------------ redshift-space projections
def F2c(flag, p2, q2, pq):
    """Second-order kernel and the sum of the magnitudes of its terms."""
    c0, c2 = (5. / 7., 2. / 7.) if flag == 'delta' else (3. / 7., 4. / 7.)
    t = 0.5 * pq * (1. / p2 + 1. / q2), c2 * pq**2 / (p2 * q2)
    return c0 + t[0] + t[1], c0 + np.abs(t[0]) + np.abs(t[1])


def project_A(x, v, y, B):
    """Five components of 2 x <p_z B_sigma(p, k-p, -k)> / (k p) averaged over the azimuth, where B[X+Y] = <theta X Y>.

    A(k,mu) = k mu f int d^3p/(2pi)^3 p_z/p^2 [B_sigma(p,k-p,-k) - B_sigma(p,k,-k-p)]   (Taruya, Nishimichi & Saito 2010)"""
    s2 = 1. - v * v
    c1 = -x * s2 + 1.5 * x * x * v * s2
    c3 = v - 2. * x * (v * v - 0.5 * s2) + x * x * (v**3 - 1.5 * v * s2)
    return 2. * x * np.array([B['dd'] * v, B['td'] * c1 / y, B['td'] * c3 / y + B['dt'] * v, B['tt'] * c1 / y, B['tt'] * c3 / y])


_FL = {'d': 'delta', 't': 'theta'}


def _A_piece(x, v, y, which):
    """Projection of one of the three permutations of the tree-level bispectrum (its two spectra divided out)."""
    B = {}
    for X in 'dt':
        for Y in 'dt':
            if which == 'pq':      # P(p) P(|k-p|)
                F = F2(_FL[Y], x * x, y, x * v - x * x)
            elif which == 'pk':    # P(p) P(k)
                F = F2(_FL[X], x * x, 1., -x * v)
            else:                  # P(|k-p|) P(k)
                F = F2('theta', y, 1., -(1. - x * v))
            B[X + Y] = 2. * F
    return project_A(x, v, y, B)


def A_tree_kernels(x, v):
    """Kernels of P(k)P(|k-p|) and of P(p)P(|k-p|), symmetrised under p <-> k-p, and their rounding-error scale."""
    x, v = np.asarray(x, LD), np.asarray(v, LD)      # 1 - vs^2 cancels for small x
    y = np.maximum(1. + x * x - 2. * x * v, LD(1e-300))
    xs = np.sqrt(y)
    vs = (1. - x * v) / xs
    jac = x * x / y          # kernels are densities in x dlnx dmu, d^3p = x^3 dlnx dmu
    kA = 0.5 * (_A_piece(x, v, y, 'qk') + jac * _A_piece(xs, vs, x * x, 'pk'))
    kt = 0.5 * (_A_piece(x, v, y, 'pq') + jac * _A_piece(xs, vs, x * x, 'pq'))
    # magnitudes of the polynomials of the published closed forms
    kA, kt, x, y = kA.astype('f8'), kt.astype('f8'), x.astype('f8'), y.astype('f8')
    scale = np.abs(x**3) * (1. + x)**2 * 60. / y**2, 120. * (1. + x)**2 / y**2
    return kA, kt, 3e-16 * scale[0] * 4, 3e-16 * scale[1] * 4


_ACACHE = {}


def A_tree_pk(x):
    """Kernel of P(p)P(k), integrated over mu (symmetrised as above); vector of x."""
    new = [t for t in np.unique(x) if t not in _ACACHE]
    n, w = leggauss(160)
    n, w = n.astype(LD), w.astype(LD)
    for i in range(0, len(new), 256):
        b = np.array(new[i:i + 256]).astype(LD)[:, None]
        out = np.zeros((5, len(b)))
        near = (b[:, 0] > 0.2) & (b[:, 0] < 5.)
        for sel, logy in ((~near, False), (near, True)):
            if not sel.any():
                continue
            X = b[sel]
            if logy:      # a pole at y=0 close to the end: integrate in log y
                lo, hi = 2 * np.log(np.maximum(np.abs(1 - X), 1e-12)), 2 * np.log(1 + X)
                Y = np.exp(0.5 * (hi + lo) + 0.5 * (hi - lo) * n)
                V = (1 + X * X - Y) / (2 * X)
                W = 0.5 * (hi - lo) * w * Y / (2 * X)
            else:
                V = n + 0 * X
                Y = 1 + X * X - 2 * X * V
                W = w + 0 * X
            xs = np.sqrt(Y)
            vs = (1 - X * V) / xs
            XX = X + 0 * V
            f = 0.5 * (_A_piece(XX, V, Y, 'pk') + XX * XX / Y * _A_piece(xs, vs, XX * XX, 'qk'))
            out[:, sel] = np.sum(f * W, axis=-1).astype('f8')
        for j in range(len(b)):
            _ACACHE[new[i + j]] = out[:, j]
    val = np.array([_ACACHE[t] for t in x]).T.reshape(5, len(x))
    # the closed form cancels at both ends; series below 1e-4 and above 1e2
    c = np.minimum(np.minimum(x, 1.)**-2, 1e8) + np.minimum(np.maximum(x, 1.)**4, 1e8)
    tol = 2e-14 * c * 0.5 + 1e-13
    tol = np.where((x < 0.9999e-4) | (x > 1.0001e2), 3e-15 + 1e-9 * np.minimum(x, 1. / x)**2, tol)
    return val, tol


def A_1loop(tab, grid, nmu, interpol_q, interpol_mu, k):
    """Five components of the 1-loop A term and their tolerances."""
    L = Loop(tab, grid, nmu, interpol_mu, k, False)
    pk = tab.find(np.array([k]), interpol_q)[0]
    f = k**3 / (4 * PI**2)
    if len(L.q) == 0:
        return np.zeros(5), np.zeros(5)
    kA, kt, eA, et = A_tree_kernels(L.x, L.mu)
    iq = np.unique(L.iq)
    xq = grid.q[iq] / k
    ka, ea = A_tree_pk(xq)
    val, tol = np.zeros(5), np.zeros(5)
    for c in range(5):
        s = (kA[c] * pk + kt[c] * L.pq) * L.pkq
        e = ((eA * np.abs(pk) + et * np.abs(L.pq)) + 8 * L.yerr * (np.abs(kA[c] * pk) + np.abs(kt[c] * L.pq))) * np.abs(L.pkq)
        v, t = L.sum(s, e, 1)
        m = xq * grid.w[iq] * pk * grid.pk[iq]
        val[c] = f * (v + np.sum(ka[c] * m))
        tol[c] = f * (t + np.sum(np.abs(m) * (ea + 1e-12 * np.abs(ka[c]))))
    return val, tol


def _moment(a, b, P, Q, T2):
    """<p_z^a q_z^b> over the azimuth as {power of mu: coefficient}, p_z = P mu + T s c, q_z = Q mu - T s c, s^2 = 1-mu^2."""
    from math import comb
    out = {}
    for i in range(a + 1):
        for j in range(b + 1):
            n = i + j
            if n % 2:
                continue
            avg = 1.
            for t in range(1, n, 2):
                avg *= t / (t + 1.)
            coef = comb(a, i) * comb(b, j) * (-1.)**j * avg * P**(a - i) * Q**(b - j) * T2**(n // 2)
            for h in range(n // 2 + 1):    # (1-mu^2)^(n/2)
                p = a + b - n + 2 * h
                out[p] = out.get(p, 0.) + coef * comb(n // 2, h) * (-1.)**h
    return out


# (power of mu beyond mu^0 of the prefactor (k mu f)^2, power of f) of the nine components
B_COMPS = [(0, 0), (0, 1), (0, 2), (2, 0), (2, 1), (2, 2), (4, 1), (4, 2), (6, 2)]


def B_terms(tab_dt, tab_tt, grid, nmu, interpol, k):
    """B(k,mu) = (k mu f)^2 int d^3p/(2pi)^3 F(p) F(k-p), F(p) = p_z/p^2 [P_dt + f p_z^2/p^2 P_tt]; values and tolerances."""
    L = Loop(tab_dt, grid, nmu, interpol, k, True)
    f = k**3 / (4 * PI**2)
    if len(L.q) == 0:
        return np.zeros(9), np.zeros(9)
    dq, tq = tab_dt.find(grid.q, interpol)[L.iq], tab_tt.find(grid.q, interpol)[L.iq]
    dk, tk = tab_dt.find(L.kq, interpol), tab_tt.find(L.kq, interpol)
    x2, y = L.x**2, L.y
    slope = 10.       # damped spectra can be very steep
    for t, p in ((tab_dt, dk), (tab_tt, tk)):
        with np.errstate(all='ignore'):
            sl = np.abs(t.find(L.kq * (1 + 1e-7), interpol) / p - 1.) * 1e7
        slope = slope + np.where(np.isfinite(sl), np.minimum(sl, 1e5), 0.)
    P, Q, T2 = L.x * L.mu, 1. - L.x * L.mu, x2 * (1. - L.mu**2)
    m11, m31, m13, m33 = [_moment(a, b, P, Q, T2) for a, b in ((1, 1), (3, 1), (1, 3), (3, 3))]
    val, tol = np.zeros(9), np.zeros(9)
    z = np.zeros_like(P)
    for c, (p, n) in enumerate(B_COMPS):
        if n == 0:
            parts = [(m11.get(p, z) / (x2 * y), dq * dk)]
        elif n == 1:
            parts = [(m31.get(p, z) / (x2**2 * y), tq * dk), (m13.get(p, z) / (x2 * y**2), dq * tk)]
        else:
            parts = [(m33.get(p, z) / (x2**2 * y**2), tq * tk)]
        s = 2. * sum(a * b for a, b in parts)
        # magnitude of the polynomials of the published forms: x (1+x)^3 / y (or y^2) with coefficients up to 300, times x^-3
        scale = (1. + L.x)**3 / x2 / y * (1. if n == 0 else (1. + x2) / y) * 300.
        e = 2. * sum(np.abs(b) * (4e-16 * scale + slope * L.yerr * np.abs(a)) for a, b in parts)
        v, t = L.sum(s, e, 3)
        val[c], tol[c] = f * v, f * t
    return val, tol


def pk_1loop(t, D, sigmad2=None):
    """1-loop spectrum from its terms: Taruya et al. (2012) eqs. 23-24."""
    s = np.asarray(t['sigmad2'] if sigmad2 is None else sigmad2)
    f = 0.5 * t['k']**2 * D**2 * s
    ga, gb = [D * (1. + f + D**2 * t['gamma1%s_1loop' % c]) for c in 'ab']
    return np.exp(-2. * f) * (ga * gb * t['pk_lin'] + D**4 * t['pk_gamma2_tree_tree'])


# ------------------------------------------------------------------------------------------------ two-loop propagator
_BETA_SER = {'delta': [120424. / 3009825, 0., 2792. / 429975, 2792. / 429975, 0.0039527718439283065133, 0.0014121429087415481973, -0.00026518125942511081182,
                       -0.0010792006605716705141, -0.0012999532204137123028, -0.0011974768646668175711, -0.00096198064369948508219],
             'theta': [594232. / 33108075, 0., 91912. / 33108075, 91912. / 33108075, 0.0016643911758321158145, 0.00055266202452349638497, -0.00017131842639668147494,
                       -0.00050755017692841773523, -0.00058093539659592654217, -0.00051637625492342204202, -0.00040060166197334351309]}


def beta_2loop(flag, q1, q2):
    """Function of |q1-q2|/(q1+q2) of the two-loop propagator kernel, and the accuracy of its series and closed form."""
    y = np.abs(q1 - q2) / (q1 + q2)
    d = 1. - y
    ser = sum(c * d**p for p, c in enumerate(_BETA_SER[flag]))
    Y = np.minimum(y, 0.97).astype(LD)
    with np.errstate(all='ignore'):
        lg = np.where(Y > 0, np.log(np.where(Y > 0, Y, 1)), 0)
    if flag == 'delta':
        c, m, n = (-11191, 118054, -18215), (3467, -790, 3467), LD(429975)
    else:
        c, m, n = (-54373, 562162, -408245), (14561, -10690, 14561), LD('4729725')
    num = c[0] + c[1] * Y**2 + c[2] * Y**4 - c[2] * Y**8 - c[1] * Y**10 - c[0] * Y**12 + 120 * Y**4 * (m[0] + m[1] * Y**2 + m[2] * Y**4) * lg
    val = (2 * (1 + Y**2) * num / (n * (Y**2 - 1)**7)).astype('f8')
    den = np.maximum(1. - y * y, 0.09)**7
    tol = 2e-15 / den + 1e-14
    if flag == 'theta':
        tol = tol * 1.5
    # the exact value: series (order 10) near y=1, closed form in extended precision elsewhere
    out = np.where(d < 0.1, ser, val)
    tol = np.where(d < 0.0501, 3 * d**5 * 1.5e-3 + 1e-14, tol)
    tol = np.where((d > 0.0499) & (d < 0.101), tol + 1e-13, tol)
    tol = np.where(y < 0.0101, 3 * y**4 * (1 + np.abs(np.log(np.maximum(y, 1e-30)))) * 2.5 + 1e-14, tol)
    return out, tol


def alpha_2loop(flag, q1, q2):
    qr2 = q1 * q1 + q2 * q2
    s = q1 * q2 / np.sqrt(qr2)
    r = np.sqrt(qr2)
    t = s * np.sqrt(2.)
    if flag == 'delta':
        c = 0.02088557981734545 / (35.09866396385646 * s**4 + 4.133811416743832 * s**2 + 1.) - 0.076100391588544 * s**3 / (77.79670692480381 * s**6 + 1.)
        d = -0.022168478217299517 / (7.030631093970638 * r**4 + 2.457866449142683 * r**2 + 1.) + 0.009267495321465601 * r**2 / (4.11633699497035 * r**10 + 1.)
        g = 0.3191221482038663 * t**4 / (1.3549058352752525 * t**4 + 1.) + 1.2805575495849764 / (18.192939946270577 * t**4 + 3.98817716852858 * t**2 + 1.) + 0.764469131436698
    else:
        c = -0.008217140060512867 / (42.14072830553836 * s**4 + 1.367564560397748 * s**2 + 1.) + 0.01099093588476197 * s**3 / (28.490424851390667 * s**8 + 1.)
        d = 0.008023147297149955 / (2.238261369090066 * r**5 + 1.) - 0.006173880966928251 * r**2 / (0.4711737436482179 * r**5 + 1.)
        g = 1.528058751211026 * (2.4414566000839355 * t**4 + 1.8616263354608626 * t**2) / (2.4414566000839355 * t**4 + 1.) + 2.5227965281961247 / (0.0028106312591877226 * t**4 + 1.0332351481570086 * t**2 + 1.) - 0.528058751211026
    b, e = beta_2loop(flag, q1, q2)
    return (b - c - d) * g, (e + 1e-15 * (np.abs(b) + np.abs(c) + np.abs(d))) * np.abs(g)


def gamma1_2loop(flag, grid, k):
    """Double integral of the fitted kernel; half the square of the one-loop term is added by the caller."""
    q1, q2 = np.meshgrid(grid.q, grid.q, indexing='ij')
    v, e = alpha_2loop(flag, q1 / k, q2 / k)
    w = np.multiply.outer(grid.w * grid.pk * grid.q**3, grid.w * grid.pk * grid.q**3) / ((q1 / k)**2 + (q2 / k)**2) / (4 * PI**4)
    return -np.sum(v * w), np.sum((e + 1e-13 * np.abs(v)) * np.abs(w))


# ------------------------------------------------------------------------------------------------ third order, pointwise
def F3_scalar(flag, p, q, r):
    """Symmetrised third-order kernel of vectors (arrays [n,3], long double) by the recursion of perturbation theory, with the
    sum of the absolute values of its parts.  Kernels of vectors that add up to zero vanish."""
    vec = [np.asarray(v, LD) for v in (p, q, r)]
    dot = lambda a, b: (a * b).sum(axis=-1)
    alpha = lambda a, b: 1 + dot(a, b) / dot(a, a)
    beta = lambda a, b: dot(a + b, a + b) * dot(a, b) / (2 * dot(a, a) * dot(b, b))

    def two(a, b):
        s = (alpha(a, b) + alpha(b, a)) / 2
        be = beta(a, b)
        return (5 * s + 2 * be) / 7, (3 * s + 4 * be) / 7

    tot = np.zeros(len(vec[0]), LD)
    mag = np.zeros(len(vec[0]), LD)
    for i in range(3):
        a, b, c = vec[i], vec[(i + 1) % 3], vec[(i + 2) % 3]
        bc = b + c
        F2_, G2_ = two(b, c)
        x, y = (7, 2) if flag == 'delta' else (3, 6)
        parts = [x * alpha(a, bc) * F2_, y * beta(a, bc) * G2_, x * alpha(bc, a) * G2_, y * beta(bc, a) * G2_]
        tot = tot + sum(parts) / 18
        mag = mag + (np.abs(x * F2_) + np.abs(x * G2_) + sum(np.abs(t) for t in parts)) / 18
        # rounding of the vector sums
        big = np.maximum(np.sqrt(dot(b, b)), np.sqrt(dot(c, c)))
        mag = mag + (big / np.sqrt(dot(bc, bc))) * sum(np.abs(t) for t in parts) / 18
    return tot / 3, mag / 3


def gamma3_points(tab, interpol, k, lo, hi, u, a, b):
    """Integrand of the third-order term at points u of the unit cube: value, tolerance, and whether the point is so close to
    the border of the domain that rounding decides."""
    u = np.asarray(u, LD)
    L = np.log(LD(hi)) - np.log(LD(lo))
    p, q = np.exp(np.log(LD(lo)) + L * u[:, 0]), np.exp(np.log(LD(lo)) + L * u[:, 3])
    pi = LD(np.pi)
    t1, f1, t2 = u[:, 1] * pi, u[:, 2] * 2 * pi, u[:, 4] * pi
    P = np.stack([p * np.sin(t1) * np.cos(f1), p * np.sin(t1) * np.sin(f1), p * np.cos(t1)], -1)
    Q = np.stack([q * np.sin(t2), 0 * q, q * np.cos(t2)], -1)
    K = np.array([0, 0, k], LD)
    R = K - P - Q
    r = np.sqrt((R * R).sum(-1))
    kp = K - P
    big = np.maximum(np.maximum(p, q), k)
    edge = (Q * kp).sum(-1) - (kp * kp).sum(-1) / 2         # exchange of q and k-p-q: half of the domain is enough
    close = (np.abs(edge) < 1e-12 * big**2) | (np.abs(r - lo) < 1e-12 * big) | (np.abs(r - hi) < 1e-12 * big)
    inside = (edge <= 0) & (r >= lo) & (r <= hi)
    Fa, Ma = F3_scalar(a, P, Q, R)
    Fb, Mb = (Fa, Ma) if a == b else F3_scalar(b, P, Q, R)
    f8 = lambda x: np.asarray(x, 'f8')
    pk = tab.find(f8(p), interpol) * tab.find(f8(q), interpol) * tab.find(f8(r), interpol)
    vol = (2 * pi) * (L * pi * p**3 * np.sin(t1)) * (L * pi * q**3 * np.sin(t2)) * (2 * pi)
    w = 2 * pk * vol
    val = np.where(inside, w * Fa * Fb, 0)
    nrm = lambda x: np.sqrt((x * x).sum(-1))
    small = np.minimum(np.minimum(r, nrm(P + Q)), np.minimum(np.minimum(nrm(P + R), nrm(Q + R)), np.minimum(p, q)))
    x = big / small
    e = 5e-13 * (1 + x + 1e-2 * x * x)
    tol = np.abs(w) * (e * (np.abs(Fa) * Mb + np.abs(Fb) * Ma) + e * e * Ma * Mb + 1e-9 * np.abs(Fa * Fb))
    return f8(val), f8(np.where(inside, tol, 0)), f8(np.abs(w * Fa * Fb)), close


# ------------------------------------------------------------------------------------------------ 1-loop bispectrum
def damping(tab, uvcutoff, *ks):
    """Exponent of the damping of a bispectrum of sides ks: sum of k^2 sigma_d^2(k) / 2."""
    return sum(np.asarray(k)**2 * tab.sigmad2(k, uvcutoff) for k in ks) / 2


def tA_swap(x, v):
    """The p <-> k-p image of (x, v)."""
    y = np.maximum(1. + x * x - 2. * x * v, 1e-300)
    xs = np.sqrt(y)
    return xs, (1. - x * v) / xs, y


def project_both(x, v, BA, BtA):
    """Projection of a node and of its p <-> k-p image (where p and k-p exchange their roles)."""
    xs, vs, y = tA_swap(x, v)
    return project_A(x, v, y, BA) + x * x / y * project_A(xs, vs, x * x, BtA)


def A_2loop_I(tab, grid, nmu, interpol, uvcutoff, grid1, gamma2, k):
    """Five components of the part of the 2-loop A term with one- and two-point propagators.

    gamma2(flag, k1, k2, k3): 1-loop correction of the second-order propagator.  Below fixed wavenumbers (1e-2 for the sides k, p,
    3e-2 for the third) the propagators are their tree-level values."""
    L = Loop(tab, grid, nmu, 'poly', k, True)
    keep = L.w > 1e-9
    val, tol = np.zeros(5), np.zeros(5)
    f = k**3 / (4 * PI**2)
    for i in np.where(keep)[0]:
        x, v, p, kp = L.x[i], L.mu[i], L.q[i], L.kq[i]
        side = np.array([p, kp, k])
        P = tab.find(side, interpol)
        s2 = 0.5 * side**2 * tab.sigmad2(side, uvcutoff)
        on = (k >= 1e-2) & (side >= np.array([1e-2, 3e-2, 1e-2]))
        g1 = {fl: [1. + s2[j] + gamma1_1loop(fl, grid1, side[j])[0] if on[j] else 1. for j in range(3)] for fl in ('delta', 'theta')}
        on2 = k >= 1e-2                                          # then the largest side is too

        def g2(fl, j):                                           # opposite side j, out of the two others
            a, b = [n for n in range(3) if n != j]
            t = gamma2_tree(fl, side[a], side[b], side[j])
            e = F2_err(fl, side[a]**2, side[b]**2, 0.5 * (side[j]**2 - side[a]**2 - side[b]**2), side.max()**2)
            if not on2:
                return t, 1e-9 * abs(t) + e
            v, ev = gamma2(fl, side[a], side[b], side[j])
            return t * (1. + s2[j]) + v, ev + 1e-9 * abs(t) * (1. + s2[j]) + e * (1. + s2[j])

        G2 = {fl: [g2(fl, j) for j in range(3)] for fl in ('delta', 'theta')}

        def B(f0, f1, f2, err):                                  # fields of the sides p, k-p, k
            fl = (f0, f1, f2)
            s = 0.
            for j in range(3):
                a, b = [n for n in range(3) if n != j]
                w = g1[fl[a]][a] * g1[fl[b]][b] * P[a] * P[b]
                s += abs(G2[fl[j]][j][1] * w) + 1e-9 * abs(G2[fl[j]][j][0] * w) if err else G2[fl[j]][j][0] * w
            return 2. * s * np.exp(-s2.sum())

        r = []
        for err in (False, True):
            BA = {X + Y: B('theta', _FL[X], _FL[Y], err) for X in 'dt' for Y in 'dt'}
            BtA = {X + Y: B(_FL[X], 'theta', _FL[Y], err) for X in 'dt' for Y in 'dt'}
            xs, vs, y = tA_swap(x, v)
            P_ = project_A_abs if err else project_A
            r.append(P_(x, v, y, BA) + x * x / y * P_(xs, vs, x * x, BtA))
        m = f * x * L.wq[i] * L.w[i]
        val += m * r[0]
        tol += m * r[1]
    return val, tol


def F2_vec(flag, a, b):
    dot = lambda u, v: (u * v).sum(-1)
    aa, bb, ab = dot(a, a), dot(b, b), dot(a, b)
    m = ab * ab / (aa * bb)
    s = ab * (1 / aa + 1 / bb) / 2
    return (5 + 2 * m) / 7 + s if flag == 'delta' else (3 + 4 * m) / 7 + s


def bispectrum_222_321(tab, interpol, K, q, fl):
    """Integrand over q of the parts with three second-order kernels and with a third- and a second-order kernel of the 1-loop
    bispectrum of K[0]+K[1]+K[2]=0, with the loop wavenumber q the smallest on its loop, averaged over q and -q; and its scale."""
    dot = lambda u, v: (u * v).sum(-1)
    nrm = lambda u: np.sqrt(dot(u, u))
    pk = lambda u: tab.find(np.asarray(nrm(u), 'f8'), interpol)
    tot, mag = np.zeros(len(q), LD), np.zeros(len(q), LD)
    nq = nrm(q)
    pq = pk(q)
    close = np.zeros(len(q), bool)
    for s in (1, -1):
        Q = s * q
        for c in range(3):               # the loop line Q joins the vertices a and b; c is the third vertex
            a, b = (c + 1) % 3, (c + 2) % 3
            ra, rb = K[a] - Q, K[b] + Q
            na, nb = nrm(ra), nrm(rb)
            close |= (np.abs(na - nq) < 1e-12 * np.maximum(na, nq)) | (np.abs(nb - nq) < 1e-12 * np.maximum(nb, nq))
            t = F2_vec(fl[a], ra, Q) * F2_vec(fl[b], rb, -Q) * F2_vec(fl[c], ra, rb) * pk(ra) * pk(rb) * pq * 8 / 2
            t = np.where((na > nq) & (nb > nq), t, 0)
            tot += t
            mag += np.abs(t) * (1 + np.maximum(na, nb) / nrm(K[c]))
        for a in range(3):               # third order at vertex a, second order at vertex b, linear at vertex c
            for b in range(3):
                if a == b:
                    continue
                c = 3 - a - b
                r = K[b] - Q
                nr = nrm(r)
                close |= np.abs(nr - nq) < 1e-12 * np.maximum(nr, nq)
                F3, M3 = F3_scalar(fl[a], K[c], r, Q)
                w = F2_vec(fl[b], r, Q) * pk(r) * pk(K[c]) * pq * 6 * 2 / 2
                w = np.where(nr > nq, w, 0)
                tot += w * F3
                x = np.maximum(nrm(K[c]), np.maximum(nr, nq)) / np.minimum(np.minimum(nrm(K[c]), nq), np.minimum(nrm(K[c] + r), np.minimum(nrm(K[c] + Q), nrm(K[b]))))
                mag += np.abs(w) * M3 * (1 + x + 0.01 * x * x)
    return tot, mag, close


def A_2loop_II_III_points(tab, interpol, uvcutoff, k, lo, hi, u):
    """Contribution of sampling points u [n,5] to the five components: values, tolerances, and points that rounding decides."""
    u = np.asarray(u, LD)
    Lg = np.log(LD(hi)) - np.log(LD(lo))
    pi = LD(np.pi)
    p, mu = np.exp(np.log(LD(lo)) + Lg * u[:, 0]), 2 * u[:, 1] - 1
    q, th, ph = np.exp(np.log(LD(lo)) + Lg * u[:, 2]), pi * u[:, 3], 2 * pi * u[:, 4]
    x = p / k
    z = 0 * p
    pv = np.stack([p * np.sqrt(1 - mu * mu), z, p * mu], -1)
    kv = np.stack([z, z, z + k], -1)
    qv = np.stack([q * np.sin(th) * np.cos(ph), q * np.sin(th) * np.sin(ph), q * np.cos(th)], -1)
    K = [pv, kv - pv, -kv]
    y = 1 + x * x - 2 * x * mu
    kp = k * np.sqrt(y)
    f8 = lambda t: np.asarray(t, 'f8')
    damp = damping(tab, uvcutoff, f8(p), f8(kp), np.full(len(p), k))
    half = x * mu <= 0.5
    close = np.abs(x * mu - 0.5) < 1e-13 * (1 + x)
    B, M = {}, {}
    BA, BtA, MA, MtA = {}, {}, {}, {}
    for X in 'dt':
        for Y in 'dt':
            for dest, mdest, fl in ((BA, MA, ('theta', _FL[X], _FL[Y])), (BtA, MtA, (_FL[X], 'theta', _FL[Y]))):
                if fl not in B:
                    B[fl], M[fl], c = bispectrum_222_321(tab, interpol, K, qv, fl)
                    close |= c
                dest[X + Y], mdest[X + Y] = B[fl], M[fl]
    w = np.where(half, np.exp(-damp) * x * (2 * Lg) * q**3 * Lg * pi * np.sin(th) * 2 * pi / (2 * pi)**3, 0)
    fac = LD(k)**3 / (4 * pi**2)
    xs, vs, _ = tA_swap(x, mu)
    val = fac * w * (project_A(x, mu, y, BA) + x * x / y * project_A(xs, vs, x * x, BtA))
    t = np.abs(project_A_abs(x, mu, y, MA)) + x * x / y * np.abs(project_A_abs(xs, vs, x * x, MtA))
    tol = fac * w * t
    return f8(val), f8(tol), close | (np.abs(damp - 100) < 1.), damp


def project_A_abs(x, v, y, B):
    """The same with the absolute values of the parts."""
    s2 = 1. + v * v
    v = np.abs(v)
    c1 = x * s2 + 1.5 * x * x * v * s2
    c3 = v + 2. * x * (v * v + 0.5 * s2) + x * x * (v**3 + 1.5 * v * s2)
    return 2. * x * np.array([B['dd'] * v, B['td'] * c1 / y, B['td'] * c3 / y + B['dt'] * v, B['tt'] * c1 / y, B['tt'] * c3 / y])
