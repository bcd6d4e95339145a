"""Shared alphabet: linear power spectra, calculations of the real package at small quadratures, comparisons."""
import numpy as np

CASES = {}


def cdm(k, wig=0.05, amp=2e4, kbao=105., kt=0.015):
    """Smooth spectrum with wiggles, shaped like a cold dark matter one (in (Mpc/h)^3)."""
    q = k / kt
    t = np.log(1 + 0.171 * q) / (0.171 * q) / (1 + 0.284 * q + (1.18 * q)**2 + (0.399 * q)**3 + (0.49 * q)**4)**0.25
    return amp * (k / 0.02) * t**2 / 0.35 * (1 + wig * np.sin(kbao * k) * np.exp(-(7 * k)**1.4))


def table(name='cdm', n=160, kmin=1e-4, kmax=20.):
    if name == 'cdm':
        k = np.exp(np.linspace(np.log(kmin), np.log(kmax), n))
        return k, cdm(k)
    if name == 'red':          # steeper, other normalisation, fewer wiggles
        k = np.exp(np.linspace(np.log(kmin), np.log(kmax), n))
        return k, cdm(k, wig=0.1, amp=7e3, kbao=140., kt=0.03)
    if name == 'narrow':       # ends inside the default ranges
        k = np.exp(np.linspace(np.log(2e-3), np.log(3.), n))
        return k, cdm(k)
    if name == 'irregular':    # alternating small and large steps
        i = np.arange(n)
        k = np.exp(np.linspace(np.log(kmin), np.log(kmax), n) + 0.3 * (np.log(kmax / kmin) / n) * np.sin(2.1 * i))
        return k, cdm(k, wig=0.02, amp=1e4, kt=0.02)
    if name == 'power':
        k = np.exp(np.linspace(np.log(kmin), np.log(kmax), n))
        return k, 300. * (k / 0.1)**-1.3
    if name in ('steep', 'flat'):      # power laws under which small, or large, loop wavenumbers dominate
        k = np.exp(np.linspace(np.log(kmin), np.log(kmax), n))
        return k, 300. * (k / 0.1)**(-8. if name == 'steep' else -1.)
    raise KeyError(name)


def two_nodes(q1, q2):
    """Range of the quadrature whose two nodes are these."""
    mid, half = 0.5 * np.log(q1 * q2), 0.5 * 3**0.5 * np.log(q2 / q1)
    return (float(np.exp(mid - half)), float(np.exp(mid + half)))


def extremes(step):
    """(table, quadrature of two nodes, wavenumbers): the wavenumber of one node is far from k and its contribution dominates."""
    out = []
    for kk in (0.011, 0.3, 2.):
        for e in np.arange(-5.5, 6.01, step):
            if e < -0.3:
                out.append(('steep', two_nodes(kk * 10**e, kk * 1.06), (kk, kk * 1.013)))
            elif e > 0.3:
                out.append(('flat', two_nodes(kk * 0.55, kk * 10**e), (kk, kk * 1.013)))
    return out


PAIRS = [('delta', 'delta'), ('delta', 'theta'), ('theta', 'delta'), ('theta', 'theta')]

# calculation -> class, keyword arguments of run_terms
CALCS = {
    'S1dd': ('Spectrum1Loop', dict(a='delta', b='delta')), 'S1dt': ('Spectrum1Loop', dict(a='delta', b='theta')),
    'S1td': ('Spectrum1Loop', dict(a='theta', b='delta')), 'S1tt': ('Spectrum1Loop', dict(a='theta', b='theta')),
    'S2dd': ('Spectrum2Loop', dict(a='delta', b='delta')), 'S2dt': ('Spectrum2Loop', dict(a='delta', b='theta')),
    'S2td': ('Spectrum2Loop', dict(a='theta', b='delta')), 'S2tt': ('Spectrum2Loop', dict(a='theta', b='theta')),
    'bias': ('Bias1Loop', {}), 'A1': ('A1Loop', {}), 'A2': ('A2Loop', {}), 'B1': ('B1Loop', {}), 'B2': ('B2Loop', {}),
}
MAIN = ['S1dt', 'S2dt', 'bias', 'A1', 'A2', 'B1', 'B2']

QUADS_Q = ['gamma1_1loop_q', 'gamma1_2loop_q', 'gamma2_tree_q', 'gamma2d_1loop_q', 'gamma2t_1loop_q', 'bias_1loop_q', 'A_1loop_q', 'A_2loop_I_q', 'B_q']
QUADS_MC = ['gamma3_tree_q', 'A_2loop_II_III_q']
QUADS_MU = ['gamma2_tree_mu', 'bias_1loop_mu', 'A_1loop_mu', 'A_2loop_I_mu', 'B_mu']
PKLIN = ['spectrum_1loop', 'spectrum_2loop', 'bias_1loop', 'bispectrum_1loop', 'A_1loop', 'A_2loop', 'B']
# which quadratures a calculation uses (by the documentation: the propagators and terms it is made of)
USES = {
    'S1': ['gamma1_1loop_q', 'gamma2_tree_q', 'gamma2_tree_mu'],
    'S2': ['gamma1_1loop_q', 'gamma1_2loop_q', 'gamma2_tree_q', 'gamma2_tree_mu', 'gamma2d_1loop_q', 'gamma2t_1loop_q', 'gamma3_tree_q'],
    'bias': ['bias_1loop_q', 'bias_1loop_mu'], 'A1': ['A_1loop_q', 'A_1loop_mu'],
    'A2': ['A_2loop_I_q', 'A_2loop_I_mu', 'A_2loop_II_III_q', 'gamma1_1loop_q', 'gamma2d_1loop_q', 'gamma2t_1loop_q'],
    'B1': ['B_q', 'B_mu'], 'B2': ['B_q', 'B_mu', 'gamma1_1loop_q', 'gamma2_tree_q', 'gamma2_tree_mu'],
}
# tiny quadratures (n, min, max) under which every calculation takes about a millisecond per wavenumber
TINY = {'gamma1_1loop_q': 7, 'gamma1_2loop_q': 5, 'gamma2_tree_q': 4, 'gamma2d_1loop_q': 3, 'gamma2t_1loop_q': 3, 'bias_1loop_q': 6, 'A_1loop_q': 6,
        'A_2loop_I_q': 4, 'B_q': 5, 'gamma2_tree_mu': 3, 'bias_1loop_mu': 3, 'A_1loop_mu': 3, 'A_2loop_I_mu': 2, 'B_mu': 3}


def kind(calc):
    return calc[:2] if calc[0] == 'S' else calc


def tiny(obj, sizes=TINY):
    for key, n in sizes.items():
        obj.set_precision(key, n=n)


def new(m, calc):
    return getattr(m, CALCS[calc][0])()


def outputs(obj):
    return {key: np.array(obj[key], dtype='f8', copy=True) for key in obj.FIELDS}


def run(m, calc, tab, k, nthreads=1, obj=None, setup=tiny):
    """One complete calculation through the Python interface; returns copies of the columns."""
    obj = new(m, calc) if obj is None else obj
    m.PyRegPT().set_verbosity('quiet')
    if setup:
        setup(obj)
    obj.set_pk_lin(*tab)
    obj.set_terms(np.array(k, dtype='f8'))
    obj.run_terms(nthreads=nthreads, **CALCS[calc][1])
    return outputs(obj)


def same(a, b, rtol=0., atol=0.):
    """Largest discrepancy of two dictionaries of arrays, None if they agree (nan agrees with nan)."""
    if a.keys() != b.keys():
        return 'columns %s != %s' % (sorted(a), sorted(b))
    for key in a:
        x, y = np.asarray(a[key]), np.asarray(b[key])
        if x.shape != y.shape:
            return '%s: shape %s != %s' % (key, x.shape, y.shape)
        ok = (x == y) | (np.isnan(x) & np.isnan(y))
        if rtol or atol:
            ok |= np.abs(x - y) <= rtol * np.maximum(np.abs(x), np.abs(y)) + atol
        if not ok.all():
            i = np.unravel_index(np.argmax(~ok), x.shape)
            return '%s%s: %r != %r' % (key, list(i), float(x[i]), float(y[i]))
    return None


def off(got, ref, tol):
    """First element of `got` further than tol from ref (nan never agrees), or None."""
    got, ref, tol = np.asarray(got, 'f8'), np.asarray(ref, 'f8'), np.broadcast_to(np.asarray(tol, 'f8'), np.shape(ref))
    if got.shape != ref.shape:
        return 'shape %s != %s' % (got.shape, ref.shape)
    with np.errstate(all="ignore"):
        bad = ~((np.abs(got - ref) <= tol + 1e-290) | (got == ref))
    if bad.any():
        i = np.unravel_index(np.argmax(bad), bad.shape)
        return '%s: got %.17g, expected %.17g, tolerance %.2g (%d of %d off)' % (list(i), got[i], ref[i], tol[i], bad.sum(), bad.size)
    return None


def fresh(m):
    """Back to the settings of a library that was never configured, quietly."""
    p = m.PyRegPT()
    p.clear()
    p.set_verbosity('quiet')
    import h
    h.lib(m).cubaenv_reset()
    return p


def close(a, b, rtol, floor=0.):
    """First discrepancy of two dictionaries of arrays beyond rtol of the element plus floor of the largest of the column."""
    for key in b:
        y = np.asarray(b[key], 'f8')
        fin = np.abs(y[np.isfinite(y)])
        r = off(a[key], y, rtol * np.abs(y) + floor * (fin.max() if fin.size else 0.))
        if r:
            return '%s %s' % (key, r)
    return None
