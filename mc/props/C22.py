"""Assembly of the spectra from the terms: the formulas are polynomials in the terms, every corner of a small alphabet of values is enumerated."""
import ctypes, itertools
import numpy as np
import h, scen

LD = np.longdouble


def regprop(loop, D, f, g1, g2):
    """Regularized propagator (Taruya et al. 2012, eq. 24), D growth, f = k^2 D^2 sigma_d^2 / 2."""
    s = 1 + f + D**2 * g1
    if loop == 2:
        s = s + f**2 / 2 + D**2 * f * g1 + D**4 * g2
    return D * np.exp(-f) * s


def ref_spectrum(loop, c, D, sd):
    c = {key: np.asarray(v, LD) for key, v in c.items()}
    D = np.asarray(D, LD)
    f = (c['k'] * D)**2 * np.asarray(c['sigmad2'] if sd is None else sd, LD) / 2
    ga = regprop(loop, D, f, c['gamma1a_1loop'], c.get('gamma1a_2loop'))
    gb = regprop(loop, D, f, c['gamma1b_1loop'], c.get('gamma1b_2loop'))
    out = ga * gb * c['pk_lin']
    if loop == 1:
        return out + np.exp(-2 * f) * D**4 * c['pk_gamma2_tree_tree']
    return out + np.exp(-2 * f) * (D**4 * (1 + f)**2 * c['pk_gamma2_tree_tree'] + D**6 * (1 + f) * c['pk_gamma2_tree_1loop'] + D**8 * c['pk_gamma2_1loop_1loop'] + D**6 * c['pk_gamma3_tree'])


def tab_interp(x, tx, ty, left, right):
    """Straight lines between the tabulated values, given values outside."""
    out = []
    for v in np.atleast_1d(x):
        if v < tx[0]:
            out.append(left)
        elif v > tx[-1]:
            out.append(right)
        else:
            i = min(np.searchsorted(tx, v, side='right') - 1, len(tx) - 2)
            t = (v - tx[i]) / (tx[i + 1] - tx[i])
            out.append(ty[i] + t * (ty[i + 1] - ty[i]))
    return np.array(out, 'f8').reshape(np.shape(x))


def trapz(y, x):
    return float(np.sum((np.asarray(y[1:], LD) + np.asarray(y[:-1], LD)) * np.diff(np.asarray(x, LD)) / 2))


def positions(k):
    """Every position relative to the wavenumbers: below, each one, inside each interval, above."""
    mid = [a + t * (b - a) for a, b in zip(k[:-1], k[1:]) for t in (0.25, 0.5, 0.8)]
    return np.array([0.3 * k[0], k[0] * (1 - 1e-6)] + list(k) + mid + [k[-1] * (1 + 1e-6), 3 * k[-1]])


def make(m, cls, cols):
    o = getattr(m, cls)()
    for key, v in cols.items():
        o[key] = np.array(v, 'f8')
    return o


def close(viol, tag, got, ref, rtol=1e-10, floor=1e-13):
    ref = np.asarray(ref, 'f8')
    fin = np.abs(ref[np.isfinite(ref)])
    r = scen.off(got, ref, rtol * np.abs(ref) + floor * (fin.max() if fin.size else 0.))
    if r:
        viol.append('%s: %s' % (tag, r))


def check_spectrum(m, item):
    """All corners of the alphabet of values, all growth factors and dispersions of the alphabet."""
    loop, kval, alpha, quick = item
    scen.fresh(m)
    cls = 'Spectrum%dLoop' % loop
    names = [n for n in getattr(m, cls).FIELDS if n != 'k']
    rows = np.array(list(itertools.product(alpha, repeat=len(names))))
    n = len(rows)
    cols = {name: rows[:, i] for i, name in enumerate(names)}
    cols['k'] = kval * np.exp(np.arange(n) * 1e-7)
    o = make(m, cls, cols)
    viol, states = [], 0
    ramp = np.linspace(0.3, 1.4, n)
    for D in (None, 1., 0.5, 1.7, 0., ramp, 1.):
        for sd in (None, 0., 3.7, 2. * ramp):
            kw = {}
            if D is not None:
                kw['Dgrowth'] = D
            if sd is not None:
                kw['sigmad2'] = sd
            ref = ref_spectrum(loop, cols, 1. if D is None else D, sd)
            # the terms of the alphabet are of both signs: compare to the sum of the absolute values
            mag = ref_spectrum(loop, {key: np.abs(v) for key, v in cols.items()}, 1. if D is None else D, sd)
            got = o.pk(**kw)
            r = scen.off(got, np.asarray(ref, "f8"), np.asarray(1e-10 * (mag + np.abs(ref)), "f8") + 1e-280)
            states += n
            if r:
                viol.append('%s.pk(%s) at k = %g: %s with %s' % (cls, ', '.join('%s=%s' % (a, 'array' if np.ndim(b) else b) for a, b in kw.items()), kval, r, names))
            close(viol, '%s.pk_lin' % cls, o.pk_lin(**{a: b for a, b in kw.items() if a == 'Dgrowth'}), np.asarray(1. if D is None else D)**2 * cols['pk_lin'])
            for key in cols:
                if not np.array_equal(np.asarray(o[key]), cols[key]):
                    viol.append('%s.pk changed the column %s' % (cls, key))
                    o[key] = np.array(cols[key])
    return {'viol': viol[:6], 'n': {'states': states, 'transitions': 28}, 'samples': [{'class': cls, 'k': kval, 'corners': n}]}


def check_bias(m, item):
    kval, alpha = item
    scen.fresh(m)
    names = [n for n in m.Bias1Loop.FIELDS if n != 'k']
    rows = np.array(list(itertools.product(alpha, repeat=len(names))))
    n = len(rows)
    cols = {name: rows[:, i] for i, name in enumerate(names)}
    cols['k'] = kval * np.exp(np.arange(n) * 1e-7)
    o = make(m, 'Bias1Loop', cols)
    viol, states = [], 0
    ramp = np.linspace(0.3, 1.4, n)
    plain = {'pk_lin': (1, 'pk_lin')}
    plain.update({nm: (2, nm) for nm in names if nm.startswith('pk_b')})
    for D in (1., 0.5, 1.7, ramp):
        for nm, (p, col) in plain.items():
            close(viol, 'Bias1Loop.%s' % nm, getattr(o, nm)(D), np.asarray(D)**(2 * p) * cols[col])
            close(viol, 'Bias1Loop.%s' % nm, getattr(o, nm)(Dgrowth=D), np.asarray(D)**(2 * p) * cols[col])
        close(viol, 'Bias1Loop.pk_sigma3sq', o.pk_sigma3sq(D), np.asarray(D)**4 * cols['pk_lin'] * cols['sigma3sq'])
        for sd in (None, 0., 3.7, 2. * ramp):
            f = (cols['k'] * D)**2 * (cols['sigmad2'] if sd is None else sd) / 2
            for nm in ('pk_b22', 'pk_b2s2', 'pk_bs22'):
                ref = np.asarray(D)**4 * np.exp(-2 * f) * (1 + f)**2 * cols[nm]
                close(viol, 'Bias1Loop.%s_damp(%s, %s)' % (nm, 'array' if np.ndim(D) else D, 'array' if np.ndim(sd) else sd), getattr(o, nm + '_damp')(Dgrowth=D, sigmad2=sd) if sd is not None else getattr(o, nm + '_damp')(D), ref)
            states += n * 11
    for key in cols:
        if not np.array_equal(np.asarray(o[key]), cols[key]):
            viol.append('evaluation changed the column %s' % key)
    return {'viol': viol[:6], 'n': {'states': states, 'transitions': 60}}


A_POW = [(2, 1), (2, 2), (4, 2), (4, 3), (6, 3)]                                             # powers of mu, f
B_POW = [(2, 2), (2, 3), (2, 4), (4, 2), (4, 3), (4, 4), (6, 3), (6, 4), (8, 4)]


def check_ab(m, item):
    """Redshift-space sums: each component alone and all of them, all positions of k, cosines, growth rates, growth factors, values out of range."""
    cls, nk = item
    scen.fresh(m)
    powers = A_POW if cls[0] == 'A' else B_POW
    nc = len(powers)
    k = np.array([0.01, 0.03, 0.08, 0.2, 0.5])[:nk] if nk < 6 else np.geomspace(0.01, 0.5, nk)
    viol, states = [], 0
    x = positions(k) if nk > 1 else np.array([0.5, 1., 2.]) * k[0]
    for comp in list(range(nc)) + ['all']:
        P = np.zeros((nk, nc))
        full = (1 + np.arange(nk * nc).reshape(nk, nc) * 0.37) * (-1.)**np.arange(nc)
        if comp == 'all':
            P = full
        else:
            P[:, comp] = full[:, comp]
        o = make(m, cls, {'k': k, 'pk_lin': k, 'sigmad2': k, 'pk': P})
        for mu2, beta, D, left, right in itertools.product((0., 0.3, 1.), (0.5, 1., -0.4), (1., 0.7), (0., 2.5), (0., -1.5)):
            ref = np.zeros(len(x))
            for i, (pm, pf) in enumerate(powers):
                col = D**4 * P[:, i]
                v = tab_interp(x, k, col, left, right) if nk > 1 else np.where(x < k[0], left, np.where(x > k[0], right, col[0]))
                ref = ref + mu2**(pm // 2) * beta**pf * v
            for kw in ({'beta': beta, 'Dgrowth': D, 'left': left, 'right': right},):
                close(viol, '%s.pk_interp(mu2=%s, beta=%s, Dgrowth=%s, left=%s, right=%s), component %s' % (cls, mu2, beta, D, left, right, comp), o.pk_interp(x, mu2, **kw), ref, floor=1e-12)
            states += len(x)
        mu2 = np.linspace(0, 1, len(x))
        for beta, D in ((1., 1.), (0.6, 0.8)):
            ref = sum(mu2**(pm // 2) * beta**pf * D**4 * tab_interp(x, k, P[:, i], 0., 0.) for i, (pm, pf) in enumerate(powers)) if nk > 1 else None
            if ref is not None:
                close(viol, '%s.pk_interp with one cosine per wavenumber (beta=%s, Dgrowth=%s)' % (cls, beta, D), o.pk_interp(x, mu2, beta=beta, Dgrowth=D) if D != 1. else o.pk_interp(x, mu2), ref, floor=1e-12)
        ramp = 0.4 + 0.2 * np.arange(nk)
        for D in (1., 0.6, ramp[:, None]):
            close(viol, '%s.pk' % cls, o.pk(D), np.asarray(D)**4 * P)
        try:
            close(viol, '%s.pk(one growth factor per wavenumber)' % cls, o.pk(ramp), ramp[:, None]**4 * P)
            close(viol, '%s.pk_lin(one growth factor per wavenumber)' % cls, o.pk_lin(ramp), ramp**2 * k)
            if nk > 1:
                ref = sum(0.3**(pm // 2) * 0.7**pf * tab_interp(x, k, ramp**4 * P[:, i], 1.5, -2.) for i, (pm, pf) in enumerate(powers))
                for D in (ramp, ramp[:, None]):
                    close(viol, '%s.pk_interp with one growth factor per wavenumber, component %s' % (cls, comp), o.pk_interp(x, 0.3, beta=0.7, Dgrowth=D, left=1.5, right=-2.), ref, floor=1e-12)
        except ValueError as e:
            viol.append('%s with one growth factor per wavenumber (%d): %s' % (cls, nk, e))
        close(viol, '%s.pk_lin' % cls, o.pk_lin(0.5), 0.25 * k)
        if not np.array_equal(np.asarray(o['pk']), P) or not np.array_equal(o['k'], k):
            viol.append('%s: evaluation changed the terms' % cls)
    return {'viol': viol[:6], 'n': {'states': states, 'transitions': (nc + 1) * 50}}


def check_interp(m, item):
    """Interpolation, displacement dispersion and variances of the spectra."""
    cls, nk, D = item[:3]
    sd = item[3] if len(item) > 3 else None
    if D == 'ramp':
        D = np.linspace(0.4, 1.3, nk)
    scen.fresh(m)
    k = np.array([0.01, 0.024, 0.08, 0.2, 0.5, 1.1])[:nk] if nk < 10 else np.geomspace(0.01, 1.1, nk)
    viol = []
    if cls in ('SpectrumLin', 'SpectrumNoWiggle'):
        cols = {'k': k, 'pk': 100. / (1 + np.arange(nk))**1.5}
        P = D**2 * cols['pk']
        kw = {'Dgrowth': D}
    else:
        names = [n for n in getattr(m, cls).FIELDS if n != 'k']
        cols = {'k': k}
        for i, n in enumerate(names):
            cols[n] = (1 + 0.1 * i) * 10. / (1 + np.arange(nk))**1.5
        if sd == 'array':
            sd = np.linspace(0.5, 9., nk)
        P = np.asarray(ref_spectrum(int(cls[8]), cols, D, sd), 'f8')
        kw = {'Dgrowth': D} if sd is None else {'Dgrowth': D, 'sigmad2': sd}
    o = make(m, cls, cols)
    x = positions(k)
    for left, right in ((0., 0.), (3.5, -2.), (np.nan, np.inf)):
        got = o.pk_interp(x, left=left, right=right, **kw)
        want = tab_interp(x, k, P, left, right)
        ok = np.isfinite(want)
        close(viol, '%s.pk_interp' % cls, np.asarray(got)[ok], want[ok])
        if not ((np.isnan(want[~ok]) == np.isnan(np.asarray(got)[~ok])).all() and (np.isposinf(want) == np.isposinf(got)).all()):
            viol.append('%s.pk_interp: values out of range are not those given' % cls)
    close(viol, '%s.pk_interp by default' % cls, o.pk_interp(x, **kw), tab_interp(x, k, P, 0., 0.))
    for i in (0, 1, 7, len(x) - 1):
        close(viol, '%s.pk_interp of one wavenumber' % cls, o.pk_interp(float(x[i]), **kw), tab_interp(float(x[i]), k, P, 0., 0.).item() if np.ndim(tab_interp(float(x[i]), k, P, 0., 0.)) == 0 else tab_interp(float(x[i]), k, P, 0., 0.))
    want = np.sqrt(trapz(P, k) / (6 * np.pi**2))
    close(viol, '%s.sigmav' % cls, o.sigmav(**kw), want)
    for r in (0.5, 8., 12.3, 40.):
        y = k * r
        w = 3 * (np.sin(y) - y * np.cos(y)) / y**3
        want = np.sqrt(trapz(P * k**2 * w**2, k) / (2 * np.pi**2))
        close(viol, '%s.sigmar(%g)' % (cls, r), o.sigmar(r, **kw), want)
        if r == 8.:
            close(viol, '%s.sigma8' % cls, o.sigma8(**kw), want)
    for key in cols:
        if not np.array_equal(np.asarray(o[key]), cols[key]):
            viol.append('%s: evaluation changed the column %s' % (cls, key))
    return {'viol': viol[:6], 'n': {'states': len(x) * 5 + 6, 'transitions': 15}}


def check_shot(m, item):
    kmin, kmax = item
    scen.fresh(m)
    viol = []
    for lo, hi in ((5e-4, 10.), (kmin, kmax)):
        k = np.array([lo / 7, lo / 2, lo * .99, lo, lo * 1.01, np.sqrt(lo * hi), hi * .99, hi, hi * 1.01, hi * 2, hi * 5])
        o = m.Bias1Loop()
        o['k'] = np.array(k)
        want = [np.exp(-(lo / x - 1)**2) if x < lo else np.exp(-(x / hi - 1)**2) if x > hi else 1. for x in k]
        got = o.shotnoise() if lo == 5e-4 and hi == 10. else o.shotnoise(kmin=lo, kmax=hi)
        close(viol, 'shotnoise between %g and %g' % (lo, hi), got, want, floor=1e-300)
        if not np.array_equal(o['k'], k):
            viol.append('shotnoise changed k')
    return {'viol': viol, 'n': {'states': 22, 'transitions': 2}}


def check_own(m, item):
    """The 1-loop spectra the library assembles itself when it is given none, seen through the B terms, against the Python interface."""
    tname, n, rng, nthreads = item
    scen.fresh(m)
    tab = scen.table(tname, n)
    K = [0.0123, 0.1, 0.23, 0.9]
    viol = []

    def setup(o):
        scen.tiny(o)
        # settings that the spectra are made with, which are those of the user before and after
        o.set_running_uvcutoff('spectrum_1loop', uvcutoff=1.7)
        o.set_precision('spectrum_1loop_pk_lin', interpol='lin')
        o.set_precision('gamma2_tree_q', n=4, min=0.002, max=3., interpol='lin')
        if rng:
            o.set_precision('B_q', n=5, min=rng[0], max=rng[1])
    before = [(c, scen.run(m, c, tab, K, setup=setup)) for c in ('S1dt', 'S1tt')]
    o = m.B2Loop()
    a = scen.run(m, 'B2', tab, K, obj=o, setup=setup)
    e = np.zeros(1)
    from numpy import ctypeslib
    p = ctypeslib.ndpointer(dtype='f8')
    o.regpt.set_spectra_B.argtypes = (ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t, p, p)
    for name in (b'delta', b'theta'):
        o.regpt.set_spectra_B(name, b'theta', 0, e, e)
    o['pk'][...] = np.nan
    for i in range(2):
        o.regpt.run_terms_B(ctypes.c_size_t(nthreads))
        r = scen.close(scen.outputs(o), a, rtol=1e-7, floor=1e-9)
        if r:
            viol.append('B term from the 1-loop spectra of the library, table %s, run %d: %s' % (tname, i, r))
    for c, ref in before:
        r = scen.close(scen.run(m, c, tab, K), ref, rtol=1e-12)
        if r:
            viol.append('%s after the B term from the 1-loop spectra of the library is not what it was before: %s' % (c, r))
    # the assembly itself, when the library exports it
    for cls, calcs, func in ((m.Spectrum1Loop, ('S1dd', 'S1dt', 'S1tt'), 'spectrum_1loop'), (m.Spectrum2Loop, ('S2dd', 'S2dt', 'S2tt'), 'spectrum_2loop')):
        if not hasattr(cls().regpt, func):
            continue
        for calc in calcs:
            s = cls()
            scen.run(m, calc, tab, K, obj=s, setup=scen.tiny)
            out = np.full(len(K), np.nan)
            f = getattr(s.regpt, func)
            f.argtypes = (p,)
            for scale in ({}, 1e2, 1e-2):        # from the terms as they are, and from terms of other sizes
                if scale:
                    for key in s.FIELDS[3:]:
                        s[key] *= scale
                f(out)
                r = scen.close({'pk': out}, {'pk': s.pk()}, rtol=1e-9)
                if r:
                    viol.append('%s: spectrum assembled by the library: %s' % (calc, r))
            for damp in (0., 0.3, 1., 5., 12., 25., 60., 110.):     # every size of the exponent of the damping
                s['sigmad2'][...] = 2 * damp / s['k']**2
                cols = {key: np.array(s[key]) for key in s.FIELDS}
                mag = ref_spectrum(int(cls.__name__[8]), {key: np.abs(v) for key, v in cols.items()}, 1., None)
                f(out)
                r = scen.off(out, np.asarray(ref_spectrum(int(cls.__name__[8]), cols, 1., None), 'f8'), np.asarray(1e-9 * mag, 'f8') + 1e-290)
                if r:
                    viol.append('%s with an exponent of the damping of %g: spectrum assembled by the library: %s' % (calc, damp, r))
    scen.fresh(m)
    return {'viol': viol, 'n': {'states': 2 * len(K) * 9 + 12, 'transitions': 6}}


def run(ctx):
    q = ctx.quick
    items = [(1, kv, al, q) for kv in (0., 0.07, 0.3, 2.) for al in ((0., 1.), (-1.3, 0.4), (0.2, 5.))]
    items += [(2, kv, al, q) for kv in (0., 0.07, 0.3, 2.) for al in ((0., 1.), (-1.3, 0.4))]
    if not q:
        items += [(1, kv, al, q) for kv in (0.01, 0.15, 1.) for al in ((0., 1., -2.), (0.3, 0.7, 1.1, 4.))]
        items += [(2, kv, al, q) for kv in (0.01, 0.15, 1.) for al in ((0., 1.), (0.2, 5.), (-1., 1.))]
    ctx.collect(items, ctx.pmap(check_spectrum, items))
    items = [(kv, al) for kv in (0., 0.07, 0.3, 2.) for al in ((0., 1.), (-1.3, 0.4))]
    ctx.collect(items, ctx.pmap(check_bias, items))
    items = [(c, nk) for c in ('A1Loop', 'A2Loop', 'B1Loop', 'B2Loop') for nk in ((2, 5, 400) if q else (1, 2, 3, 4, 5, 9, 400, 3000))] + ([('B1Loop', 9)] if q else [])
    ctx.collect(items, ctx.pmap(check_ab, items))
    items = [(c, nk, D) for c in ('SpectrumLin', 'SpectrumNoWiggle', 'Spectrum1Loop', 'Spectrum2Loop') for nk in ((2, 3, 6, 700) if q else (2, 3, 4, 5, 6, 700, 5000)) for D in (1., 0.7, 1.2)]
    items += [(c, nk, 'ramp') for c in ('SpectrumLin', 'SpectrumNoWiggle', 'Spectrum1Loop', 'Spectrum2Loop') for nk in (2, 6)]
    items += [(c, nk, D, sd) for c in ('Spectrum1Loop', 'Spectrum2Loop') for nk in (2, 6) for D in (1., 0.7, 'ramp') for sd in (0., 4.3, 'array')]
    ctx.collect(items, ctx.pmap(check_interp, items))
    items = [(a, b) for a in (1e-3, 0.02) for b in (0.1, 3.)]
    ctx.collect(items, ctx.pmap(check_shot, items))
    items = [(t, n, r, nt) for t in ('cdm', 'narrow', 'irregular') for n in ((40,) if q else (12, 40, 90)) for r in (None, (2e-3, 2.)) for nt in (1, 3)]
    ctx.collect(items, ctx.pmap(check_own, items))
    ctx.cov['traces_validated_against_impl'] = ctx.counts.get('transitions', 0)
    ctx.cov['exhaustive'] = True
    ctx.cov['rule'] = 'state = (every assignment of a two-valued alphabet to all the columns, growth factor, dispersion); (component, position of k, cosine, growth rate, growth factor, values out of range)'
