"""No-wiggle spectrum: every combination of the ways of passing the parameters on grids of each of them, against the fitting formula in double-double style arithmetic."""
import itertools, math
import numpy as np
import scen


def transfer(k, h, ob, om, T):
    """Eisenstein & Hu (1998), eqs. 26, 28-31: zero-baryon-oscillation transfer function; k in h/Mpc, ob and om times h squared."""
    s = 44.5 * math.log(9.83 / om) / math.sqrt(1 + 10 * ob**(3. / 4.))                      # Mpc
    fb = ob / om
    a = 1 - 0.328 * math.log(431 * om) * fb + 0.38 * math.log(22.3 * om) * fb**2
    kk = k * h                                                                             # 1/Mpc
    G = (om / h) * (a + (1 - a) / (1 + (0.43 * kk * s)**4))                                 # Omega_m h
    q = k * (T / 2.7)**2 / G
    L = math.log(2 * math.e + 1.8 * q)
    C = 14.2 + 731 / (1 + 62.5 * q)
    return L / (L + C * q**2)


DEF = dict(h=0.676, omega_b=0.022, omega_m=0.21, T_cmb=2.7255)


def check(m, item):
    kw, norm, ns, seq = item
    o = m.SpectrumNoWiggle()
    viol, n = [], 0
    lists = [np.array([1e-5, 1e-4, 1e-3, 0.01, 0.03, 0.1, 0.2, 0.5, 1., 5., 50.]), np.array([0.2]), np.array([0.3, 0.1, 0.7, 0.1])]
    for ki in seq:
        k = lists[ki]
        p = dict(DEF)
        p.update({a: b for a, b in kw.items() if a in DEF})
        if kw.get('Omega_m') is not None:
            p['omega_m'] = kw['Omega_m'] * p['h']**2
        if kw.get('Omega_b') is not None:
            p['omega_b'] = kw['Omega_b'] * p['h']**2
        if p['omega_b'] > 0.6 * p['omega_m']:
            return {'n': {'outside_the_domain': 1}}     # the fit is for densities of baryons below those of matter
        want = np.array([transfer(x, p['h'], p['omega_b'], p['omega_m'], p['T_cmb']) for x in k])
        o.set_terms(k)
        if not np.array_equal(o['k'], k) or len(o) != len(k):
            viol.append('set_terms(%s): k is %s' % (k, o['k']))
        r = scen.off(o.transfer(**kw), want, 1e-11 * want)
        if r:
            viol.append('transfer(%s) at k = %s: %s' % (kw, k, r))
        s = k**(1. if ns is None else ns) * want**2
        pk = 500. * (1 + np.arange(len(k))) if norm not in ('A', 'zero only') else None
        args = dict(kw)
        if ns is not None:
            args['n_s'] = ns
        if norm == 'A':
            args['A'] = 1234.5
            want = 1234.5 * s
        elif norm == 'pk':
            args['pk'] = pk
            want = s * pk[0] / s[0]
        elif norm == 'list':
            args['pk'] = [float(x) for x in pk]
            want = s * pk[0] / s[0]
        else:
            a = {'both': 0.5, 'zero': 0., 'zero only': 0}[norm]
            args.update(A=a, pk=pk) if norm != 'zero only' else args.update(A=a)
            want = a * s
        o.run_terms(**args)
        n += 2 * len(k)
        r = scen.off(o['pk'], want, 1e-10 * np.abs(want))
        if r:
            viol.append('run_terms(%s) at k = %s: %s' % (args, k, r))
        for D in (1., 0.4):
            r = scen.off(o.pk(D), D**2 * want, 1e-10 * np.abs(want))
            if r:
                viol.append('pk(%g) after run_terms(%s): %s' % (D, args, r))
        if pk is not None and not np.array_equal(pk, 500. * (1 + np.arange(len(k)))):
            viol.append('run_terms changed the spectrum it was given')
        if ki == 0:
            P = want
            v = math.sqrt(float(((P[1:] + P[:-1]) * np.diff(k)).sum() / 2 / (6 * math.pi**2)))
            r = scen.off(o.sigmav(), v, 1e-10 * v)
            if r:
                viol.append('sigmav: ' + r)
            for R in (8., 3.):
                x = k * R
                with np.errstate(all='ignore'):
                    # window of a sphere; the closed form loses digits at small k R
                    w = 3 * (np.sin(x) - x * np.cos(x)) / x**3
                y = P * (k * w)**2
                v = math.sqrt(float(((y[1:] + y[:-1]) * np.diff(k)).sum() / 2 / (2 * math.pi**2)))
                for nm, val in (('sigmar', o.sigmar(R)),) + ((('sigma8', o.sigma8()),) if R == 8. else ()):
                    r = scen.off(val, v, 1e-7 * v)
                    if r:
                        viol.append('%s: %s' % (nm, r))
    return {'viol': viol[:5], 'n': {'states': n, 'transitions': len(seq)}, 'samples': [{'parameters': kw, 'normalisation': norm, 'n_s': ns}]}


def run(ctx):
    q = ctx.quick
    hs = (None, 0.5, 0.9) if q else (None, 0.3, 0.5, 0.676, 0.9, 1.2)
    oms = (None, ('omega_m', 0.1), ('omega_m', 0.3), ('Omega_m', 0.2), ('Omega_m', 0.45)) + (() if q else (('omega_m', 0.02), ('omega_m', 1.), ('Omega_m', 1.), ('Omega_m', 0.05)))
    obs = (None, ('omega_b', 0.01), ('omega_b', 0.05), ('Omega_b', 0.03), ('Omega_b', 0.09)) + (() if q else (('omega_b', 1e-4), ('Omega_b', 1e-3), ('omega_b', 0.15)))
    Ts = (None, 2.7, 3.1)
    items = []
    for h_, om, ob, T in itertools.product(hs, oms, obs, Ts):
        kw = {}
        if h_ is not None:
            kw['h'] = h_
        if om:
            kw[om[0]] = om[1]
        if ob:
            kw[ob[0]] = ob[1]
        if T is not None:
            kw['T_cmb'] = T
        for norm in ('A', 'pk', 'list', 'both', 'zero', 'zero only'):
            for ns in (None, 0.9, 1.1, 0.) if 'zero' not in norm else (None,):
                items.append((kw, norm, ns, (0, 1, 2) if norm != 'pk' else (2, 0, 1, 0)))
    for om, ob, norm in itertools.product((None, ('omega_m', 0.1), ('Omega_m', 0.45)), (('omega_b', 0.), ('Omega_b', 0.), ('Omega_b', 0)), ('A', 'pk')):     # no baryons
        items.append((dict(x for x in (om, ob) if x), norm, None, (0, 2)))
    # both forms of a density at once: the relative density wins
    for om, Om, ob, Ob in itertools.product((None, 0.1), (None, 0.3), (None, 0.02), (None, 0.05)):
        kw = {a: b for a, b in (('omega_m', om), ('Omega_m', Om), ('omega_b', ob), ('Omega_b', Ob)) if b is not None}
        items.append((kw, 'A', None, (0,)))
    ctx.collect(items, ctx.pmap(check, items))
    ctx.cov['traces_validated_against_impl'] = ctx.counts.get('transitions', 0)
    ctx.cov['exhaustive'] = True
    ctx.cov['rule'] = 'state = (wavenumber, reduced Hubble constant, matter density, baryon density, temperature, spectral index, normalisation), every combination of the grids; sequences of lists of wavenumbers on one object'
