"""1-loop spectrum terms against the published kernels: pointwise over every branch, then every small quadrature."""
import itertools
import numpy as np
import scen, refmodel


def ratios(few=False):
    x = [np.exp(np.linspace(np.log(1e-4), np.log(1e4), 240 if few else 1500))]
    d = np.concatenate([[0.], 10.**np.linspace(-9, -1, 20 if few else 60)])
    for c in (1., 10., 0.99, 1.01, 0.5, 2.):
        x += [c * (1 + d), c * (1 - d)]
    x = np.unique(np.concatenate(x))
    return x[x > 0]


def pointwise(m, item):
    """One-node quadrature: the propagator term is the kernel at one ratio of wavenumbers."""
    cls, a, b, q, ratio = item
    o = getattr(m, cls)()
    o.set_verbosity('quiet')
    scen.tiny(o)
    o.set_precision('gamma1_1loop_q', n=1, min=q / 1.5, max=q * 1.5)
    tabk, tabp = scen.table('power' if ratio else 'cdm', 80)
    o.set_pk_lin(tabk, tabp)
    tab = refmodel.Table(tabk, tabp)
    x = ratios(cls == 'Spectrum2Loop')
    k = q / x
    if cls == 'Spectrum2Loop':
        for key in ('gamma1_2loop_q', 'gamma2_tree_q', 'gamma2d_1loop_q', 'gamma2t_1loop_q'):
            o.set_precision(key, n=1, min=0.1, max=0.2)
    else:
        o.set_precision('gamma2_tree_q', n=1, min=0.1, max=0.2)
    o.set_terms(k)
    o.run_terms(a=a, b=b, nthreads=1)
    pkq = tab.find(np.array([q]))[0]
    w = np.log(1.5**2)
    viol = []
    for fl, col in ((a, 'gamma1a_1loop'), (b, 'gamma1b_1loop')):
        v, t = refmodel.gamma1_kernel(fl, x)
        f = k**3 / (2 * np.pi**2) * pkq * w
        r = scen.off(o[col], f * v, f * (t * 3 + 1e-11 * np.abs(v)) + 0)
        if r:
            i = int(r.split(']')[0][1:])
            viol.append('%s %s,%s %s: one-loop kernel of %s at q/k=%.12g: %s' % (cls, a, b, col, fl, x[i], r))
    return {'viol': viol, 'n': {'states': 2 * len(x), 'transitions': 1}, 'samples': [{'fields': [a, b], 'q/k': x[len(x) // 3], 'kernel*x': float(v[len(x) // 3])}]}


def quad(m, item):
    """Whole terms at a small quadrature."""
    cls, (a, b), tname, nq, nmu, rng, iq, imu = item
    o = getattr(m, cls)()
    scen.tiny(o)
    tabk, tabp = scen.table(tname, 70)
    tab = refmodel.Table(tabk, tabp)
    o.set_verbosity('quiet')
    o.set_pk_lin(tabk, tabp)
    for key in ('gamma1_1loop_q', 'gamma2_tree_q'):
        o.set_precision(key, n=nq, min=rng[0], max=rng[1], interpol=iq)
    o.set_precision('gamma2_tree_mu', n=nmu, interpol=imu)
    if cls == 'Spectrum2Loop':
        for key in ('gamma1_2loop_q', 'gamma2d_1loop_q', 'gamma2t_1loop_q'):
            o.set_precision(key, n=1, min=0.1, max=0.2)
    lo, hi = rng if min(rng) > 0 else (tabk[0], tabk[-1])
    grid = refmodel.GridQ(tab, nq, rng[0], rng[1], iq)
    k = np.unique(np.concatenate([np.exp(np.linspace(np.log(lo * 0.2), np.log(hi * 3.), 13)), [1e-3, 0.0997, 0.1, 1.], grid.q[:3] * 1.0037, grid.q[:3] * 1.9957, grid.q[-2:] * 0.5031]))
    o.set_terms(k)
    o.run_terms(a=a, b=b, nthreads=1)
    viol = []
    for fl, col in ((a, 'gamma1a_1loop'), (b, 'gamma1b_1loop')):
        ref = [refmodel.gamma1_1loop(fl, grid, kk) for kk in k]
        r = scen.off(o[col], [v for v, _ in ref], [3 * t + 1e-12 * abs(v) for v, t in ref])
        if r:
            viol.append('%s %s (%s,%s) nq=%d range %s interpolation %s: %s' % (cls, col, a, b, nq, rng, iq, r))
    ref = [refmodel.pk_gamma2_tree(tab, grid, nmu, imu, a, b, kk) for kk in k]
    r = scen.off(o['pk_gamma2_tree_tree'], [v for v, _ in ref], [4 * t for v, t in ref])
    if r:
        viol.append('%s mode coupling (%s,%s) nq=%d nmu=%d range %s interpolation %s/%s: %s' % (cls, a, b, nq, nmu, rng, iq, imu, r))
    return {'viol': viol, 'n': {'states': 3 * len(k), 'transitions': 1}, 'samples': [{'fields': [a, b], 'table': tname, 'nq': nq, 'nmu': nmu, 'range': rng, 'k': k[5], 'mode_coupling': ref[5][0], 'tolerance': ref[5][1]}]}


def defaults(m, item):
    """No setting at all: the documented default quadratures."""
    a, b = item
    o = m.Spectrum1Loop()
    o.set_verbosity('quiet')
    tabk, tabp = scen.table('cdm', 300, 1e-4, 30.)
    tab = refmodel.Table(tabk, tabp)
    o.set_pk_lin(tabk, tabp)
    k = np.array([3e-4, 1e-3, 0.0123, 0.05, 0.1, 0.23, 0.9, 3., 11.])
    o.set_terms(k)
    o.run_terms(a=a, b=b, nthreads=1)
    viol = []
    g1, g2 = refmodel.GridQ(tab, 600, 5e-4, 10.), refmodel.GridQ(tab, 200, 5e-4, 10.)
    for fl, col in ((a, 'gamma1a_1loop'), (b, 'gamma1b_1loop')):
        ref = [refmodel.gamma1_1loop(fl, g1, kk) for kk in k]
        r = scen.off(o[col], [v for v, _ in ref], [3 * t + 1e-12 * abs(v) for v, t in ref])
        if r:
            viol.append('default quadrature %s (%s,%s): %s' % (col, a, b, r))
    ref = [refmodel.pk_gamma2_tree(tab, g2, 10, 'poly', a, b, kk) for kk in k]
    r = scen.off(o['pk_gamma2_tree_tree'], [v for v, _ in ref], [4 * t for v, t in ref])
    if r:
        viol.append('default quadrature, mode coupling (%s,%s): %s' % (a, b, r))
    return {'viol': viol, 'n': {'states': 3 * len(k), 'transitions': 1}}


def run(ctx):
    items = [(cls, a, b, q, r) for cls in ('Spectrum1Loop', 'Spectrum2Loop') for a, b in scen.PAIRS for q in ((0.11,) if ctx.quick else (0.003, 0.11, 2.)) for r in (0, 1)]
    ctx.collect(items, ctx.pmap(pointwise, items))
    rngs = [(-1., -1.), (5e-4, 10.), (0.01, 1.), (-1., 2.), (0., 0.5)]
    items = []
    for cls in ('Spectrum1Loop', 'Spectrum2Loop'):
        for ab in scen.PAIRS:
            for tname in ('cdm', 'narrow', 'irregular') if cls[8] == '1' else ('red',):
                for nq in ((1, 2, 3, 4, 5, 8, 13) if ctx.quick else range(1, 25)):
                    for nmu in ((1, 2, 5) if ctx.quick else (1, 2, 3, 4, 5, 8)):
                        for rng in rngs:
                            for iq, imu in ((('poly', 'poly'), ('lin', 'poly'), ('poly', 'lin')) if nq in (3, 8) else (('poly', 'poly'),)):
                                items.append((cls, ab, tname, nq, nmu, rng, iq, imu))
    ctx.collect(items, ctx.pmap(quad, items))
    ctx.collect(scen.PAIRS, ctx.pmap(defaults, scen.PAIRS))
    ctx.cov['traces_validated_against_impl'] = ctx.counts.get('transitions', 0)
    ctx.cov['exhaustive'] = True
    ctx.cov['rule'] = 'state = (calculation, field pair, spectrum, quadrature, wavenumber or ratio of wavenumbers, term); all combinations of the alphabet'
    ctx.assumptions.append('reference kernels: Crocce & Scoccimarro (2006) one-loop propagators in 80-bit arithmetic, symmetrised second-order kernels; the accuracy granted near q=k and for q>10k is that of the published series')
