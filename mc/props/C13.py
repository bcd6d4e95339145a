"""1-loop A term against the projection of the tree-level bispectrum."""
import numpy as np
import scen, refmodel
from C12 import kgrid


def check(m, item):
    tname, nq, nmu, rng, iq, imu = item[:6]
    ks = item[6] if len(item) > 6 else None
    o = m.A1Loop()
    o.set_verbosity('quiet')
    tabk, tabp = scen.table(tname, 70)
    tab = refmodel.Table(tabk, tabp)
    o.set_pk_lin(tabk, tabp)
    o.set_precision('A_1loop_q')
    o.set_precision('A_1loop_mu')
    if nq:
        o.set_precision('A_1loop_q', n=nq, min=rng[0], max=rng[1], interpol=iq)
        o.set_precision('A_1loop_mu', n=nmu, interpol=imu)
    else:
        nq, nmu, rng = 2000, 20, (-1., -1.)
    lo, hi = rng if min(rng) > 0 else (tabk[0], tabk[-1])
    grid = refmodel.GridQ(tab, nq, rng[0], rng[1], iq)
    k = kgrid(grid, lo, hi, 11) if nq < 100 else np.array([3e-4, 0.0123, 0.1, 0.9])
    if ks:            # far from all loop wavenumbers
        k = np.array(ks)
    elif nq < 100:      # exactly on a node: the loop wavenumber equals the wavenumber
        k = np.concatenate([k, grid.q[1:-1][:3]])
    o.set_terms(k)
    o.run_terms(nthreads=1)
    viol = []
    for i, kk in enumerate(k):
        v, t = refmodel.A_1loop(tab, grid, nmu, iq, imu, kk)
        r = scen.off(o['pk'][i], v, 4 * t)
        if r:
            viol.append('A term, table %s, nq=%d nmu=%d range %s interpolation %s/%s, k=%.12g: component %s' % (tname, nq, nmu, rng, iq, imu, kk, r))
    return {'viol': viol, 'n': {'states': 5 * len(k), 'transitions': 1}, 'samples': [{'table': tname, 'nq': nq, 'nmu': nmu, 'k': kk, 'A': v, 'tolerance': t}]}


def run(ctx):
    items = [('cdm', 0, 0, None, 'poly', 'poly')]
    for tname in ('cdm', 'narrow', 'irregular'):
        for nq in ((2, 3, 4, 5, 8, 13, 40) if ctx.quick else list(range(1, 31)) + [60, 99]):
            for nmu in ((1, 2, 3, 6) if ctx.quick else (1, 2, 3, 4, 5, 6, 8, 12, 20)):
                for rng in [(-1., -1.), (5e-4, 10.), (0.01, 1.), (0.09, 0.12)] + ([(-1., 2.), (0., 0.), (0., 0.5)] if nq in (2, 5) else []):
                    for iq, imu in ((('poly', 'poly'), ('lin', 'poly'), ('poly', 'lin')) if nq in (3, 8) else (('poly', 'poly'),)):
                        items.append((tname, nq, nmu, rng, iq, imu))
    # a very wide range reaches the expansions of the mu-integrated part on both sides
    items += [('cdm', n, 3, (1e-7, 1e3), 'poly', 'poly') for n in (9, 20)]
    # a loop wavenumber far below or far above the wavenumber dominates: the expansions
    items += [(t, 2, nmu, rng, 'poly', 'poly', ks) for t, rng, ks in scen.extremes(0.5 if ctx.quick else 0.1) for nmu in (1, 2, 5)]
    ctx.collect(items, ctx.pmap(check, items))
    ctx.cov['traces_validated_against_impl'] = ctx.counts.get('transitions', 0)
    ctx.cov['exhaustive'] = True
    ctx.cov['rule'] = 'state = (component, spectrum, quadrature, wavenumber); all combinations of the alphabet'
    ctx.assumptions.append('reference: A(k,mu) of Taruya, Nishimichi & Saito (2010) eq. 19 with the tree-level bispectra, azimuth average derived independently of the published closed forms, symmetrised under p <-> k-p')
