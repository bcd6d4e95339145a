"""Running displacement dispersion: every table size and position of cutoff*k, every order of short lists, every calculation."""
import itertools
import numpy as np
import scen, refmodel
from C08 import spacing, values, positions

CUTS = (0.5, 1., 0.13, 2.7, 0.)


def tolerance(tab):
    return 1e-12 * np.sum(0.5 * np.abs(tab.pk[1:] + tab.pk[:-1]) * np.diff(tab.k)) / (6 * np.pi**2) + 1e-300


def case(m, item):
    n, sp, vk, cut = item
    k = spacing(sp, n)
    p = values(vk, k)
    tab = refmodel.Table(k, p)
    o = m.PyRegPT()
    o.set_verbosity('quiet')
    o.set_pk_lin(k, p)
    x = positions(k) / (cut or 1.)
    viol, cnt = [], 0
    for name, xx in (('increasing', x), ('decreasing', x[::-1]), ('alternating', np.concatenate([x[::2], x[1::2][::-1]])), ('doubled', np.repeat(x[::3], 2))):
        kw = {} if cut == 0.5 and name == 'decreasing' else {'uvcutoff': cut}
        got = o.calc_running_sigmad2(xx, **kw)
        r = scen.off(got, tab.sigmad2(xx, cut), tolerance(tab) + 1e-12 * np.abs(tab.sigmad2(xx, cut)))
        cnt += len(xx)
        if r:
            viol.append('calc_running_sigmad2 n=%d %s %s cutoff=%g %s k: %s' % (n, sp, vk, cut, name, r))
    return {'viol': viol, 'n': {'states': cnt, 'transitions': 5}, 'samples': [{'n': n, 'spacing': sp, 'values': vk, 'cutoff': cut, 'k': x[len(x) // 2], 'sigmad2': tab.sigmad2(x, cut)[len(x) // 2]}] if n == 5 else []}


def orders(m, item):
    """All lists (with repetition) of length up to L over an alphabet of wavenumbers: below, at the edges, inside, above."""
    n, length, cut = item
    k = spacing('log', n)
    p = values('smooth', k)
    tab = refmodel.Table(k, p)
    o = m.PyRegPT()
    o.set_verbosity('quiet')
    o.set_pk_lin(k, p)
    alpha = np.array([k[0] * 0.4, k[0], (k[0] * k[1])**0.5, k[1], (k[n // 2] + k[n // 2 - 1]) / 2, k[-1], k[-1] * 1.9]) / cut
    ref = tab.sigmad2(alpha, cut)
    tol = tolerance(tab)
    viol, cnt = [], 0
    for le in range(1, length + 1):
        for idx in itertools.product(range(len(alpha)), repeat=le):
            idx = list(idx)
            got = o.calc_running_sigmad2(alpha[idx], uvcutoff=cut)
            cnt += 1
            if not (np.abs(got - ref[idx]) <= tol).all():
                viol.append('calc_running_sigmad2 n=%d cutoff=%g, k list %s: %s' % (n, cut, alpha[idx].tolist(), scen.off(got, ref[idx], tol)))
                if len(viol) > 3:
                    return {'viol': viol, 'n': {'states': cnt, 'transitions': cnt}}
    return {'viol': viol, 'n': {'states': cnt, 'transitions': cnt}}


def column(m, item):
    calc, tname, cut = item
    k, p = scen.table(tname, 61)
    tab = refmodel.Table(k, p)
    x = np.concatenate([[k[0] * 0.3, k[0], k[-1], k[-1] * 3., 0.0123, 0.2], k[10:30:7], (k[5:50:9] * k[6:51:9])**0.5])
    o = scen.new(m, calc)
    scen.tiny(o)
    others = cut * 0.77 + 0.01
    if cut is not None:
        name = {'S1': 'spectrum_1loop', 'S2': 'spectrum_2loop', 'bias': 'bias_1loop', 'A1': 'A_1loop', 'A2': 'A_2loop', 'B1': 'B', 'B2': 'B'}[scen.kind(calc)]
        o.set_running_uvcutoff('all', uvcutoff=others)
        o.set_running_uvcutoff(name, uvcutoff=cut)
    res = scen.run(m, calc, (k, p), x, obj=o, setup=None)
    r = scen.off(res['sigmad2'], tab.sigmad2(x, cut), tolerance(tab))
    return {'viol': ['dispersion column of %s (%s, cutoff %g): %s' % (calc, tname, cut, r)] if r else [], 'n': {'states': len(x), 'transitions': 3}}


def default(m, item):
    calc, = item
    k, p = scen.table('cdm', 61)
    tab = refmodel.Table(k, p)
    x = np.concatenate([[0.2, k[0] * 0.3, k[0], k[-1], k[-1] * 3., 0.0123], k[10:30:7]])
    res = scen.run(m, calc, (k, p), x)
    r = scen.off(res['sigmad2'], tab.sigmad2(x, 0.5), tolerance(tab))
    return {'viol': ['dispersion column of %s at the default cutoff: %s' % (calc, r)] if r else [], 'n': {'states': len(x), 'transitions': 1}}


def run(ctx):
    nmax = 40 if ctx.quick else 90
    items = [(n, sp, vk, c) for n in list(range(3, nmax + 1)) + [64, 257] + [63, 65, 100, 600, 1000, 2500, 5000] + ([] if ctx.quick else [2048, 2049, 4097, 10001, 20000]) for sp in ('lin', 'log', 'dense', 'irr')
             for vk in ('power', 'smooth', 'jagged', ('neg', 2), ('zero', 0)) for c in CUTS]
    ctx.collect(items, ctx.pmap(case, items))
    lists = [(n, 5 if ctx.quick else 6, c) for n in (3, 4, 5, 9, 20) for c in (0.5, 1.7)]
    ctx.collect(lists, ctx.pmap(orders, lists))
    cols = [(c, t, cut) for c in ('S1dt', 'S2td', 'bias', 'A1', 'A2', 'B1', 'B2') for t in ('cdm', 'irregular') for cut in (0.2, 0.9, 0., 40.)]
    ctx.collect(cols, ctx.pmap(column, cols))
    deflt = [(c,) for c in scen.CALCS]
    ctx.collect(deflt, ctx.pmap(default, deflt))
    ctx.cov['traces_validated_against_impl'] = len(items) + len(cols) + len(deflt) + ctx.counts.get('transitions', 0)
    ctx.cov['exhaustive'] = True
    ctx.cov['rule'] = 'state = (table size, spacing, values, cutoff, position of cutoff*k, arrangement of the list); every list of up to %d wavenumbers over a 7-letter alphabet is run' % (5 if ctx.quick else 6)
