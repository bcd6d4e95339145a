"""Interpolation and extrapolation of the linear power spectrum: every table size, every position of k relative to the table."""
import itertools
import numpy as np
import scen, refmodel

FRACS = (1e-9, 0.03, 0.37, 0.5, 0.5000001, 0.81, 1 - 1e-9)
OUT = (1 - 1e-12, 0.999, 0.7, 0.1, 1e-3)


def spacing(kind, n):
    i = np.arange(n, dtype='f8')
    if kind == 'lin':
        return 0.01 + 0.013 * i
    if kind == 'log':
        return 1e-3 * np.exp(8. * i / max(n - 1, 1))
    if kind == 'dense':
        return 0.1 * np.exp(0.001 * i)
    return 2e-3 * np.exp((7. * i + 2.2 * np.sin(2.3 * i)) / n)     # irregular, increasing


def values(kind, k):
    n = len(k)
    if kind == 'power':
        return 50. * k**-1.3
    if kind == 'smooth':
        return scen.cdm(k)
    if kind == 'jagged':
        return 100. * (2. + np.sin(12.9898 * np.arange(n)) + 0.4 * (-1.)**np.arange(n))
    if kind == 'faint':
        return scen.cdm(k) * 1e-13
    if kind == 'bright':
        return scen.cdm(k) * 1e13
    p = scen.cdm(k)
    name, pos = kind
    pos = pos if pos >= 0 else n + pos
    if 0 <= pos < n:
        p[pos] = {'zero': 0., 'neg': -3., 'tiny': 1e-300}[name]
    return p


def positions(k, few=False):
    x = [k]
    fr = (0.37, 0.81) if few else FRACS
    for f in fr:
        x.append(k[:-1] + f * np.diff(k))
    x.append(k[0] * np.array(OUT))
    x.append(k[-1] / np.array(OUT))
    x.append(np.nextafter(k[1:], 0.))
    x.append(np.nextafter(k[:-1], np.inf))
    return np.unique(np.concatenate(x))


def case(m, item):
    n, sp, vk, few = item
    k = spacing(sp, n)
    p = values(vk, k)
    tab = refmodel.Table(k, p)
    o = m.PyRegPT()
    o.set_verbosity('quiet')
    o.set_pk_lin(k, p)
    x = positions(k, few)
    viol, cnt = [], 0
    inside = (x >= k[0]) & (x <= k[-1])
    for interpol in ('poly', 'lin'):
        got = o.find_pk_lin(x, interpol=interpol)
        if interpol == 'poly' and o.find_pk_lin(x).tobytes() != got.tobytes():
            viol.append('find_pk_lin, no interpolation named, n=%d %s %s: other values than those of the polynomial' % (n, sp, vk))
        ref = tab.find(x, interpol)
        if interpol == 'poly':
            tol = 1e-10 * tab.cond(x)
        else:   # straight line between neighbours; the slope's rounding error scales with the difference of the neighbours
            i = np.clip(np.searchsorted(k, x, side='right') - 1, 0, n - 2)
            tol = 1e-11 * (np.abs(p[i]) + np.abs(p[i + 1]) + np.abs(ref))
        tol = np.where(inside, tol, tab.outside_error(x) * np.abs(ref))
        r = scen.off(got, ref, tol)
        cnt += len(x)
        if r:
            viol.append('find_pk_lin(%s) n=%d %s %s: %s (k=%r)' % (interpol, n, sp, vk, r, float(x[int(r.split(']')[0][1:])]) if r[0] == '[' else None))
        nodes = o.find_pk_lin(k, interpol=interpol)
        r = scen.off(nodes, p, 1e-10 * (np.abs(p) + (1e-3 * tab.cond(k) if interpol == 'poly' else 0)))
        if r:
            viol.append('find_pk_lin(%s) at tabulated wavenumber, n=%d %s %s: %s' % (interpol, n, sp, vk, r))
        cnt += n
    return {'viol': viol, 'n': {'states': cnt, 'transitions': 4}, 'samples': [{'n': n, 'spacing': sp, 'values': vk, 'k': x[len(x) // 3], 'pk': got[len(x) // 3]}] if n in (3, 17) else []}


def column(m, item):
    """The linear spectrum column of each calculation, with that calculation's own interpolation."""
    calc, interpol, tname = item
    k, p = scen.table(tname, 61)
    tab = refmodel.Table(k, p)
    x = np.concatenate([[k[0] * 0.3, k[0], k[-1], k[-1] * 1.7], k[10:30:7], (k[5:50:9] * k[6:51:9])**0.5, [0.0123, 0.2]])
    o = scen.new(m, calc)
    scen.tiny(o)
    o.set_precision('all_pklin', interpol='poly' if interpol == 'lin' else 'lin')
    name = {'S1': 'spectrum_1loop', 'S2': 'spectrum_2loop', 'bias': 'bias_1loop', 'A1': 'A_1loop', 'A2': 'A_2loop', 'B1': 'B', 'B2': 'B'}[scen.kind(calc)]
    o.set_precision(name + '_pk_lin', interpol=interpol)
    res = scen.run(m, calc, (k, p), x, obj=o, setup=None)
    r = scen.off(res['pk_lin'], tab.find(x, interpol), 1e-10 * tab.cond(x))
    return {'viol': ['linear spectrum column of %s (%s, %s): %s' % (calc, interpol, tname, r)] if r else [], 'n': {'states': len(x), 'transitions': 1}}


def run(ctx):
    nmax = 48 if ctx.quick else 120
    items = []
    kinds = ['power', 'smooth', 'jagged']
    for n in (3, 4, 5, 7, 16, 17, 33, 60):
        for vk in ('faint', 'bright'):
            items += [(n, sp, vk, False) for sp in ('log', 'irr')]
    for n in range(3, nmax + 1):
        for sp in ('lin', 'log', 'dense', 'irr'):
            for vk in kinds:
                items.append((n, sp, vk, False))
        for name in ('zero', 'neg'):
            for pos in list(range(0, 20)) + list(range(-20, 0)):
                if -n <= pos < n:
                    items.append((n, 'log', (name, pos), True))
    for n in ((64, 65, 100, 127, 128, 129, 257, 600, 1000, 2500, 5000) if ctx.quick else (61, 62, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 500, 600, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 3000, 4096, 5000, 10001, 20000)):
        for sp in ('log', 'irr', 'lin'):
            for vk in kinds:
                items.append((n, sp, vk, n > 300))
    res = ctx.pmap(case, items)
    ctx.collect(items, res)
    cols = [(c, i, t) for c in ('S1dt', 'S1tt', 'S2dd', 'S2td', 'bias', 'A1', 'A2', 'B1', 'B2') for i in ('poly', 'lin') for t in ('cdm', 'irregular')]
    res2 = ctx.pmap(column, cols)
    ctx.collect(cols, res2)
    ctx.cov['traces_validated_against_impl'] = len(items) + len(cols)
    ctx.cov['exhaustive'] = True
    ctx.cov['rule'] = 'state = (table size, spacing, values, position of k relative to the table, interpolation); all combinations of the alphabet are visited; transition = one call of the real interface on a vector of positions'
    ctx.assumptions.append('tables are strictly increasing in k; reference interpolation evaluated in 80-bit arithmetic, tolerance 1e-10 of the conditioning of the interpolation')
