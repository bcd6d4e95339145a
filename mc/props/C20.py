"""Scaling with the amplitude of the linear spectrum, rescale and growth factor."""
import numpy as np
import scen

# power of the linear spectrum in each column, from the definition of the terms (half of the power of the density)
POWER = {'k': 0, 'pk_lin': 1, 'sigmad2': 1, 'gamma1a_1loop': 1, 'gamma1b_1loop': 1, 'gamma1a_2loop': 2, 'gamma1b_2loop': 2, 'pk_gamma2_tree_tree': 2,
         'pk_gamma2_tree_1loop': 3, 'pk_gamma2_1loop_1loop': 4, 'pk_gamma3_tree': 3, 'pk_b2d': 2, 'pk_bs2d': 2, 'pk_b2t': 2, 'pk_bs2t': 2, 'pk_b22': 2,
         'pk_b2s2': 2, 'pk_bs22': 2, 'sigma3sq': 1, 'pk': 2}
K = [3e-4, 0.0023, 0.0123, 0.1, 0.23, 0.9, 12.]


def spectra(o):
    """Everything the object evaluates with a growth factor."""
    names = [n for n in ('pk', 'pk_lin', 'pk_b2d', 'pk_bs2d', 'pk_b2t', 'pk_bs2t', 'pk_b22', 'pk_b2s2', 'pk_bs22', 'pk_sigma3sq', 'pk_b22_damp', 'pk_b2s2_damp', 'pk_bs22_damp') if callable(getattr(o, n, None))]
    return names


def check(m, item):
    calc, tname, s, sizes = item
    scen.fresh(m)
    tk, tp = scen.table(tname, 70)
    setup = lambda o: scen.tiny(o, sizes)
    viol = []
    objs = {}
    for amp in (1., s * s):
        o = scen.new(m, calc)
        out = scen.run(m, calc, (tk, tp * amp), K, obj=o, setup=setup)
        objs[amp] = (o, out)
    o1, a = objs[1.]
    o2, b = objs[s * s]
    tag = '%s, table %s, scale %.6g' % (calc, tname, s)
    want = {key: a[key] * s**(2 * POWER[key]) for key in a}
    t = dict(rtol=1e-9, floor=1e-13)
    r = scen.close(b, want, **t)
    if r:
        viol.append('%s: linear spectrum times the square of the scale: %s' % (tag, r))
    c = o1.deepcopy()
    c.rescale(s)
    r = scen.close({key: c[key] for key in a}, want, **t)
    if r:
        viol.append('%s: rescale: %s' % (tag, r))
    # evaluating with a growth factor = rescaling by it and evaluating with growth one
    names = spectra(o1)
    for n in names:
        r = scen.close({n: getattr(o1, n)(s)}, {n: getattr(c, n)(1.)}, rtol=1e-9, floor=1e-14) or scen.close({n: getattr(o1, n)(Dgrowth=s)}, {n: getattr(c, n)()}, rtol=1e-9, floor=1e-14)
        if r:
            viol.append('%s: %s with this growth factor is not that of the rescaled object: %s' % (tag, n, r))
        if n != 'pk' or calc[0] != 'S':
            continue
        r = scen.close({n: getattr(o2, n)(1.)}, {n: getattr(c, n)(1.)}, rtol=1e-7, floor=1e-13)
        if r:
            viol.append('%s: %s of the rescaled object is not that of the rescaled linear spectrum: %s' % (tag, n, r))
    c.rescale(1. / s)
    r = scen.close({key: c[key] for key in a}, a, rtol=1e-12)
    if r:
        viol.append('%s: rescale there and back: %s' % (tag, r))
    r = scen.close(scen.outputs(o1), a, rtol=0.)
    if r:
        viol.append('%s: evaluation changed the terms: %s' % (tag, r))
    return {'viol': viol[:8], 'n': {'states': len(K) * (len(a) + 2 * len(names)), 'transitions': 6}, 'samples': [{'calc': calc, 'scale': s, 'columns': sorted(a)}]}


def check_objects(m, item):
    """Sequences of rescalings of every kind of object, including those that are no pure power of the linear spectrum, and lists of growth factors."""
    calc, seq = item
    scen.fresh(m)
    if calc in ('lin', 'nowiggle'):
        k, pk = scen.table('cdm', 50)
        o = m.SpectrumLin(k=k.copy(), pk=pk.copy()) if calc == 'lin' else m.SpectrumNoWiggle()
        if calc == 'nowiggle':
            o.set_terms(k)
            o.run_terms(pk=pk)
        a = {key: np.array(o[key]) for key in ('k', 'pk')}
    else:
        o = scen.new(m, calc)
        a = scen.run(m, calc, scen.table('cdm', 60), K, obj=o)
    viol = []
    tot = 1.
    c = o.deepcopy()
    for s in seq:
        c.rescale(s)
        tot *= s
        want = {key: a[key] * tot**(2 * (POWER[key] if calc not in ('lin', 'nowiggle') or key != 'pk' else 1)) for key in a}
        r = scen.close({key: c[key] for key in a}, want, rtol=1e-12)
        if r:
            viol.append('%s rescaled by %s: %s' % (calc, seq, r))
    for n in spectra(o):
        full = np.asarray(getattr(o, n)(tot))
        r = scen.close({n: full}, {n: getattr(c, n)()}, rtol=1e-9, floor=1e-14)
        if r:
            viol.append('%s: %s with growth %s is not that of the object rescaled by %s: %s' % (calc, n, tot, seq, r))
    c.rescale(1. / tot)
    r = scen.close({key: c[key] for key in a}, a, rtol=1e-11) or scen.close({key: o[key] for key in a}, a, rtol=0.)
    if r:
        viol.append('%s rescaled by %s and back: %s' % (calc, seq, r))
    c = o.deepcopy()
    c.rescale()
    r = scen.close({key: c[key] for key in a}, a, rtol=0.)
    if r:
        viol.append('%s: rescale without a scale changes the terms: %s' % (calc, r))
    return {'viol': viol[:6], 'n': {'states': len(seq), 'transitions': len(seq) + 1}}


def run(ctx):
    import itertools
    items = []
    scales = (1e-5, 0.5, 0.83, 1., 1.37, 3., 1e3) if ctx.quick else (1e-7, 1e-5, 1e-3, 1e3, 1e5, 0.01, 0.2, 0.5, 0.83, 0.999, 1., 1.37, 3., 20.)
    big = {key: n + 4 for key, n in scen.TINY.items()}
    for calc in ('S1dd', 'S1dt', 'S1td', 'S1tt', 'S2dd', 'S2dt', 'S2td', 'S2tt', 'bias', 'A1', 'B1'):
        for tname in ('cdm', 'red', 'narrow', 'irregular'):
            for s in scales:
                for sizes in (scen.TINY, big) if ctx.quick else (scen.TINY, big, {key: 1 for key in scen.TINY}):
                    items.append((calc, tname, s, sizes))
    ctx.collect(items, ctx.pmap(check, items))
    seqs = [q for n in (1, 2, 3) for q in itertools.product((0.5, 1.3, 2.1) if ctx.quick else (0.1, 0.5, 1., 1.3, 2.1), repeat=n)]
    items = [(c, q) for c in list(scen.CALCS) + ['lin', 'nowiggle'] for q in seqs]
    ctx.collect(items, ctx.pmap(check_objects, items))
    ctx.cov['traces_validated_against_impl'] = ctx.counts.get('transitions', 0)
    ctx.cov['exhaustive'] = True
    ctx.cov['rule'] = 'state = (calculation, column or spectrum, wavenumber, linear spectrum, scale, quadratures); all sequences of rescalings up to 3'
