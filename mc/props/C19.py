"""Exchange of the two fields: every pair of fields, spectrum, quadrature and number of threads."""
import numpy as np
import scen

SWAP = {'gamma1a_1loop': 'gamma1b_1loop', 'gamma1b_1loop': 'gamma1a_1loop', 'gamma1a_2loop': 'gamma1b_2loop', 'gamma1b_2loop': 'gamma1a_2loop'}


def check(m, item):
    loops, tname, sizes, rng, uv, nthreads, k, pos = item
    scen.fresh(m)
    cls = m.Spectrum1Loop if loops == 1 else m.Spectrum2Loop
    out, pk, pkd = {}, {}, {}
    for n, (a, b) in enumerate(scen.PAIRS[pos:] + scen.PAIRS[:pos]):
        o = cls()
        scen.tiny(o, sizes)
        if rng:
            for key in ('gamma1_1loop_q', 'gamma1_2loop_q', 'gamma2_tree_q', 'gamma2d_1loop_q', 'gamma2t_1loop_q', 'gamma3_tree_q'):
                o.set_precision(key, min=rng[0], max=rng[1])
        o.set_running_uvcutoff('all', uvcutoff=uv)
        o.set_pk_lin(*scen.table(tname, 90))
        o.set_terms(k)
        o.run_terms(a=a, b=b, nthreads=nthreads)
        out[a, b] = scen.outputs(o)
        pk[a, b] = {'pk': o.pk(), 'pk(D)': o.pk(Dgrowth=0.7), 'pk(D,s)': o.pk(Dgrowth=1.3, sigmad2=4.)}
    viol = []
    if pos == 0 and nthreads < 3:      # fields not given, given by position, and the default number of threads
        for args, kw, p in (((), {}, ('delta', 'delta')), ((), {'a': 'theta'}, ('theta', 'delta')), ((), {'b': 'theta'}, ('delta', 'theta')),
                            (('theta',), {}, ('theta', 'delta')), (('delta', 'theta'), {}, ('delta', 'theta')), (('theta', 'theta', 2), {}, ('theta', 'theta'))):
            o.run_terms(*args, **kw)
            r = scen.close(scen.outputs(o), out[p], rtol=1e-11, floor=1e-13)
            if r:
                viol.append('%d loop, table %s: run_terms with %s %s is not that of %s: %s' % (loops, tname, args, kw, p, r))
    tag = '%d loop, table %s, quadratures %s range %s cutoff %s, %d threads, order %d' % (loops, tname, sizes, rng, uv, nthreads, pos)
    t = dict(rtol=1e-11, floor=1e-13)
    for a, b in scen.PAIRS:
        x, y = out[a, b], out[b, a]
        r = scen.close({SWAP.get(c, c): x[c] for c in x}, y, **t)
        if r:
            viol.append('%s: terms of (%s,%s) exchanged do not give those of (%s,%s): %s' % (tag, a, b, b, a, r))
        r = scen.close(pk[a, b], pk[b, a], rtol=1e-10)
        if r:
            viol.append('%s: spectrum of (%s,%s) is not that of (%s,%s): %s' % (tag, a, b, b, a, r))
        for c in ('a', 'b'):
            own = a if c == 'a' else b
            cols = [n for n in x if n.startswith('gamma1' + c)]
            r = scen.close({n: x[n] for n in cols}, {n: out[own, own][n] for n in cols}, **t)
            if r:
                viol.append('%s: propagator of field %s=%s depends on the other field of (%s,%s): %s' % (tag, c, own, a, b, r))
        if a == b:
            r = scen.close({n: x[SWAP[n]] for n in x if n in SWAP}, {n: x[n] for n in x if n in SWAP}, **t)
            if r:
                viol.append('%s: equal fields %s have different propagators: %s' % (tag, a, r))
    for n in ('k', 'pk_lin', 'sigmad2'):
        for p in scen.PAIRS[1:]:
            r = scen.close({n: out[p][n]}, {n: out[scen.PAIRS[0]][n]}, rtol=1e-12)
            if r:
                viol.append('%s: %s depends on the fields: %s' % (tag, n, r))
    return {'viol': viol[:8], 'n': {'states': 4 * len(k), 'transitions': 4}, 'samples': [{'loops': loops, 'table': tname, 'k': k[0], 'pk': [float(pk[p]['pk'][0]) for p in scen.PAIRS]}]}


def run(ctx):
    items = []
    big = {key: n + 3 for key, n in scen.TINY.items()}
    one = {key: 1 if key.endswith('_q') else n for key, n in scen.TINY.items()}
    ks = [[0.1], [0.02, 0.3], [3e-4, 0.004, 0.0123, 0.1, 0.23, 0.9, 7.], [0.5, 0.05, 0.5, 0.001]]
    for loops in (1, 2):
        for tname in ('cdm', 'narrow', 'irregular', 'red'):
            for sizes in (scen.TINY, big, one):
                for rng in (None, (-1., -1.), (0.01, 1.)):
                    for nth in (1, 2, 3) if ctx.quick else (1, 2, 3, 5, 8):
                        for ik, k in enumerate(ks):
                            for pos in ((ik,) if ctx.quick else range(4)):
                                items.append((loops, tname, sizes, rng, 0.5 if nth < 3 else 0.2, nth, k, pos))
    # the documented default quadratures
    items += [(1, 'cdm', {}, None, 0.5, 1, ks[2], 0), (2, 'cdm', {}, None, 0.5, 1, [0.05, 0.2] if ctx.quick else ks[2], 0)]
    ctx.collect(items[::-1], ctx.pmap(check, items[::-1], timeout=600), 'exchange')
    ctx.cov['traces_validated_against_impl'] = ctx.counts.get('transitions', 0)
    ctx.cov['exhaustive'] = True
    ctx.cov['rule'] = 'state = (loops, pair of fields, position of the pair in the sequence of calculations, spectrum, quadratures, cutoff, threads, wavenumber)'
