"""Change of the unit of length."""
import numpy as np
import scen

# dimension of each column: power of the length
DIM = {'k': -1, 'pk_lin': 3, 'sigmad2': 2, 'gamma1a_1loop': 0, 'gamma1b_1loop': 0, 'gamma1a_2loop': 0, 'gamma1b_2loop': 0, 'pk_gamma2_tree_tree': 3,
       'pk_gamma2_tree_1loop': 3, 'pk_gamma2_1loop_1loop': 3, 'pk_gamma3_tree': 3, 'pk_b2d': 3, 'pk_bs2d': 3, 'pk_b2t': 3, 'pk_bs2t': 3, 'pk_b22': 3,
       'pk_b2s2': 3, 'pk_bs22': 3, 'sigma3sq': 0, 'pk': 3}
K = np.array([3e-4, 0.0023, 0.0123, 0.1, 0.23, 0.9, 7.])


def check(m, item):
    calc, tname, L, sizes, rng, uv = item
    viol = []
    tk, tp = scen.table(tname, 70)

    def go(u):
        """The calculation in the unit u: wavenumbers times u, spectra over u^3."""
        scen.fresh(m)
        o = scen.new(m, calc)

        def setup(o):
            for key in scen.QUADS_Q:
                n = sizes.get(key, 0)
                if rng is None:
                    o.set_precision(key, n=n, min=5e-4 * u, max=10. * u)
                else:
                    o.set_precision(key, n=n, min=rng[0] * (u if rng[0] > 0 else 1.), max=rng[1] * (u if rng[1] > 0 else 1.))
            for key in scen.QUADS_MC:
                o.set_precision(key, min=5e-4 * u, max=10. * u)
            for key in scen.QUADS_MU:
                o.set_precision(key, n=sizes.get(key, 4))
            o.set_running_uvcutoff('all', uvcutoff=uv)
        out = scen.run(m, calc, (tk * u, tp / u**3), K * u, obj=o, setup=setup)
        pk = np.asarray(o.pk()) if callable(getattr(o, 'pk', None)) else None
        return out, pk

    # rounding error of the terms themselves (some kernels cancel): the same in units that are close to one another
    a, pa = go(1.)
    near = [go(u)[0] for u in (1.03, 0.96)]
    b, pb = go(L)
    for key in a:
        want = a[key] * L**-DIM[key]
        noise = sum(np.abs(n[key] * u**DIM[key] - a[key]) for n, u in zip(near, (1.03, 0.96)))
        noise = np.minimum(noise, 1e-3 * np.abs(a[key]).max())
        # components of one row are sums over the same products: rounding is relative to the largest of them
        row = np.abs(a[key]).max(axis=-1, keepdims=True) if a[key].ndim > 1 else np.abs(a[key])
        # a term that is zero because a range of angles closes exactly there is rounding error in other units
        edge = 1e-12 * np.abs(a[key]).max()
        r = scen.off(b[key], want, (30 * noise + 1e-6 * np.abs(a[key]) + 1e-8 * row + edge) * L**-DIM[key])
        if r:
            viol.append('%s, table %s, unit of length over %.4g, quadratures %s, range %s: %s %s' % (calc, tname, L, 'tiny' if sizes is scen.TINY else sizes, rng, key, r))
    if pa is not None:
        noise = 1e-6 * np.abs(pa) + 1e-12 * np.abs(pa).max()
        r = scen.off(pb, pa * L**-3, noise * L**-3)
        if r and calc[0] == 'S':
            viol.append('%s, table %s, unit over %.4g: assembled spectrum: %s' % (calc, tname, L, r))
    return {'viol': viol[:6], 'n': {'states': len(a) * len(K), 'transitions': 4}, 'samples': [{'calc': calc, 'unit': L, 'columns': sorted(a)}]}


def run(ctx):
    items = []
    units = (0.01, 0.7, 10., 300.) if ctx.quick else (1e-5, 1e-3, 0.01, 0.1, 0.7, 3.0857, 10., 300., 3e3, 1e5)
    big = {key: n + 4 for key, n in scen.TINY.items()}
    for calc in ('S1dd', 'S1dt', 'S1td', 'S1tt', 'S2dd', 'S2dt', 'S2td', 'S2tt', 'bias', 'A1', 'B1', 'B2'):
        for tname in ('cdm', 'narrow', 'irregular'):
            for L in units:
                for sizes in (scen.TINY, big) if ctx.quick else (scen.TINY, big, {key: 2 for key in scen.TINY}):
                    for rng in (None, (-1., -1.)):
                        items.append((calc, tname, L, sizes, rng, 0.5 if rng else 0.3))
    ctx.collect(items, ctx.pmap(check, items))
    ctx.cov['traces_validated_against_impl'] = ctx.counts.get('transitions', 0)
    ctx.cov['exhaustive'] = True
    ctx.cov['rule'] = 'state = (calculation, column, wavenumber, linear spectrum, unit, quadratures)'
    ctx.assumptions.append('not claimed for the 2-loop A term, which switches to tree-level propagators at fixed wavenumbers')
