"""B term against the projected product of two spectra, at 1 and 2 loops."""
import ctypes
import numpy as np
import h, scen, refmodel
from C12 import kgrid


D = ctypes.POINTER(ctypes.c_double)
KEEP = []
# two tables that differ in everything: size, range, values
MIXED = {'mixed': (('narrow', 41), ('red', 60)), 'exdim': (('red', 60), ('narrow', 41)), 'mixed ends': (('irregular', 33), ('narrow', 12))}


def given(m, o, tname):
    """The two spectra of the B term given through the C interface."""
    lib, tabs = h.lib(m), []
    lib.set_spectra_B.argtypes = (ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t, D, D)
    lib.run_terms_B.argtypes = (ctypes.c_size_t,)
    for names, t in zip(((b'delta', b'theta'), (b'theta', b'theta')) if tname != 'exdim' else ((b'theta', b'delta'), (b'theta', b'theta')), MIXED[tname]):
        k, p = (np.ascontiguousarray(a) for a in scen.table(*t))
        KEEP[:] = KEEP[-8:] + [k, p]
        lib.set_spectra_B(names[0], names[1], len(k), k.ctypes.data_as(D), p.ctypes.data_as(D))
        tabs.append(refmodel.Table(k, p))
    o['pk'][...] = 0.
    lib.run_terms_B(1)
    return tabs


def check(m, item):
    cls, tname, nq, nmu, rng, iq, imu = item[:7]
    ks = item[7] if len(item) > 7 else None
    mixed = tname if tname in MIXED else None
    tname = 'cdm' if mixed else tname
    o = getattr(m, cls)()
    o.set_verbosity('quiet')
    tabk, tabp = scen.table(tname, 70)
    tab = refmodel.Table(tabk, tabp)
    o.set_pk_lin(tabk, tabp)
    scen.tiny(o)
    o.set_precision('B_q')
    o.set_precision('B_mu')
    if nq:
        o.set_precision('B_q', n=nq, min=rng[0], max=rng[1], interpol=iq)
        o.set_precision('B_mu', n=nmu, interpol=imu)
    else:
        nq, nmu, rng = 600, 10, (5e-4, 10.)
    lo, hi = rng if min(rng) > 0 else (tabk[0], tabk[-1])
    grid = refmodel.GridQ(tab, nq, rng[0], rng[1], iq)
    k = kgrid(grid, lo, hi, 11) if nq < 100 else np.array([1.3e-3, 0.0123, 0.1, 0.9])
    if ks:
        k = np.array(ks)
    o.set_terms(k)
    o.run_terms(nthreads=1)
    if mixed:
        tabs = given(m, o, mixed)
        tname = mixed
    elif cls == 'B2Loop':
        # the 1-loop density-velocity and velocity-velocity spectra at the wavenumbers of the table
        tabs = []
        for b in ('theta', 'theta_'):
            s = m.Spectrum1Loop()
            s.set_pk_lin(tabk, tabp)
            s.set_terms(tabk)
            s.run_terms(a='delta' if b == 'theta' else 'theta', b='theta', nthreads=1)
            tabs.append(refmodel.Table(tabk, refmodel.pk_1loop(s, 1.)))
    else:
        tabs = [tab, tab]
    viol = []
    for i, kk in enumerate(k):
        v, t = refmodel.B_terms(tabs[0], tabs[1], grid, nmu, imu, kk)
        r = scen.off(o['pk'][i], v, 4 * t)
        if r:
            viol.append('%s, table %s, nq=%d nmu=%d range %s interpolation %s/%s, k=%.12g: component %s' % (cls, tname, nq, nmu, rng, iq, imu, kk, r))
    return {'viol': viol, 'n': {'states': 9 * len(k), 'transitions': 1}, 'samples': [{'calculation': cls, 'table': tname, 'nq': nq, 'nmu': nmu, 'k': kk, 'B': v, 'tolerance': t}]}


def run(ctx):
    items = [('B1Loop', 'cdm', 0, 0, None, 'poly', 'poly'), ('B2Loop', 'cdm', 0, 0, None, 'poly', 'poly')]
    for cls in ('B1Loop', 'B2Loop'):
        for tname in ('cdm', 'narrow', 'irregular') + tuple(MIXED) if cls == 'B1Loop' else ('cdm', 'red', 'narrow'):
            for nq in ((2, 3, 4, 5, 8, 13, 40) if ctx.quick else list(range(1, 31)) + [60, 99]):
                for nmu in ((1, 2, 3, 6) if ctx.quick else (1, 2, 3, 4, 5, 6, 8, 12, 20)):
                    for rng in [(-1., -1.), (5e-4, 10.), (0.01, 1.), (0.09, 0.12)] + ([(-1., 2.), (0., 0.), (0., 0.5)] if nq in (2, 5) else []):
                        for iq, imu in ((('poly', 'poly'), ('lin', 'poly'), ('poly', 'lin')) if nq in (3, 8) else (('poly', 'poly'),)):
                            items.append((cls, tname, nq, nmu, rng, iq, imu))
    # a loop wavenumber far below or far above the wavenumber dominates
    items += [('B1Loop', t, 2, nmu, rng, 'poly', 'poly', ks) for t, rng, ks in scen.extremes(0.5 if ctx.quick else 0.1) for nmu in (1, 2, 5)]
    ctx.collect(items, ctx.pmap(check, items))
    ctx.cov['traces_validated_against_impl'] = ctx.counts.get('transitions', 0)
    ctx.cov['exhaustive'] = True
    ctx.cov['rule'] = 'state = (component, calculation, spectrum, quadrature, wavenumber); all combinations of the alphabet'
    ctx.assumptions.append('reference: B(k,mu) of Taruya, Nishimichi & Saito (2010) with an azimuth average derived independently of the published closed forms; at 2 loops the spectra are the 1-loop spectra the library gives (checked by C11, C22)')
