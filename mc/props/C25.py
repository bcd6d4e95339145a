"""Layouts and types of every array argument of every call."""
import itertools
import numpy as np
import scen

# values exactly representable in single precision (and for some layouts in integers), so that every layout holds the same values


def f32(x):
    return np.asarray(x, 'f4').astype('f8')


class Sub(np.ndarray):
    pass


def _ro(x):
    y = np.array(x)
    y.setflags(write=False)
    return y


def _strided(x):
    b = np.full(3 * len(x) + 1, -7.)
    b[1::3] = x
    return b[1::3]


def _reverse(x):
    return np.array(x[::-1])[::-1]


def _column(order):
    def f(x):
        b = np.full((len(x), 2), -9., order=order)
        b[:, 1] = x
        return b[:, 1]
    return f


def _record(x):
    b = np.zeros(len(x), dtype=[('a', 'f4'), ('b', 'f8')])
    b['b'] = x
    return b['b']


def _twodim(x):
    return np.array(x).reshape(-1, 2) if len(x) % 2 == 0 else np.array(x).reshape(-1, 1)


def _twodimF(x):
    return np.asfortranarray(_twodim(x))


def _transposed(x):
    """A view that reads the same values, in the same logical order, from memory in another order."""
    if len(x) % 2:
        return np.array(x).reshape(-1, 1)
    return np.array(np.array(x).reshape(-1, 2).T).T


def _misaligned(x):
    b = np.zeros(8 * len(x) + 3, 'u1')
    y = b[3:].view('f8')[:len(x)] if (8 * len(x)) % 8 == 0 and b[3:].nbytes == 8 * len(x) else None
    y[...] = x
    return y


LAYOUTS = {
    'list': lambda x: [float(v) for v in x], 'tuple': lambda x: tuple(float(v) for v in x), 'contiguous': lambda x: np.array(x), 'strided': _strided,
    'negative stride': _reverse, 'column of C': _column('C'), 'column of F': _column('F'), 'field of records': _record, 'big endian': lambda x: np.array(x, '>f8'),
    'f4': lambda x: np.array(x, 'f4'), 'f4 strided': lambda x: np.array(np.repeat(x, 2), 'f4')[::2], 'longdouble': lambda x: np.array(x, np.longdouble), 'read-only': _ro,
    'read-only strided': lambda x: _ro(np.repeat(x, 2))[::2], 'subclass': lambda x: np.array(x).view(Sub), 'object': lambda x: np.array([float(v) for v in x], dtype=object),
    'misaligned': _misaligned, 'list of scalars': lambda x: [np.float32(v) for v in x],
}
FLAT = {'2d': _twodim, '2d F': _twodimF, '2d transposed': _transposed}   # for the calls that flatten their argument


def snapshot(a):
    return [(x, np.array(x, copy=True), getattr(x, 'dtype', None), getattr(x, 'strides', None)) for x in a]


def unchanged(snap):
    for x, y, dt, st in snap:
        if not np.array_equal(np.asarray(x, 'f8'), np.asarray(y, 'f8')) or getattr(x, 'dtype', None) != dt or getattr(x, 'strides', None) != st:
            return False
    return True


TK, TP = (f32(x) for x in scen.table('cdm', 40))
KOUT = f32([0.4, 3e-4, 0.0123, 0.1, 0.23, 0.9])


def check_calc(m, item):
    calc, lk, lp, lo, via = item
    scen.fresh(m)
    ref = scen.run(m, calc, (TK, TP), KOUT)
    scen.fresh(m)
    every = dict(LAYOUTS, **FLAT)
    k, p, ko = every[lk](TK), every[lp](TP), every[lo](KOUT)
    viol = []
    snap = snapshot((k, p, ko))
    o = scen.new(m, calc)
    scen.tiny(o)
    keep = None
    if via == 'set_pk_lin':
        o.set_pk_lin(k, p)
    else:
        keep = m.SpectrumLin(k=k, pk=p)
        o.set_spectrum_lin(keep)
    o.set_terms(ko)
    o.run_terms(nthreads=2, **scen.CALCS[calc][1])
    tag = '%s, table %s/%s through %s, wavenumbers %s' % (calc, lk, lp, via, lo)
    r = scen.close(scen.outputs(o), ref, rtol=1e-12)
    if r:
        viol.append('%s: %s' % (tag, r))
    if not unchanged(snap):
        viol.append('%s: an argument was modified' % tag)
    # what the caller does with its arrays afterwards does not matter
    if via == 'set_pk_lin':
        for x in (k, p, ko):
            if isinstance(x, np.ndarray):
                if x.flags.writeable:
                    x[...] = 1.
        k = p = ko = snap = None
        o.run_terms(nthreads=1, **scen.CALCS[calc][1])
        r = scen.close(scen.outputs(o), ref, rtol=1e-12)
        if r:
            viol.append('%s: after the caller changed and dropped its arrays: %s' % (tag, r))
    return {'viol': viol, 'n': {'states': 3, 'transitions': 2}}


def check_call(m, item):
    """Calls that take arrays and return arrays."""
    name, la, lb, size = item
    scen.fresh(m)
    every = dict(LAYOUTS, **FLAT)
    o = m.Spectrum1Loop()
    o.set_pk_lin(TK, TP)
    viol = []
    x = KOUT[:size]
    y = f32([3., -1., 4., 1.5, -5., 9.])[:size]
    xs = np.sort(x)
    arg = every[la]
    arg2 = every[lb]
    if name == 'find_pk_lin':
        a = arg(x)
        snap = snapshot((a,))
        got, want = [o.find_pk_lin(a, interpol=i) for i in ('poly', 'lin')], [o.find_pk_lin(np.array(x), interpol=i) for i in ('poly', 'lin')]
    elif name == 'calc_running_sigmad2':
        a = arg(x)
        snap = snapshot((a,))
        got, want = o.calc_running_sigmad2(a, uvcutoff=0.7), o.calc_running_sigmad2(np.array(x), uvcutoff=0.7)
    elif name == 'interpol_poly':
        a, b = arg(xs), arg2(y)
        snap = snapshot((a, b))
        got, want = o.interpol_poly(0.11, a, b), o.interpol_poly(0.11, np.array(xs), np.array(y))
    elif name == 'interpol_lin':
        a, b = arg(xs), arg2(y)
        snap = snapshot((a, b))
        got, want = o.interpol_lin(0.11, a, b), o.interpol_lin(0.11, np.array(xs), np.array(y))
    elif name in ('pk_interp', 'pk_interp A', 'pk_interp B'):
        calc = {'pk_interp': 'S1dt', 'pk_interp A': 'A1', 'pk_interp B': 'B1'}[name]
        s = scen.new(m, calc)
        out = scen.run(m, calc, (TK, TP), np.sort(KOUT), obj=s)
        a = arg(x)
        snap = snapshot((a,))
        kw = {} if calc == 'S1dt' else {'mu2': 0.5}
        got, want = s.pk_interp(a, **kw), s.pk_interp(np.array(x), **kw)
        if scen.close(scen.outputs(s), out, rtol=0.):
            viol.append('%s changed the terms' % name)
    elif name == 'nowiggle':
        a, b = arg(xs), arg2(np.abs(y))
        snap = snapshot((a, b))
        got = []
        for q, w in ((a, b), (np.array(xs), np.abs(y))):
            s = m.SpectrumNoWiggle()
            s.set_terms(q)
            s.run_terms(pk=w)
            got.append(np.array([s['k'], s['pk']]))
        got, want = got
    elif name == 'growth':
        s = scen.new(m, 'S1dt')
        out = scen.run(m, 'S1dt', (TK, TP), xs, obj=s)
        a, b = arg(1. + 0.1 * f32(np.arange(size))), arg2(f32(np.arange(size)) * 2.)
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)) or 'object' in (la, lb):
            return {'viol': [], 'n': {'states': 0, 'transitions': 0}}    # arithmetic on the caller's growth factors: arrays only
        snap = snapshot((a, b))
        got, want = s.pk(Dgrowth=a, sigmad2=b), s.pk(Dgrowth=np.array(a, 'f8'), sigmad2=np.array(b, 'f8'))
        if scen.close(scen.outputs(s), out, rtol=0.):
            viol.append('%s changed the terms' % name)
    elif name == 'pad_k':
        s = scen.new(m, 'S1dt')
        scen.run(m, 'S1dt', (TK, TP), [0.05, 0.2], obj=s)
        t = s.deepcopy()
        a = arg(xs)
        snap = snapshot((a,))
        s.pad_k(a)
        t.pad_k(np.array(xs))
        got, want = np.concatenate([s[key] for key in s]), np.concatenate([t[key] for key in t])
    got, want = np.asarray(got, 'f8'), np.asarray(want, 'f8')
    if got.shape != want.shape and got.ndim and name in ('pk_interp', 'pk_interp A', 'pk_interp B'):
        got = got.reshape(want.shape)
    # single precision arguments may be combined in single precision by numpy before they meet double ones
    r = scen.off(got, want, 1e-12 * np.abs(want) if name != 'growth' else 3e-6 * np.abs(want))
    if r:
        viol.append('%s with %s/%s: %s' % (name, la, lb, r))
    if not unchanged(snap):
        viol.append('%s with %s/%s: an argument was modified' % (name, la, lb))
    return {'viol': viol, 'n': {'states': 1, 'transitions': 1}}


def check_terms(m, item):
    """Columns replaced in a container, in every layout, before a calculation: it computes with these values and leaves the caller's arrays alone."""
    calc, lay = item
    scen.fresh(m)
    ref = scen.run(m, calc, (TK, TP), KOUT)
    scen.fresh(m)
    viol = []
    o = scen.new(m, calc)
    scen.tiny(o)
    o.set_pk_lin(TK, TP)
    o.set_terms(np.arange(1., 1. + len(KOUT)))
    k = LAYOUTS[lay](KOUT)
    snap = snapshot((k,))
    o['k'] = k
    o.run_terms(nthreads=1, **scen.CALCS[calc][1])
    r = scen.close(scen.outputs(o), ref, rtol=1e-12)
    if r:
        viol.append('%s, wavenumbers assigned as %s: %s' % (calc, lay, r))
    if not unchanged(snap):
        viol.append('%s, wavenumbers assigned as %s: an argument was modified' % (calc, lay))
    return {'viol': viol, 'n': {'states': 1, 'transitions': 1}}


def run(ctx):
    every = list(LAYOUTS) + list(FLAT)
    items = []
    calcs = scen.MAIN
    for calc in calcs:
        if ctx.quick and calc not in ('S1dt', 'B2'):
            for lay in every:
                items += [(calc, lay, lay, lay, 'set_pk_lin')] + ([(calc, lay, lay, lay, 'set_spectrum_lin')] if lay in LAYOUTS else [])
            continue
        for lk, lp in itertools.product(every, repeat=2):
            if lk in LAYOUTS and lp in LAYOUTS:
                items += [(calc, lk, lp, lo, via) for lo in ((lk,) if ctx.quick else ('contiguous', lk, lp)) for via in ('set_pk_lin', 'set_spectrum_lin')]
            else:
                items += [(calc, lk, lp, lk, 'set_pk_lin')]
        items += [(calc, 'contiguous', 'contiguous', lo, 'set_pk_lin') for lo in every]
    ctx.collect(items, ctx.pmap(check_calc, items))
    items = []
    for name in ('find_pk_lin', 'calc_running_sigmad2', 'interpol_poly', 'interpol_lin', 'pk_interp', 'pk_interp A', 'pk_interp B', 'nowiggle', 'growth', 'pad_k'):
        two = name in ('interpol_poly', 'interpol_lin', 'nowiggle', 'growth')
        flat = name in ('find_pk_lin', 'calc_running_sigmad2')
        for size in (2, 4, 5) if ctx.quick else (1, 2, 3, 4, 5, 6):
            if name in ('interpol_lin', 'interpol_poly') and size < 2:
                continue
            for la in every if flat else LAYOUTS:
                if name.startswith('pk_interp') and la in ('longdouble', 'object'):
                    continue   # types numpy does not convert to double by itself, in a function of numpy
                for lb in (LAYOUTS if two else ('contiguous',)):
                    items.append((name, la, lb, size))
    ctx.collect(items, ctx.pmap(check_call, items))
    items = [(c, lay) for c in scen.CALCS for lay in LAYOUTS]
    ctx.collect(items, ctx.pmap(check_terms, items))
    ctx.cov['traces_validated_against_impl'] = ctx.counts.get('transitions', 0)
    ctx.cov['exhaustive'] = True
    ctx.cov['rule'] = 'every combination of layouts and types of the array arguments of each call; %d layouts' % len(every)
