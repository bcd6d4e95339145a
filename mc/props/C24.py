"""Containers of terms: every sequence of operations up to a depth, on the real containers and on a model made of plain arrays."""
import itertools
import numpy as np
import scen

# class -> components of its columns, written from the documentation of each calculation
COLS = {
    'SpectrumLin': ['k', 'pk'], 'SpectrumNoWiggle': ['k', 'pk'],
    'Spectrum1Loop': ['k', 'pk_lin', 'sigmad2', 'gamma1a_1loop', 'gamma1b_1loop', 'pk_gamma2_tree_tree'],
    'Spectrum2Loop': ['k', 'pk_lin', 'sigmad2', 'gamma1a_1loop', 'gamma1a_2loop', 'gamma1b_1loop', 'gamma1b_2loop', 'pk_gamma2_tree_tree', 'pk_gamma2_tree_1loop', 'pk_gamma2_1loop_1loop', 'pk_gamma3_tree'],
    'Bias1Loop': ['k', 'pk_lin', 'sigmad2', 'pk_b2d', 'pk_bs2d', 'pk_b2t', 'pk_bs2t', 'pk_b22', 'pk_b2s2', 'pk_bs22', 'sigma3sq'],
    'A1Loop': ['k', 'pk_lin', 'sigmad2', 'pk'], 'A2Loop': ['k', 'pk_lin', 'sigmad2', 'pk'],
    'B1Loop': ['k', 'pk_lin', 'sigmad2', 'pk'], 'B2Loop': ['k', 'pk_lin', 'sigmad2', 'pk'],
}
COMP = {'A1Loop': 5, 'A2Loop': 5, 'B1Loop': 9, 'B2Loop': 9}
POWER = {'k': 0, 'pk_lin': 1, 'sigmad2': 1, 'gamma1a_1loop': 1, 'gamma1b_1loop': 1, 'gamma1a_2loop': 2, 'gamma1b_2loop': 2, 'pk_gamma2_tree_tree': 2,
         'pk_gamma2_tree_1loop': 3, 'pk_gamma2_1loop_1loop': 4, 'pk_gamma3_tree': 3, 'pk_b2d': 2, 'pk_bs2d': 2, 'pk_b2t': 2, 'pk_bs2t': 2, 'pk_b22': 2,
         'pk_b2s2': 2, 'pk_bs22': 2, 'sigma3sq': 1, 'pk': 2}
TAB = scen.table('cdm', 40)
NAN = float('nan')


class Model(object):
    """Plain columns; group: containers known to share memory; dic: containers that are one and the same set of columns."""

    def __init__(self, cls, cols, group, dic):
        self.cls, self.cols, self.group, self.dic = cls, cols, group, dic


class World(object):

    def __init__(self, m, cls, extra=False, rows=4):
        self.m, self.cls, self.n = m, cls, 0
        self.power = lambda key: 1 if cls in ('SpectrumLin', 'SpectrumNoWiggle') and key == 'pk' else POWER[key]
        k = np.array([0.05, 0.1, 0.2, 0.4]) if rows == 4 else np.geomspace(0.05, 0.4, rows)
        rows = float(rows)
        cols = {}
        for i, key in enumerate(COLS[cls]):
            if key == 'k':
                cols[key] = k
            elif key == 'pk' and cls in COMP:
                cols[key] = 1. + np.arange(rows * COMP[cls]).reshape(int(rows), COMP[cls])
            else:
                cols[key] = (i + 1) * 10. + np.arange(rows)
        if extra:                       # columns of the user
            cols['mine'] = 50. + np.arange(rows)
            cols['pairs'] = 70. + np.arange(2 * rows).reshape(int(rows), 2)
        o = getattr(m, cls)()
        if hasattr(o, 'set_pk_lin'):
            o.set_pk_lin(*TAB)
        for key in cols:
            o[key] = cols[key].copy()
        self.objs = [(o, Model(cls, cols, self.tick(), self.tick()))]

    def tick(self):
        self.n += 1
        return self.n

    # which operations are possible now: those on an object must find it complete
    def ops(self, deep=True):
        out = []
        for t in range(len(self.objs)):
            for name in OPS:
                out.append((name, t))
        return out

    def mutates(self, t, memory):
        """Forget the relatives whose content is not determined by the statement."""
        o, x = self.objs[t]
        self.objs = [(p, y) for p, y in self.objs if y is x or not ((y.group == x.group) if memory else (y.dic == x.dic))]
        return o, x

    def add(self, o, x):
        self.objs.append((o, x))
        if len(self.objs) > 3:
            self.objs.pop(1)

    def full(self, x):
        return set(x.cols) == set(COLS[self.cls])

    def apply(self, op):
        """Returns the name of a discrepancy, None, or 'skip' when the operation does not apply."""
        name, t = op
        if t >= len(self.objs):
            return 'skip'
        return OPS[name](self, t)

    def compare(self):
        for i, (o, x) in enumerate(self.objs):
            if list(o.fields) != list(x.cols) and set(o.fields) != set(x.cols):
                return 'container %d: columns %s, expected %s' % (i, list(o.fields), list(x.cols))
            for key, v in x.cols.items():
                got = np.asarray(o[key])
                if got.shape != v.shape:
                    return 'container %d: shape of %s is %s, expected %s' % (i, key, got.shape, v.shape)
                bad = ~((np.abs(got - v) <= 1e-12 * np.abs(v)) | (got == v) | (np.isnan(got) & np.isnan(v)))
                if bad.any():
                    return 'container %d: column %s is %s, expected %s' % (i, key, got.tolist(), v.tolist())
            n = len(x.cols['k']) if 'k' in x.cols else None
            if n is not None and (len(o) != n or o.size != n or not np.array_equal(o.k, x.cols['k'], equal_nan=True)):
                return 'container %d: length %d, size %d, expected %d' % (i, len(o), o.size, n)
            if type(o).__name__ != self.cls:
                return 'container %d is a %s' % (i, type(o).__name__)
            if [key for key in o] != [key for key in COLS[self.cls] if key in x.cols]:
                return 'container %d: order of the columns is %s' % (i, [key for key in o])
        return None


def op_slice(sl, shares):
    def f(w, t):
        o, x = w.objs[t]
        if len(x.cols['k']) == 0:
            return 'skip'
        idx = sl(x.cols['k'])
        p = o[idx]
        w.add(p, Model(w.cls, {key: v[idx].copy() for key, v in x.cols.items()}, x.group if shares else w.tick(), w.tick()))
    return f


def op_row(w, t):
    o, x = w.objs[t]
    if len(x.cols['k']) < 2:
        return 'skip'
    o, x = w.mutates(t, True)
    o[1:2] = 7.5
    for v in x.cols.values():
        v[1:2] = 7.5


def op_maskset(w, t):
    o, x = w.mutates(t, True)
    mask = np.arange(len(x.cols['k'])) % 2 == 0
    o[mask] = NAN
    for v in x.cols.values():
        v[mask] = NAN


def op_setcol(w, t):
    o, x = w.mutates(t, False)
    key = COLS[w.cls][1]
    new = np.arange(float(len(x.cols['k']))) - 3.
    if key == 'pk' and w.cls in COMP:
        return 'skip'
    o[key] = new.copy()
    x.cols[key] = new


def op_rescale(s):
    def f(w, t):
        o, x = w.objs[t]
        o, x = w.mutates(t, True)
        o.rescale(s)
        for key in x.cols:
            x.cols[key] = x.cols[key] * s**(2 * w.power(key))
    return f


def op_nan(w, t):
    o, x = w.mutates(t, True)
    o.nan_to_zero()
    for key in x.cols:
        x.cols[key] = np.where(np.isnan(x.cols[key]), 0., x.cols[key])


def op_putnan(w, t):
    o, x = w.objs[t]
    if len(x.cols['k']) < 2:
        return 'skip'
    o, x = w.mutates(t, True)
    key = COLS[w.cls][-1]
    o[key][1], o[key][0] = NAN, np.inf       # an infinite value is no missing one
    x.cols[key] = x.cols[key].copy()
    x.cols[key][1], x.cols[key][0] = NAN, np.inf


def op_putone(w, t):
    """A missing value in one component of one row of each column."""
    o, x = w.objs[t]
    if len(x.cols['k']) < 2:
        return 'skip'
    o, x = w.mutates(t, True)
    for i, key in enumerate(x.cols):
        x.cols[key] = x.cols[key].copy()
        where = (len(x.cols['k']) - 1 - i % 2,) + tuple(i % n for n in x.cols[key].shape[1:])
        o[key][where] = x.cols[key][where] = NAN


def op_copy(w, t):
    o, x = w.objs[t]
    w.add(o.copy(), Model(w.cls, {key: v.copy() for key, v in x.cols.items()}, x.group, x.dic))


def op_deepcopy(w, t):
    o, x = w.objs[t]
    p = o.deepcopy()
    for key in x.cols:
        if np.shares_memory(p[key], o[key]):
            return 'deepcopy shares %s with the original' % key
    if hasattr(o, 'spectrum_lin'):
        if not hasattr(p, 'spectrum_lin'):
            return 'deepcopy has no linear spectrum'
        if p.spectrum_lin is o.spectrum_lin or np.shares_memory(p.spectrum_lin['pk'], o.spectrum_lin['pk']):
            return 'deepcopy shares the linear spectrum with the original'
        if not np.array_equal(p.spectrum_lin['pk'], o.spectrum_lin['pk']) or not np.array_equal(p.spectrum_lin['k'], o.spectrum_lin['k']):
            return 'deepcopy has another linear spectrum'
    w.add(p, Model(w.cls, {key: v.copy() for key, v in x.cols.items()}, w.tick(), w.tick()))


def op_zeros(w, t):
    o, x = w.mutates(t, False)
    k = [0.03, 0.3]
    o.zeros(k)
    o.reshape()
    x.cols['k'] = np.array(k)
    for key in COLS[w.cls][1:]:
        x.cols[key] = np.zeros((2, COMP[w.cls]) if key == 'pk' and w.cls in COMP else 2)
    x.group = w.tick()


def op_set_terms(w, t):
    o, x = w.objs[t]
    if not hasattr(o, 'set_terms'):
        return 'skip'
    o, x = w.mutates(t, False)
    k = [0.03, 0.07, 0.3]
    o.set_terms(k)
    x.cols['k'] = np.array(k)
    for key in COLS[w.cls][1:]:
        x.cols[key] = np.zeros((3, COMP[w.cls]) if key == 'pk' and w.cls in COMP else 3)
    x.group = w.tick()


def op_pad(ks, mode, const, own=False):
    def f(w, t):
        o, x = w.objs[t]
        k0 = x.cols['k']
        lib = w.cls not in ('SpectrumLin', 'SpectrumNoWiggle')
        if len(k0) == 0 or not (np.diff(k0) > 0).all() or np.isnan(k0).any() or (own and lib):
            return 'skip'
        if lib and not hasattr(o, 'spectrum_lin'):
            return 'skip'
        o, x = w.mutates(t, False)
        k = [v for v in ks]
        lo = [v for v in k if v < k0[0]]
        hi = [v for v in k if v > k0[-1]]
        kw = {}
        if mode is not None:
            kw['mode'] = mode
        if const is not None:
            kw['constant_values'] = const
        vals = [100. + i for i in range(len(k))]
        if own:
            kw['pk'] = np.array(vals)
        o.pad_k(k, **kw)
        for key, v in x.cols.items():
            fill = (const if isinstance(const, tuple) else (const or 0.,) * 2) if mode in (None, 'constant') else None
            a = np.full((len(lo),) + v.shape[1:], fill[0]) if fill is not None else np.repeat(v[:1], len(lo), axis=0)
            b = np.full((len(hi),) + v.shape[1:], fill[1]) if fill is not None else np.repeat(v[-1:], len(hi), axis=0)
            if mode == 'wrap':
                c = np.concatenate([v] * 5)
                a, b = c[2 * len(v) - len(lo):2 * len(v)], c[3 * len(v):3 * len(v) + len(hi)]
            if own and key == 'pk':
                a = np.array(vals[:len(lo)])
                b = np.array(vals[len(k) - len(hi):])
            x.cols[key] = np.concatenate([a, v, b])
        x.cols['k'] = np.array(lo + list(k0) + hi)
        if lib:
            x.cols['pk_lin'] = o.find_pk_lin(x.cols['k'])
            x.cols['sigmad2'] = o.calc_running_sigmad2(x.cols['k'])
        x.group = w.tick()
    return f


def op_views(w, t):
    """Everything that only reads."""
    o, x = w.objs[t]
    d = o.as_dict()
    if set(d) != set(x.cols):
        return 'as_dict has %s' % sorted(d)
    two = [COLS[w.cls][-1], 'k']
    if o.as_dict([]) != {} or o.as_dict(fields=()) != {}:
        return 'as_dict of no field has %s' % sorted(o.as_dict([]))
    d2 = o.as_dict(two)
    if set(d2) != set(two):
        return 'as_dict of %s has %s' % (two, sorted(d2))
    for dd in (d, d2):
        for key in dd:
            if not np.array_equal(np.asarray(dd[key]), x.cols[key], equal_nan=True):
                return 'as_dict: other values of %s' % key
    lst = o.tolist()
    if len(lst) != len([key for key in COLS[w.cls] if key in x.cols]):
        return 'tolist has %d columns' % len(lst)
    for key, v in zip([key for key in COLS[w.cls] if key in x.cols], lst):
        if not np.array_equal(np.asarray(v), x.cols[key], equal_nan=True):
            return 'tolist: other values of %s' % key
    for key in COLS[w.cls]:
        if (key in o) != (key in x.cols):
            return 'membership of %s' % key
    if 'nothing' in o:
        return 'a column that does not exist is contained'
    try:
        o['nothing']
        return 'a column that does not exist is returned'
    except KeyError:
        pass
    str(o)


def op_pop(w, t):
    """Takes a column out and puts it back."""
    o, x = w.mutates(t, False)
    key = COLS[w.cls][1]
    v = o.pop(key)
    if key in o or key in o.fields or len(list(o)) != len(COLS[w.cls]) - 1:
        return 'pop left %s in place' % key
    if not np.array_equal(np.asarray(v), x.cols[key], equal_nan=True):
        return 'pop returns other values of %s' % key
    for other in x.cols:
        if other != key and not np.array_equal(np.asarray(o[other]), x.cols[other], equal_nan=True):
            return 'pop of %s changed %s' % (key, other)
    o[key] = v


OPS = {
    'o[1:3]': op_slice(lambda k: slice(1, 3), True), 'o[::-1]': op_slice(lambda k: slice(None, None, -1), True), 'o[k>=0.1]': op_slice(lambda k: k >= 0.1, False),
    'o[[-1, 0]]': op_slice(lambda k: np.array([-1, 0]), False),
    'o[1:2]=7.5': op_row, 'o[mask]=nan': op_maskset, 'o[column]=': op_setcol, 'o[last][1]=nan': op_putnan, 'o[each][one]=nan': op_putone, 'rescale(2)': op_rescale(2.), 'rescale(0.5)': op_rescale(0.5),
    'nan_to_zero': op_nan, 'copy': op_copy, 'deepcopy': op_deepcopy, 'zeros': op_zeros, 'set_terms': op_set_terms, 'read': op_views, 'pop': op_pop,
    'pad both': op_pad((0.01, 0.02, 0.1, 0.9), None, None), 'pad below': op_pad((0.001, 0.005, 0.2), 'constant', 3.), 'pad above': op_pad((0.2, 1., 2., 3.), 'constant', -1.),
    'pad two': op_pad((0.002, 0.3, 5., 6.), 'constant', (2.5, -4.)), 'pad none': op_pad((0.1,), None, 5.), 'pad edge': op_pad((0.004, 7.), 'edge', None), 'pad wrap': op_pad((0.0001, 0.9e-3, 11.), 'wrap', None), 'pad values': op_pad((0.003, 0.1, 8.), None, None, own=True),
}


# operations that are about the columns of the calculation only
NOT_EXTRA = ('zeros', 'set_terms', 'rescale(2)', 'rescale(0.5)')


def check(m, item):
    cls, prefix, depth = item[:3]
    extra = len(item) > 3 and item[3]
    rows = item[4] if len(item) > 4 else 4
    scen.fresh(m)
    viol, n = [], 0
    names = [name for name in OPS if not (extra and name in NOT_EXTRA)]

    def rec(seq):
        nonlocal n
        w = World(m, cls, extra, rows)
        skip = False
        for op in seq:
            try:
                r = w.apply(op)
            except Exception as e:
                r = '%s: %s' % (type(e).__name__, e)
            if r == 'skip':
                skip = True
                break
            n += 1
            r = r or w.compare()
            if r:
                viol.append('%s of %d rows, %s: %s' % (cls, rows, ', '.join('%s on %d' % q for q in seq), r[:600]))
                return
        if skip:
            return
        if len(seq) < depth and len(viol) < 5:
            for t in range(len(w.objs)):
                for name in names:
                    rec(seq + [(name, t)])

    rec(list(prefix))
    return {'viol': viol[:5], 'n': {'states': n, 'transitions': n}, 'samples': [{'class': cls, 'prefix': prefix, 'columns of the user': extra}] if prefix else []}


def check_run(m, item):
    """Rows selected before and after a calculation: the columns stay aligned and the calculation fills the rows of the container it is called on."""
    calc, how = item
    scen.fresh(m)
    k = np.array([0.4, 0.0123, 0.1, 0.23, 0.9])
    full = scen.run(m, calc, TAB, k)
    viol = []
    idx = {'slice': slice(1, 4), 'step': slice(0, 5, 2), 'reverse': slice(None, None, -1), 'mask': k < 0.3, 'index': np.array([3, 0]), 'one': slice(2, 3), 'none': slice(0, 0)}[how]
    o = scen.new(m, calc)
    scen.tiny(o)
    o.set_pk_lin(*TAB)
    o.set_terms(k)
    p = o[idx]
    p.set_pk_lin(*TAB)
    kw = scen.CALCS[calc][1]
    p.run_terms(nthreads=1, **kw)
    r = scen.close(scen.outputs(p), {key: v[idx] for key, v in full.items()}, rtol=1e-9)
    if r:
        viol.append('%s: rows (%s) selected before the calculation: %s' % (calc, how, r))
    o.run_terms(nthreads=1, **kw)
    r = scen.close(scen.outputs(o), full, rtol=1e-9)
    if r:
        viol.append('%s: rows (%s) selected before the calculation of all of them: %s' % (calc, how, r))
    q = o[idx]
    r = scen.close(scen.outputs(q), {key: v[idx] for key, v in full.items()}, rtol=0.)
    if r:
        viol.append('%s: rows (%s) selected after the calculation: %s' % (calc, how, r))
    return {'viol': viol, 'n': {'states': 3, 'transitions': 3}}


def run(ctx):
    items = []
    first = [(name, 0) for name in OPS]
    for cls in COLS:
        depth = 3 if (not ctx.quick or cls in ('SpectrumLin', 'A1Loop')) else 2
        if not ctx.quick and cls in ('SpectrumLin', 'B1Loop', 'Spectrum1Loop'):
            depth = 4
        for op in first:
            if depth < 4:
                items.append((cls, [op], depth))
            else:
                items += [(cls, [op, (name, t)], depth) for name in OPS for t in (0, 1)]
    for cls in ('SpectrumLin', 'Spectrum1Loop', 'A1Loop', 'B2Loop'):
        items += [(cls, [op], 2 if ctx.quick else 3, True) for op in first if op[0] not in NOT_EXTRA]
    # one row, two, and thousands
    for cls in COLS:
        for rows in (1, 2, 2500):
            for extra in (False, True):
                items += [(cls, [op], 2 if rows == 2 or (rows == 1 and not ctx.quick) else 1, extra, rows) for op in first if not (extra and op[0] in NOT_EXTRA)]
    ctx.collect(items, ctx.pmap(check, items, timeout=400))
    items = [(c, how) for c in scen.CALCS for how in ('slice', 'step', 'reverse', 'mask', 'index', 'one', 'none')]
    ctx.collect(items, ctx.pmap(check_run, items))
    ctx.cov['traces_validated_against_impl'] = ctx.counts.get('transitions', 0)
    ctx.cov['exhaustive'] = True
    ctx.cov['rule'] = 'every sequence of operations up to depth 2 or 3 (4 in the thorough run for three kinds) on the containers derived so far; every container compared with the model after every operation'
    ctx.assumptions.append('a slice and a shallow copy may share memory with the original: after an operation that writes in place on one of them, the others are not compared')
