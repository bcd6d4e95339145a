"""Histories: every sequence of operations up to a depth in a process of its own, every calculation in it compared with that of an unused library."""
import gc, itertools
import numpy as np
import scen, hist

T1, T2, T3 = ('cdm', 50), ('narrow', 50), ('red', 61)
K1, K2 = (0.23,), (0.9, 0.0123, 0.1)
OPS = {}
for _c in scen.MAIN:
    OPS['run %s' % _c] = ('run', _c, T1, K1, 1)
OPS.update({
    'run S1tt narrow': ('run', 'S1tt', T2, K2, 1), 'run S2dd narrow': ('run', 'S2dd', T2, K2, 1), 'run A2 narrow': ('run', 'A2', T2, K2, 1), 'run B2 narrow': ('run', 'B2', T2, K2, 1),
    'run bias red': ('run', 'bias', T3, K2, 1), 'run A1 red': ('run', 'A1', T3, K1, 1), 'run S2tt 2 threads': ('run', 'S2tt', T1, K2, 2), 'run B1 3 threads': ('run', 'B1', T2, K2, 3),
    'again': ('again',), 'set_pk_lin': ('pk',), 'set_terms': ('terms',), 'functions': ('functions',), 'bad setting': ('bad',), 'empty': ('empty',), 'drop': ('drop',),
    'small': ('S', ('P', 'all', 3, 0.01, 2., None)), 'relative': ('S', ('P', 'all_q', None, -1., -1., None)), 'lin': ('S', ('P', 'all', None, 1., -1., 'lin')), 'pk lin': ('S', ('P', 'all_pklin', None, 1., -1., 'lin')),
    'cut': ('S', ('U', 'all', 1.7)), 'MC range': ('S', ('P', 'gamma3_tree_q', None, 0.05, 0.9, 'lin')), 'A2 range': ('S', ('P', 'A_2loop_II_III_q', None, 0.05, 0.9, None)), 'reset mu': ('S', ('P', 'all_mu', None, 1., -1., None)),
    'clear': ('S', ('clear',)),
})
NAMES = list(OPS)
# settings one after another: the values of one kind of setting, in every order, with a calculation after each
VALUES = {
    'cutoff': [('U', 'all', c) for c in (1.7, 0.3, 0., 0.5)], 'interpolation': [('P', 'all', None, 1., -1., i) for i in ('lin', 'poly')],
    'interpolation of the spectrum': [('P', 'all_pklin', None, 1., -1., i) for i in ('lin', 'poly')],
    'range': [('P', 'all_q', None, lo, hi, None) for lo, hi in ((0.01, 2.), (0.05, 0.9), (-1., -1.), (0.002, 2.))],
    'nodes': [('P', 'all_q', n, 1., -1., None) for n in (3, 5, 4)], 'angles': [('P', 'all_mu', n, 1., -1., None) for n in (2, 4, 3)],
}
VALUES['cutoff and range'] = [VALUES['cutoff'][0], VALUES['range'][1], VALUES['cutoff'][1], VALUES['range'][2]]
for _kind in VALUES:
    for _i, _op in enumerate(VALUES[_kind]):
        OPS['%s %d' % (_kind, _i)] = ('S', _op)
FEW = ['run S2dt', 'run A2', 'run B2', 'run B1', 'run S2dd narrow', 'run A2 narrow', 'run S2tt 2 threads', 'again', 'set_pk_lin', 'small', 'relative', 'lin', 'cut', 'clear']
COSTLY = {'A2': ['A_2loop_I_q', 'gamma2d_1loop_q', 'gamma2t_1loop_q', 'gamma1_1loop_q'], 'S2': ['gamma2d_1loop_q', 'gamma2t_1loop_q', 'gamma2_tree_q', 'gamma1_2loop_q'], 'bias': ['bias_1loop_q'], 'A1': ['A_1loop_q'],
          'B2': ['gamma2_tree_q', 'gamma1_1loop_q', 'B_q'], 'B1': ['B_q'], 'S1': ['gamma2_tree_q', 'gamma1_1loop_q']}


def costly(calc, s):
    return any(s.d.get(leaf, (None,))[0] is None for leaf in COSTLY.get(scen.kind(calc), []))


def plan(start, seq, probes, frugal):
    """The calculations of a sequence of operations with the settings and inputs each must see.  The persistent object is a 1-loop spectrum."""
    s = hist.Settings()
    steps = [('S', op) for op in (hist.tiny_ops() if start == 'tiny' else [])]
    for st in steps:
        s.apply(st[1])
    own_tab, own_k = T1, K1
    for name in seq:
        op = OPS[name]
        if op[0] == 'S':
            s.apply(op[1])
            steps.append(op)
        elif op[0] == 'run':
            if frugal and costly(op[1], s):
                steps.append(('run', 'S1dt', op[2], op[3], op[4], s.copy()))
            else:
                steps.append(op + (s.copy(),))
        elif op[0] == 'again':
            steps.append(('again', own_tab, own_k, s.copy()))
        elif op[0] == 'pk':
            own_tab = T2 if own_tab == T1 else T1
            steps.append(('pk', own_tab))
        elif op[0] == 'terms':
            own_k = K2 if own_k == K1 else K1
            steps.append(('terms', own_k))
        else:
            steps.append(op)
    for calc, tab in probes:
        if not (frugal and costly(calc, s)):
            steps.append(('run', calc, tab, K1, 1, s.copy()))
    steps.append(('again', own_tab, own_k, s.copy()))
    return steps


class State(object):

    def __init__(self, m):
        self.m, self.canon = m, hist.Canon(m)
        self.fun = {}

    def functions(self, tab):
        if tab not in self.fun:
            def f():
                o = self.m.PyRegPT()
                o.set_verbosity('quiet')
                o.set_pk_lin(*scen.table(*tab))
                return [np.array(o.find_pk_lin(K2)), np.array(o.find_pk_lin(K2, interpol='lin')), np.array(o.calc_running_sigmad2(K2, uvcutoff=0.8)), np.array(o.nodes_weights_gauss_legendre(0.1, 2., 7)), o.interpol_poly(0.3, [0., 1., 2.], [1., 4., 2.])]
            kind, out = hist.child(f)
            if kind != 'ok':
                raise RuntimeError(out)
            self.fun[tab] = out
        return self.fun[tab]


def reused(m, objs, calc, tab, k, nthreads):
    """A calculation with the object of the earlier ones: tables of the same size are written in place, wavenumbers are set only if they change."""
    tk, tp = scen.table(*tab)
    o, have = objs.get(calc, (None, None))
    if o is None:
        o = scen.new(m, calc)
    if have is not None and o.spectrum_lin.size == len(tk):
        o.spectrum_lin['k'][...] = tk
        o.spectrum_lin['pk'][...] = tp
    else:
        o.set_pk_lin(tk, tp)
    if have != list(k):
        o.set_terms(list(k))
    objs[calc] = (o, list(k))
    o.run_terms(nthreads=nthreads, **scen.CALCS[calc][1])
    return scen.outputs(o)


def execute(m, steps, refs, reuse):
    viol, objs = [], {}
    own = m.Spectrum1Loop()
    own.set_verbosity('quiet')
    own.set_pk_lin(*scen.table(*T1))
    own.set_terms(list(K1))
    own_tab = T1
    alive = []
    for st, ref in zip(steps, refs):
        if st[0] == 'S':
            hist.apply_real(m.PyRegPT(), st[1])
        elif st[0] == 'run':
            if reuse:
                r = scen.close(reused(m, objs, st[1], st[2], st[3], st[4]), ref, rtol=1e-10)
                if r:
                    viol.append('%s on table %s with %d threads, object used before: %s' % (st[1], st[2], st[4], r))
                continue
            o = scen.new(m, st[1])
            out = scen.run(m, st[1], scen.table(*st[2]), list(st[3]), nthreads=st[4], obj=o, setup=None)
            alive = [o]
            r = scen.close(out, ref, rtol=1e-10)
            if r:
                viol.append('%s on table %s with %d threads: %s' % (st[1], st[2], st[4], r))
        elif st[0] == 'again':
            own.run_terms(a='delta', b='theta', nthreads=1)
            r = scen.close(scen.outputs(own), ref, rtol=1e-10)
            if r:
                viol.append('the object made at the start: %s' % r)
        elif st[0] == 'pk':
            own.set_pk_lin(*scen.table(*st[1]))
            own_tab = st[1]
        elif st[0] == 'terms':
            own.set_terms(list(st[1]))
        elif st[0] == 'functions':
            o = m.PyRegPT()
            o.set_pk_lin(*scen.table(*T3))
            got = [o.find_pk_lin(K2), o.find_pk_lin(K2, interpol='lin'), o.calc_running_sigmad2(K2, uvcutoff=0.8), np.array(o.nodes_weights_gauss_legendre(0.1, 2., 7)), o.interpol_poly(0.3, [0., 1., 2.], [1., 4., 2.])]
            for i, (a, b) in enumerate(zip(got, ref)):
                r = scen.off(a, b, 1e-11 * np.abs(b))
                if r:
                    viol.append('function %d: %s' % (i, r))
        elif st[0] == 'bad':
            try:
                m.PyRegPT().set_precision('nonsense', n=3)
            except AttributeError:
                pass
            try:
                m.PyRegPT().set_running_uvcutoff('nonsense', uvcutoff=3.)
            except AttributeError:
                pass
        elif st[0] == 'empty':
            for c in ('S1dt', 'A2', 'B2'):
                o = scen.new(m, c)
                o.set_pk_lin(*scen.table(*T3))
                o.set_terms([])
                if c != 'B2':
                    o.run_terms(nthreads=1)
        elif st[0] == 'drop':
            alive = []
            o = None
            objs.clear()
            gc.collect()
    return viol


def check(st, item):
    start, prefix, last, probes, frugal, reuse = item
    viol, n = [], 0
    for name in last:
        seq = list(prefix) + ([name] if name else [])
        steps = plan(start, seq, probes, frugal)
        refs = []
        for s in steps:
            if s[0] == 'run':
                refs.append(st.canon.get(s[1], s[5], s[2], list(s[3])))
            elif s[0] == 'again':
                refs.append(st.canon.get('S1dt', s[3], s[1], list(s[2])))
            elif s[0] == 'functions':
                refs.append(st.functions(T3))
            else:
                refs.append(None)
        kind, out = hist.child(execute, st.m, steps, refs, reuse)
        n += len(steps)
        if kind != 'ok':
            viol.append('history (%s) %s: %s %s' % (start, seq, kind, out))
        else:
            viol += ['history (%s) %s: %s' % (start, seq, v) for v in out[:2]]
        if len(viol) > 4:
            break
    return {'viol': viol[:5], 'n': {'states': len(last), 'transitions': n}, 'samples': [{'start': start, 'prefix': prefix, 'last': last[:4]}]}


def run(ctx):
    names = NAMES
    probes = [('S2dt', T1), ('A2', T1), ('B2', T2), ('bias', T1), ('A1', T1)]
    items = [('tiny', [], [None], probes, False), ('unused', [], [None], probes, False)]
    # a reset after anything: everything at its defaults
    for a in names:
        items.append(('tiny', [a], ['clear'], [(c, T1) for c in scen.MAIN], False))
        items.append(('unused', [a], [None], [('S1dt', T1), ('B1', T2)], True))
    if ctx.quick:
        items += [('tiny', [a], names, probes, True) for a in names]
        items += [('tiny', [a, b], FEW, probes[:3], True) for a in FEW for b in FEW]
    else:
        items += [('tiny', [a, b], names, probes, True) for a in names for b in names]
        items += [('tiny', [a, b, c], FEW, probes[:3], True) for a in FEW for b in FEW for c in FEW]
        items += [('tiny', [a, b], ['clear'], [(c, T1) for c in scen.MAIN if c != 'A2'], False) for a in FEW for b in FEW]
    values = []
    for kind in VALUES:
        of = ['%s %d' % (kind, i) for i in range(len(VALUES[kind]))]
        for c in ['S1dt', 'S2dt', 'bias', 'A1', 'A2', 'B1', 'B2']:
            for s in itertools.product(of, repeat=3 if ctx.quick else 4):
                if all(a != b for a, b in zip(s, s[1:])):
                    values.append(('tiny', [x for v in s[:-1] for x in (v, 'run %s' % c)] + [s[-1]], ['run %s' % c], [], True))
    ctx.cov['settings_one_after_another'] = len(values)
    items += values
    items = [i + (r,) for i in items for r in (False, True)]
    ctx.collect(items, ctx.pmap(check, items, setup=State, timeout=600))
    ctx.cov['traces_validated_against_impl'] = ctx.counts.get('states', 0)
    ctx.cov['exhaustive'] = True
    ctx.cov['rule'] = 'every sequence of two operations out of %d and of three out of %d (three and four in the thorough run), each in a process of its own; every calculation in it and after it compared with that of an unused library with the same settings and inputs' % (len(names), len(FEW))
    ctx.assumptions.append('histories of several threads are in C01; here the calculations after a parallel one run with one thread')
