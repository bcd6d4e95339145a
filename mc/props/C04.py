"""Settings: every sequence of settings up to a depth, each followed by calculations compared with those of an unused library given the resulting settings directly."""
import ctypes, itertools, os
import numpy as np
import h, scen, hist

TAB = ('cdm', 50)
K = [0.23]
ACTIONS = {            # n, min, max, interpolation; None: argument not given
    'n': (6, 1., -1., None), 'n2': (3, 1., -1., None), 'range': (None, 0.01, 2., None), 'range2': (0, 0.003, 0.7, 'linear'), 'lin': (None, 1., -1., 'lin'), 'poly': (None, 1., -1., 'poly'),
    'both': (5, 0.02, 1.5, None), 'all': (4, 0.02, 3., 'lin'), 'unknown': (4, 1., -1., 'spline'), 'empty': (0, 2., 1., 'lin'), 'nothing': (None, 1., -1., None), 'nothing2': (0, 3., 2., 'polynomial'),
    'relative': (None, -1., -1., None), 'case': (4, 0.03, 2., 'LIN'), 'case2': (0, 1., -1., 'Poly'), 'void': (0, 1., -1., ''),
}
SMALL = ('n', 'range', 'lin', 'nothing')


def ops_of(name, actions):
    out = []
    for a in actions:
        n, lo, hi, i = ACTIONS[a]
        if name.endswith('pk_lin') or name == 'all_pklin':
            if a not in ('lin', 'poly', 'unknown', 'nothing'):
                continue
        if (name in hist.MU or name == 'all_mu') and a in ('range', 'range2', 'both', 'relative'):
            continue
        if name in hist.MC and a in ('n', 'n2', 'both', 'unknown'):
            continue
        out.append(('P', name, n, lo, hi, i))
    return out


NAMES = hist.LEAVES + list(hist.GROUPS)


def alphabet(actions):
    out = [op for name in NAMES for op in ops_of(name, actions)]
    out += [('U', name, v) for name in hist.PKL + ['all'] for v in ((0.2, 1.7, 0.) if len(actions) > 4 else (1.7, 0.))]
    return out + [('clear',)]


def footprint(op):
    if op[0] == 'clear':
        return set(hist.LEAVES) | set('cut:' + p for p in hist.PKL)
    if op[0] == 'U':
        return set('cut:' + p for p in (hist.PKL if op[1] == 'all' else [op[1]]))
    return set(hist.members(op[1]))


def probe(m, canon, settings, calcs, seq):
    """Runs the calculations in this state; canonical values come from forks made before (see `want`)."""
    viol = []
    for calc, ref in calcs:
        out = scen.run(m, calc, scen.table(*TAB), K, setup=None)
        r = scen.close(out, ref, rtol=1e-10)
        if r:
            viol.append('after %s: %s: %s' % (' ; '.join(show(op) for op in seq), calc, r))
    return viol


def show(op):
    if op[0] == 'P':
        return 'set_precision(%s, n=%s, min=%s, max=%s, interpol=%s)' % op[1:]
    if op[0] == 'U':
        return 'set_running_uvcutoff(%s, %s)' % op[1:]
    return 'clear()'


# quadratures whose default number of nodes makes a calculation long: probed at these defaults after single settings only
COSTLY = {'A2': ['A_2loop_I_q', 'gamma2d_1loop_q', 'gamma2t_1loop_q', 'gamma1_1loop_q'], 'S2': ['gamma2d_1loop_q', 'gamma2t_1loop_q', 'gamma2_tree_q', 'gamma1_2loop_q'], 'bias': ['bias_1loop_q'], 'A1': ['A_1loop_q'], 'B2': ['gamma2_tree_q']}


def costly(calc, s):
    return any(s.d.get(leaf, (None,))[0] is None for leaf in COSTLY.get(scen.kind(calc), []))


class State(object):

    def __init__(self, m):
        self.m, self.canon = m, hist.Canon(m)


def check(st, item):
    """start: 'unused' or 'tiny'; prefix of operations; alphabet of the last one; calculations probed."""
    start, prefix, last, calcs, frugal = item
    base = hist.Settings()
    m = st.m
    setup = [] if start == 'unused' else hist.tiny_ops()

    def settings(seq):
        s = base.copy()
        for op in setup + list(seq):
            s.apply(op)
        return s

    seqs = [list(prefix) + ([op] if op else []) for op in last]
    want = []
    for seq in seqs:
        s = settings(seq)
        want.append([(c, st.canon.get(c, s, TAB, K)) for c in calcs if not (frugal and costly(c, s))])

    def node():
        o = m.PyRegPT()
        o.set_verbosity('quiet')
        viol = []
        for op in setup + list(prefix):
            hist.apply_real(o, op)
        for seq, w in zip(seqs, want):
            def leaf():
                o = m.PyRegPT()
                for op in seq[len(prefix):]:
                    hist.apply_real(o, op)
                return probe(m, st.canon, None, w, seq)
            kind, out = hist.child(leaf)
            if kind == 'ok':
                viol += out
            else:
                viol.append('after %s: %s %s' % (' ; '.join(show(op) for op in seq), kind, out))
        return viol[:5]
    kind, out = hist.child(node)
    viol = out if kind == 'ok' else ['%s %s' % (kind, out)]
    return {'viol': viol, 'n': {'states': len(seqs), 'transitions': len(seqs) * len(calcs)}, 'samples': [{'start': start, 'prefix': [show(o) for o in prefix], 'last': len(seqs), 'calculations': calcs}]}


def affected(leaf, what, calc):
    """Columns that a setting is about, from what the terms are made of.  'monte-carlo': the integrand at the points of the integrator."""
    kind, pair = scen.kind(calc), scen.CALCS[calc][1]
    if leaf not in hist.USES[kind]:
        return set()
    if leaf.startswith('cut:') and (leaf[4:], kind) not in (('bispectrum_1loop', 'A2'), ('spectrum_1loop', 'B2')):
        return {'sigmad2'}
    if leaf.endswith('pk_lin') and (leaf, kind) not in (('bispectrum_1loop_pk_lin', 'A2'), ('spectrum_1loop_pk_lin', 'B2')):
        return {'pk_lin'}
    if leaf == 'spectrum_1loop_pk_lin' or (what == 'lin' and leaf in ('A_2loop_I_q', 'A_2loop_II_III_q', 'B_q', 'A_2loop_I_mu')):
        return set()            # no spectrum is tabulated there
    if kind[0] == 'S':
        if leaf in ('gamma2d_1loop_q', 'gamma2t_1loop_q'):
            field = 'delta' if 'd_' in leaf else 'theta'
            return {'pk_gamma2_tree_1loop', 'pk_gamma2_1loop_1loop'} if field in pair.values() else set()
        one, two = {'gamma1a_1loop', 'gamma1b_1loop'}, {'gamma1a_2loop', 'gamma1b_2loop'}
        cols = {'gamma1_1loop_q': one | (two if kind == 'S2' else set()), 'gamma1_2loop_q': two, 'gamma3_tree_q': {'pk_gamma3_tree', 'monte-carlo'}}
        return cols.get(leaf, {'pk_gamma2_tree_tree'} | ({'pk_gamma2_tree_1loop', 'pk_gamma2_1loop_1loop'} if kind == 'S2' else set()))
    if kind == 'bias':
        return {'pk_b2d', 'pk_bs2d', 'pk_b2t', 'pk_bs2t', 'pk_b22', 'pk_b2s2', 'pk_bs22'} | ({'sigma3sq'} if (leaf, what) != ('bias_1loop_mu', 'lin') else set())
    return {'pk'} | ({'monte-carlo'} if leaf in ('A_2loop_II_III_q', 'cut:bispectrum_1loop', 'bispectrum_1loop_pk_lin') else set())


def measure(m, calc, ops):
    """A calculation in an unused library after these settings: its columns and the integrand at the points of the integrator."""
    def f():
        L, o = h.lib(m), scen.new(m, calc)
        o.set_verbosity('quiet')
        for q in ops:
            hist.apply_real(o, q)
        L.cubaenv_log(1)
        out = scen.run(m, calc, scen.table(*TAB), K, setup=None)
        buf = np.zeros(16 * 4096)
        n = L.cubaenv_get_log(buf.ctypes.data_as(ctypes.c_void_p), 4096)
        out['monte-carlo'] = buf[:n * (5 if calc == 'A2' else 1)]
        return out
    kind, out = hist.child(f)
    if kind != 'ok':
        raise RuntimeError('%s after %s: %s' % (calc, [show(q) for q in ops], out))
    return out


def check_effect(st, item):
    """Every part of every setting has an effect on every column it is about, in every calculation, and on no other column."""
    leaf, what = item
    m, viol, n = st.m, [], 0
    op = {'n': ('P', leaf, 9, 1., -1., None), 'range': ('P', leaf, None, 0.01, 2., None), 'lin': ('P', leaf, None, 1., -1., 'lin'), 'cut': ('U', leaf[4:], 1.7)}[what]
    for calc in scen.CALCS:
        before, after = measure(m, calc, hist.tiny_ops()), measure(m, calc, hist.tiny_ops() + [op])
        want = affected(leaf, what, calc)
        n += 1
        for key in before:
            if key == 'k':
                continue
            changed = scen.off(after[key], before[key], 1e-9 * np.abs(before[key])) is not None
            if changed and key not in want:
                viol.append('%s changes %s of %s' % (show(op), key, calc))
            elif key in want and not changed:
                viol.append('%s has no effect on %s of %s' % (show(op), key, calc))
        s = hist.Settings()
        for o in hist.tiny_ops() + [op]:
            s.apply(o)
        r = scen.close(after, st.canon.get(calc, s, TAB, K), rtol=1e-10)
        if r:
            viol.append('%s: %s: %s' % (show(op), calc, r))
    return {'viol': viol[:4], 'n': {'states': n, 'transitions': 3 * n}}


def check_unnamed(m, item):
    """A call that names no calculation sets the quadratures in wavenumber of all, a cutoff without name that of all."""
    calc, kw = item
    res = []
    for how in range(2):
        scen.fresh(m)
        o = scen.new(m, calc)
        scen.tiny(o)
        if 'uvcutoff' in kw:
            o.set_running_uvcutoff(**dict(kw, calculation='all')) if how else o.set_running_uvcutoff(**kw)
        else:
            o.set_precision('all_q', **kw) if how else o.set_precision(**kw)
        o.set_pk_lin(*scen.table('cdm', 40))
        o.set_terms([0.003, 0.05, 0.21, 1.3])
        o.run_terms(nthreads=1, **scen.CALCS[calc][1])
        res.append(scen.outputs(o))
    r = scen.same(*res)
    return {'viol': ['%s after a setting %s that names nothing: %s' % (calc, kw, r)] if r else [], 'n': {'transitions': 2}}


def run(ctx):
    every = alphabet(list(ACTIONS))
    small = alphabet(SMALL)
    items = []
    calcs = list(scen.CALCS)
    main = scen.MAIN
    cheap = [c for c in main if c != 'A2']
    # depth 1 from a library that was never configured and from one where everything is set
    for op in every:
        items.append(('tiny', [], [op], main if ctx.quick else calcs, False))
        light = op[0] != 'P' or not (footprint(op) & set(hist.USES['A2']))
        items.append(('unused', [], [op], cheap if light or ctx.quick else main, False))
    items.append(('unused', [], [None], calcs, False))
    # depth 2: all pairs that share a setting; all pairs of the smaller alphabet
    for a in every:
        fa = footprint(a)
        last = [b for b in every if footprint(b) & fa]
        if ctx.quick:
            last = [b for b in last if b in small]
        items += [('tiny', [a], last[i:i + 25], main, True) for i in range(0, len(last), 25)]
    one = small if not ctx.quick else [op for op in small if op[0] != 'P' or op[2] or op[5]]
    for a in one:
        fa = footprint(a)
        last = [b for b in one if not footprint(b) & fa]
        items += [('tiny', [a], last[i:i + 25], main, True) for i in range(0, len(last), 25)]
    if not ctx.quick:
        # depth 3 within each setting and the groups it belongs to
        for leaf in hist.LEAVES + ['cut:' + p for p in hist.PKL]:
            mine = [op for op in small if leaf in footprint(op)]
            probes = [c for c in main if leaf in hist.USES[c if c[0] != 'S' else c[:2]]][:2] + ['bias']
            for a, b in itertools.product(mine, repeat=2):
                items.append(('tiny', [a, b], mine, probes, True))
    ctx.collect(items, ctx.pmap(check, items, setup=State, timeout=600))
    items = [(leaf, w) for leaf in hist.Q for w in ('n', 'range', 'lin')] + [(leaf, w) for leaf in hist.MC for w in ('range', 'lin')] + [(leaf, w) for leaf in hist.MU for w in ('n', 'lin')]
    items += [(p + '_pk_lin', 'lin') for p in hist.PKL] + [('cut:' + p, 'cut') for p in hist.PKL]
    ctx.collect(items, ctx.pmap(check_effect, items, setup=State, timeout=600))
    items = [(c, kw) for c in scen.CALCS for kw in ({'n': 9}, {'min': 0.01, 'max': 2.}, {'interpol': 'lin'}, {'n': 11, 'min': 0.02, 'max': 1., 'interpol': 'lin'}, {'n': 5, 'min': 1., 'max': -1.}, {'uvcutoff': 0.3})]
    ctx.collect(items, ctx.pmap(check_unnamed, items, timeout=300), 'settings without name')
    ctx.cov['traces_validated_against_impl'] = ctx.counts.get('transitions', 0)
    ctx.cov['exhaustive'] = True
    ctx.cov['rule'] = 'state = settings after a sequence of calls of an alphabet of %d settings; all sequences of one, all pairs sharing a setting%s, all pairs of the smaller alphabet of %d%s; each followed by calculations' % (len(every), ' whose second is in the smaller alphabet' if ctx.quick else '', len(one), '' if ctx.quick else ', all triples sharing a setting')
