"""Histories of calls on the real library, explored as a tree of processes: a node of the tree is a process in the state the history left it in.

The worker itself never configures nor runs anything: it stays a library that was never used.  Every branch is a fork of its parent, so no state has
to be saved, restored or cleaned up, and reference values come from children forked straight from the unused library."""
import os, pickle, sys, traceback
import numpy as np
import scen

Q, MC, MU, PKL = scen.QUADS_Q, scen.QUADS_MC, scen.QUADS_MU, scen.PKLIN
GROUPS = {
    'spectrum_1loop_q': ['gamma1_1loop_q', 'gamma2_tree_q'],
    'spectrum_2loop_q': ['gamma1_1loop_q', 'gamma1_2loop_q', 'gamma2_tree_q', 'gamma2d_1loop_q', 'gamma2t_1loop_q', 'gamma3_tree_q'],
    'gamma2_1loop_q': ['gamma2d_1loop_q', 'gamma2t_1loop_q'], 'A_2loop_q': ['A_2loop_I_q', 'A_2loop_II_III_q'],
    'all_q': Q + MC, 'all_mu': MU, 'all': Q + MC + MU, 'all_pklin': [p + '_pk_lin' for p in PKL],
}
LEAVES = Q + MC + MU + [p + '_pk_lin' for p in PKL]
USES = {'S1': ['gamma1_1loop_q', 'gamma2_tree_q', 'gamma2_tree_mu'],
        'S2': ['gamma1_1loop_q', 'gamma1_2loop_q', 'gamma2_tree_q', 'gamma2_tree_mu', 'gamma2d_1loop_q', 'gamma2t_1loop_q', 'gamma3_tree_q'],
        'bias': ['bias_1loop_q', 'bias_1loop_mu'], 'A1': ['A_1loop_q', 'A_1loop_mu'],
        'A2': ['A_2loop_I_q', 'A_2loop_I_mu', 'A_2loop_II_III_q', 'gamma1_1loop_q', 'gamma2d_1loop_q', 'gamma2t_1loop_q'],
        'B1': ['B_q', 'B_mu'], 'B2': ['B_q', 'B_mu', 'gamma1_1loop_q', 'gamma2_tree_q', 'gamma2_tree_mu']}
NAMES = {'S1': ['spectrum_1loop'], 'S2': ['spectrum_2loop'], 'bias': ['bias_1loop'], 'A1': ['A_1loop'], 'A2': ['A_2loop', 'bispectrum_1loop'], 'B1': ['B'], 'B2': ['B', 'spectrum_1loop']}
for _c in USES:
    USES[_c] = USES[_c] + [p + '_pk_lin' for p in NAMES[_c]] + ['cut:' + p for p in NAMES[_c]]


def members(name):
    return GROUPS.get(name, [name])


class Settings(object):
    """What the statement says the settings are after a sequence of calls.  None: the default."""

    def __init__(self, d=None):
        self.d = dict(d or {})

    def copy(self):
        return Settings(self.d)

    def apply(self, op):
        if op[0] == 'P':
            _, name, n, lo, hi, interp = op
            for leaf in members(name):
                old = self.d.get(leaf, (None, None, None))
                ni = n if n and leaf not in MC and not leaf.endswith('pk_lin') else None
                ri = (lo, hi) if hi >= lo and leaf not in MU and not leaf.endswith('pk_lin') else None
                ii = interp if interp in ('poly', 'lin') else None
                if leaf.endswith('pk_lin'):
                    new = (None, None, ii or old[2])
                elif ni is None and ri is None and ii is None:
                    new = (None, None, None)
                else:
                    new = tuple(a if a is not None else b for a, b in zip((ni, ri, ii), old))
                self.d[leaf] = new
        elif op[0] == 'U':
            for leaf in (PKL if op[1] == 'all' else [op[1]]):
                self.d['cut:' + leaf] = op[2]
        elif op[0] == 'clear':
            self.d = {}
        else:
            raise ValueError(op)

    def relevant(self, calc):
        out = []
        for leaf in USES[scen.kind(calc)]:
            v = self.d.get(leaf)
            if v is not None and v != (None, None, None):
                out.append((leaf, v))
        return tuple(out)


def apply_real(o, op):
    if op[0] == 'P':
        kw = {}
        _, name, n, lo, hi, interp = op
        if n is not None:
            kw['n'] = n
        if not (lo == 1. and hi == -1.):
            kw.update(min=lo, max=hi)
        if interp is not None:
            kw['interpol'] = interp
        o.set_precision(name, **kw)
    elif op[0] == 'U':
        o.set_running_uvcutoff(op[1], uvcutoff=op[2])
    elif op[0] == 'clear':
        o.clear()
        o.set_verbosity('quiet')


def direct(o, relevant):
    """The same settings, one call for each leaf, on a library that was never configured."""
    for leaf, v in relevant:
        if leaf.startswith('cut:'):
            o.set_running_uvcutoff(leaf[4:], uvcutoff=v)
        else:
            kw = {}
            if v[0] is not None:
                kw['n'] = v[0]
            if v[1] is not None:
                kw.update(min=v[1][0], max=v[1][1])
            if v[2] is not None:
                kw['interpol'] = v[2]
            o.set_precision(leaf, **kw)


def child(f, *args):
    """f(*args) in a fork; returns its result, or ('died', status)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ('ok', f(*args))
            except BaseException:
                out = ('exc', traceback.format_exc()[-1500:])
            b = pickle.dumps(out, protocol=4)
            while b:
                b = b[os.write(w, b):]
        finally:
            os._exit(0)
    os.close(w)
    buf = []
    while True:
        b = os.read(r, 1 << 20)
        if not b:
            break
        buf.append(b)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if not buf or st:
        return ('died', st)
    return pickle.loads(b''.join(buf))


class Canon(object):
    """Values of a calculation in an unused library with given settings and linear spectrum, each computed once, in a fork of its own."""

    def __init__(self, m):
        self.m, self.memo = m, {}

    def get(self, calc, settings, tab, k):
        key = (calc, settings.relevant(calc), tab, tuple(k))
        if key not in self.memo:
            def f():
                o = scen.new(self.m, calc)
                return scen.run(self.m, calc, scen.table(*tab), k, obj=o, setup=lambda o: direct(o, key[1]))
            kind, out = child(f)
            if kind != 'ok':
                raise RuntimeError('reference %s: %s' % (key, out))
            self.memo[key] = out
        return self.memo[key]


def tiny_ops(ranges=True):
    """Settings that make everything small."""
    ops = [('P', key, n, *((2e-3, 5.) if ranges and key in Q else (1., -1.)), None) for key, n in scen.TINY.items()]
    return ops
