"""Objects: every interleaving of operations on several objects up to a depth, every array of every object compared after each operation with a model that only
knows which arrays each object has."""
import gc, itertools
import numpy as np
import scen, hist

TABS = {1: ('cdm', 50), 2: ('narrow', 40)}
KS = {1: (0.23, 0.02, 0.7), 2: (0.05, 0.4)}
BASIC = ['pk1', 'pk2', 'terms1', 'terms2', 'run']
ARRAYS = ['newk', 'kinplace', 'newcol', 'pkinplace', 'newpk', 'newtabk', 'tabhead', 'func']
DERIVE = ['deep', 'copy', 'slice', 'head', 'mask', 'share', 'drop']
ALL = [(s, op) for s in 'XY' for op in BASIC + ARRAYS + DERIVE] + [('Z', op) for op in ('run', 'pk1', 'terms2', 'kinplace')]
SMALL = [(s, op) for s in 'XY' for op in ['pk2', 'terms2', 'run', 'kinplace', 'newcol', 'newpk', 'newtabk', 'deep', 'slice', 'head']] + [('Z', 'run')]


class Ref(object):
    """What a calculation gives in an unused library with tiny quadratures, from table and wavenumbers by value."""

    def __init__(self, m):
        self.m, self.memo = m, {}

    def get(self, calc, tk, tp, k):
        key = (calc, tk.tobytes(), tp.tobytes(), k.tobytes())
        if key not in self.memo:
            kind, out = hist.child(lambda: scen.run(self.m, calc, (tk.copy(), tp.copy()), k.copy()))
            if kind != 'ok':
                raise RuntimeError('reference: %s' % (out,))
            self.memo[key] = out
        return self.memo[key]

    def find(self, tk, tp):
        key = ('find', tk.tobytes(), tp.tobytes())
        if key not in self.memo:
            def f():
                o = self.m.PyRegPT()
                o.set_pk_lin(tk.copy(), tp.copy())
                return np.array(o.find_pk_lin([0.01, 0.3, 2.2])), np.array(o.calc_running_sigmad2([0.01, 0.3, 2.2]))
            kind, out = hist.child(f)
            if kind != 'ok':
                raise RuntimeError('reference: %s' % (out,))
            self.memo[key] = out
        return self.memo[key]


class Model(object):
    """An object as the statement sees it: columns (arrays, shared or not exactly as numpy shares them) and a table.  None: not determined by the statement."""

    def __init__(self, calc):
        self.calc, self.cols, self.tab = calc, None, None
        self.kin = object()     # common to an object and its shallow copies: whether new columns of one are seen by the other is not determined

    def like(self):
        return Model(self.calc)


def nbase(a):
    while a.base is not None:
        a = a.base
    return a


class World(object):

    def __init__(self, m, ref, calcs):
        self.m, self.ref = m, ref
        self.o, self.mod = {}, {}
        p = m.PyRegPT()
        p.set_verbosity('quiet')
        scen.tiny(p)
        for s, c in zip('XY', calcs):
            self.o[s], self.mod[s] = scen.new(m, c), Model(c)
        for s, i in zip('XY', (1, 2)):
            self.step((s, 'pk%d' % i))
        for s in 'XY':
            self.step((s, 'terms1'))

    # -- operations: on the real object and on the model --------------------------------------------------------------------------------------------
    def step(self, op):
        """Returns a discrepancy or None; operations that do not apply are skipped."""
        s, name = op
        if s not in self.o:
            return None
        o, mod = self.o[s], self.mod[s]
        if name.startswith('pk') and name[2:] in ('1', '2'):
            t = scen.table(*TABS[int(name[2:])])
            o.set_pk_lin(*t)
            mod.tab = [t[0].copy(), t[1].copy()]
        elif name.startswith('terms'):
            k = np.array(KS[int(name[5:])])
            others = [z for z in self.mod if z != s and self.mod[z].kin is mod.kin]
            o.set_terms(k)
            mod.cols = {f: np.zeros((k.size,) + tuple(o.SHAPE.get(f, ()))) for f in o.FIELDS}
            mod.cols['k'][:] = k
            for z in others:
                self.mod[z].cols = None         # a shallow copy: whether the new arrays are shared too is not determined
        elif mod.cols is None and name not in ('func', 'pkinplace', 'newpk', 'newtabk', 'tabhead', 'drop', 'share'):
            return None
        elif name == 'run':
            if mod.tab is None:
                return None
            if s == 'Z' and not hasattr(o, 'spectrum_lin'):
                return None
            kw = scen.CALCS[mod.calc][1]
            o.run_terms(nthreads=1, **kw)
            want = self.ref.get(mod.calc, mod.tab[0], mod.tab[1], np.ascontiguousarray(mod.cols['k']))
            for f in o.FIELDS:
                if f == 'k':
                    continue
                c = mod.cols[f]
                if not c.flags.c_contiguous:    # the library needs arrays without gaps: the object gets new ones; parents that share the old ones are left out
                    for z in self.mod:
                        if z != s and self.mod[z].cols is not None and any(nbase(a) is nbase(c) for a in self.mod[z].cols.values()):
                            self.mod[z].cols = None
                    c = mod.cols[f] = np.zeros(c.shape)
                c[...] = want[f].reshape(c.shape)
        elif name == 'newk':
            k = np.array(mod.cols['k'])[::-1] * 1.5
            self._replace(s, 'k', k.copy(), k.copy())
        elif name == 'kinplace':
            o['k'][0] *= 1.25
            mod.cols['k'][0] *= 1.25
        elif name == 'newcol':
            f = o.FIELDS[-1]
            shape = mod.cols[f].shape
            new = np.full(shape, 7.5)
            self._replace(s, f, new.copy(), new.copy())
        elif name == 'pkinplace':
            if not hasattr(o, 'spectrum_lin'):
                return None
            o.spectrum_lin['pk'][...] *= 2.
            mod.tab[1][...] *= 2.
        elif name == 'newpk':
            if not hasattr(o, 'spectrum_lin'):
                return None
            new = np.array(mod.tab[1]) * 3.
            o.spectrum_lin['pk'] = new.copy()
            # the container of the table is shared by copies and by share: replace its column for all of them
            old = mod.tab
            old[1] = new
        elif name == 'newtabk':
            if not hasattr(o, 'spectrum_lin'):
                return None
            mod.tab[0] = np.array(mod.tab[0]) * 1.1
            o.spectrum_lin['k'] = mod.tab[0].copy()
        elif name == 'tabhead':
            if not hasattr(o, 'spectrum_lin'):
                return None
            o.spectrum_lin = o.spectrum_lin[:30]
            mod.tab = [mod.tab[0][:30], mod.tab[1][:30]]
        elif name == 'func':
            if mod.tab is None or not hasattr(o, 'spectrum_lin'):
                return None
            want = self.ref.find(np.ascontiguousarray(mod.tab[0]), np.ascontiguousarray(mod.tab[1]))
            for w, g in zip(want, (o.find_pk_lin([0.01, 0.3, 2.2]), o.calc_running_sigmad2([0.01, 0.3, 2.2]))):
                r = scen.off(g, w, 1e-11 * np.abs(w))
                if r:
                    return 'interpolation on the table of %s: %s' % (s, r)
        elif name == 'share':
            other = 'Y' if s == 'X' else 'X'
            if other not in self.o or self.mod[other].tab is None:
                return None
            o.set_spectrum_lin(self.o[other].spectrum_lin)
            mod.tab = self.mod[other].tab
        elif name == 'drop':
            self.o[s] = o = None
            gc.collect()
            junk = [np.full(n, 1e30) for n in (2, 3, 10, 15, 18, 27, 40, 50) for _ in range(4)]
            self.o[s] = scen.new(self.m, mod.calc)
            self.mod[s] = Model(mod.calc)
            t = scen.table(*TABS[1])
            self.o[s].set_pk_lin(*t)
            self.mod[s].tab = [t[0].copy(), t[1].copy()]
            del junk
        elif name == 'deep':
            self.o['Z'], z = o.deepcopy(), mod.like()
            z.cols = {f: mod.cols[f].copy() for f in mod.cols}
            z.tab = None if mod.tab is None else [a.copy() for a in mod.tab]
            self.mod['Z'] = z
        elif name == 'copy':
            self.o['Z'], z = o.copy(), mod.like()
            z.cols, z.tab, z.kin = mod.cols, mod.tab, mod.kin
            self.mod['Z'] = z
        elif name in ('slice', 'head', 'mask'):
            n = len(mod.cols['k'])
            sel = slice(1, None) if name == 'slice' else slice(None, -1) if name == 'head' else np.arange(n) != 1
            self.o['Z'], z = o[sel], mod.like()
            z.cols = {f: mod.cols[f][sel] for f in mod.cols}
            t = scen.table(*TABS[2])
            self.o['Z'].set_pk_lin(*t)
            z.tab = [t[0].copy(), t[1].copy()]
            self.mod['Z'] = z
        return None

    def _replace(self, s, f, real, model):
        mod = self.mod[s]
        others = [z for z in self.mod if z != s and self.mod[z].kin is mod.kin]
        self.o[s][f] = real
        cols = dict(mod.cols)
        cols[f] = model
        mod.cols = cols
        for z in others:
            self.mod[z].cols = None

    def compare(self):
        for s in self.o:
            o, mod = self.o[s], self.mod[s]
            if mod.cols is not None:
                for f in o.FIELDS:
                    w = mod.cols[f]
                    r = scen.off(np.asarray(o[f]).reshape(-1), w.reshape(-1), 1e-10 * np.abs(w).reshape(-1)) if np.size(o[f]) == w.size else 'size %d, expected %d' % (np.size(o[f]), w.size)
                    if r:
                        return 'column %s of %s (%s): %s' % (f, s, mod.calc, r)
            if mod.tab is not None and hasattr(o, 'spectrum_lin'):
                for f, w in zip(('k', 'pk'), mod.tab):
                    r = scen.off(o.spectrum_lin[f], w, 1e-14 * np.abs(w))
                    if r:
                        return 'table of %s: %s' % (s, r)
        return None

    def go(self, op):
        return self.step(op) or self.compare()

    def finish(self):
        for op in (('X', 'run'), ('Z', 'run'), ('Y', 'run'), ('X', 'func'), ('X', 'run')):
            r = self.go(op)
            if r:
                return 'then %s: %s' % (op, r)
        return None


class State(object):

    def __init__(self, m):
        self.m, self.ref = m, Ref(m)


def check(st, item):
    calcs, prefix, last = item
    st.m.PyRegPT().set_verbosity('quiet')

    def node():
        # references made below this fork are lost to the others: few, and cheap
        w = World(st.m, st.refs, calcs)
        for i, op in enumerate(prefix):
            r = w.go(op)
            if r:
                return ['%s %s: %s' % (calcs, prefix[:i + 1], r)]
        viol = []
        for op in last:
            def leaf():
                r = w.go(op) or w.finish()
                return None if r is None else '%s %s: %s' % (calcs, list(prefix) + [op], r)
            kind, out = hist.child(leaf)
            if kind != 'ok':
                viol.append('%s %s: %s %s' % (calcs, list(prefix) + [op], kind, out))
            elif out:
                viol.append(out)
            if len(viol) >= 3:
                break
        return viol
    st.refs = Server(st.m, st.ref)
    kind, out = hist.child(node)
    viol = out if kind == 'ok' else ['%s %s: %s %s' % (calcs, prefix, kind, out)]
    return {'viol': viol, 'n': {'states': len(last), 'transitions': len(last) * (len(prefix) + 6)}, 'samples': [{'objects': calcs, 'prefix': prefix, 'last': len(last)}]}


class Server(object):
    """References for a forked process: from the memo inherited from the worker, else from a process that never ran anything (started before, kept alive by a pipe)."""
    proc = None

    def __init__(self, m, ref):
        self.memo = ref.memo
        if Server.proc is None:
            import os, pickle, struct
            r1, w1 = os.pipe()
            r2, w2 = os.pipe()
            lk, lw = os.pipe()
            os.write(lw, b'x')
            if os.fork() == 0:
                os.close(w1)
                os.close(r2)
                own = Ref(m)
                try:
                    while True:
                        h = b''
                        while len(h) < 8:
                            b = os.read(r1, 8 - len(h))
                            if not b:
                                os._exit(0)
                            h += b
                        n, buf = struct.unpack('Q', h)[0], b''
                        while len(buf) < n:
                            buf += os.read(r1, n - len(buf))
                        what, args = pickle.loads(buf)
                        out = pickle.dumps(getattr(own, what)(*args), protocol=4)
                        out = struct.pack('Q', len(out)) + out
                        while out:
                            out = out[os.write(w2, out):]
                finally:
                    os._exit(1)
            os.close(r1)
            os.close(w2)
            Server.proc = (w1, r2)

    def _ask(self, what, args):
        import os, pickle, struct
        key = (what,) + tuple(a if isinstance(a, str) else a.tobytes() for a in args)
        if key not in self.memo:
            w, r = Server.proc
            b = pickle.dumps((what, args), protocol=4)
            b = struct.pack('Q', len(b)) + b
            while b:
                b = b[os.write(w, b):]
            def read(n):
                buf = b''
                while len(buf) < n:
                    c = os.read(r, n - len(buf))
                    if not c:
                        raise RuntimeError('reference process ended')
                    buf += c
                return buf
            self.memo[key] = pickle.loads(read(struct.unpack('Q', read(8))[0]))
        return self.memo[key]

    def get(self, *args):
        return self._ask('get', args)

    def find(self, *args):
        return self._ask('find', args)


def run(ctx):
    items = []
    pairs = list(itertools.product(scen.MAIN, repeat=2))
    close = [('S1dt', 'S1dt'), ('A1', 'A2'), ('B1', 'B2'), ('S1tt', 'B2'), ('S2dt', 'S1dt'), ('bias', 'bias'), ('A2', 'A2'), ('S2dt', 'S2tt'), ('B2', 'B1'), ('A1', 'A1')]
    for p in pairs:
        alpha = ALL if not ctx.quick else SMALL
        items += [(p, [a], ALL) for a in alpha]
    for p in (close if not ctx.quick else close[1:3]):
        alpha = ALL if not ctx.quick else SMALL
        items += [(p, [a, b], alpha) for a in alpha for b in alpha]
    if not ctx.quick:
        for p in close[:5]:
            items += [(p, [a, b, c], SMALL) for a in SMALL for b in SMALL for c in SMALL]
    ctx.collect(items, ctx.pmap(check, items, setup=State, timeout=300))
    ctx.cov['traces_validated_against_impl'] = ctx.counts.get('states', 0)
    ctx.cov['exhaustive'] = True
    ctx.cov['rule'] = ('state = one interleaving of operations on two objects and one derived from them, followed by calculations of all; all of two operations for all pairs of calculations, '
                       'all of three%s for pairs that share something' % ('' if ctx.quick else ' and four'))
    ctx.assumptions.append('what a shallow copy shares after set_terms or a replaced column, and which arrays are filled when an object has strided ones, is left undetermined')
