"""Verbosity: every sequence of changes of verbosity, object creations and calculations up to a depth; what is printed and written is captured."""
import ctypes, itertools, os, shutil, sys, tempfile
import numpy as np
import scen

LIBC = ctypes.CDLL(None)
TABS = {'cdm': scen.table('cdm', 30), 'narrow': scen.table('narrow', 9)}
K = [0.4, 0.0123, 0.1]
MODES = {'quiet': 'quiet', 'info': 'info', 'debug': 'debug'}


class Capture(object):
    """Bytes written on standard output and error, and files created in the current directory (a scratch one)."""

    def __enter__(self):
        sys.stdout.flush(), sys.stderr.flush(), LIBC.fflush(None)
        self.dir = tempfile.mkdtemp(prefix='verif_c23_')
        self.out = tempfile.TemporaryFile()
        self.cwd = os.getcwd()
        os.chdir(self.dir)
        self.saved = os.dup(1), os.dup(2)
        os.dup2(self.out.fileno(), 1)
        os.dup2(self.out.fileno(), 2)
        return self

    def read(self):
        sys.stdout.flush(), sys.stderr.flush(), LIBC.fflush(None)
        n = os.lseek(self.out.fileno(), 0, os.SEEK_CUR)
        self.out.seek(0)
        data = self.out.read()
        os.ftruncate(self.out.fileno(), 0)
        os.lseek(self.out.fileno(), 0, os.SEEK_SET)
        files = tuple(sorted(os.listdir(self.dir)))
        for f in files:
            os.unlink(os.path.join(self.dir, f))
        return data, files

    def __exit__(self, *a):
        self.read()
        os.dup2(self.saved[0], 1)
        os.dup2(self.saved[1], 2)
        os.close(self.saved[0]), os.close(self.saved[1])
        self.out.close()
        os.chdir(self.cwd)
        shutil.rmtree(self.dir, ignore_errors=True)


def setup(m, calc, tab='cdm'):
    o = scen.new(m, calc)
    scen.tiny(o)
    o.set_pk_lin(*TABS[tab])
    o.set_terms(K)
    return o


def go(o, calc, nthreads=1):
    o.run_terms(nthreads=nthreads, **scen.CALCS[calc][1])
    return scen.outputs(o)


def check_calc(m, item):
    """Every calculation under every verbosity."""
    calc, nthreads, before, during, tab = item
    viol = []
    scen.fresh(m)
    ref = go(setup(m, calc, tab), calc)
    with Capture() as cap:
        p = m.PyRegPT()
        p.set_verbosity(before)
        o = setup(m, calc, tab)
        a, _ = cap.read()
        o.set_verbosity(during)
        cap.read()
        out = go(o, calc, nthreads)
        b, files = cap.read()
        r = scen.close(out, ref, rtol=1e-12)
        if r:
            viol.append('%s set up in %s and run in %s with %d threads: %s' % (calc, before, during, nthreads, r))
        if before == 'quiet' and a:
            viol.append('%s: setting it up prints %r in a quiet library' % (calc, a[:100]))
        if during == 'quiet' and b:
            viol.append('%s: running it prints %r in a quiet library' % (calc, b[:100]))
        if during != 'debug' and files:
            viol.append('%s: running it in %s creates %s' % (calc, during, files))
        if during == 'info' and not b:
            viol.append('%s: running it in info prints nothing' % calc)
        o.set_terms(K[:2])
        q = o.find_pk_lin(K)
        s = o.calc_running_sigmad2(K)
        b, _ = cap.read()
        if during == 'quiet' and b:
            viol.append('%s: setting the wavenumbers prints %r in a quiet library' % (calc, b[:100]))
    return {'viol': viol, 'n': {'states': 1, 'transitions': 1}}


def signature(cap, m, o, ref):
    """What a 1-loop spectrum prints and writes: tells the verbosity of the library."""
    cap.read()
    out = go(o, 'S1dt')
    data, files = cap.read()
    return (bool(data), files), scen.close(out, ref, rtol=1e-12)


OPS = ['quiet', 'info', 'debug', 'bogus', '', 'QUIET', 'infos', 'clear', 'new', 'new B2', 'new base', 'copy', 'deepcopy', 'slice', 'run S1', 'run B2', 'run A2', 'set_terms', 'set_pk_lin', 'nowiggle', 'precision']


def check_seq(m, item):
    prefix, depth = item
    scen.fresh(m)
    viol, n = [], 0
    probe = setup(m, 'S1dt')
    ref = go(probe, 'S1dt')
    cache = {c: setup(m, c) for c in ('S1dd', 'B2', 'A2')}
    with Capture() as cap:
        canon = {}
        for mode in MODES:
            probe.set_verbosity(mode)
            canon[mode], r = signature(cap, m, probe, ref)
        if canon['quiet'] != (False, ()) or canon['info'][0] is False:
            viol.append('verbosity does not reach the library: %s' % canon)
        if len(set(canon.values())) < 3:
            viol.append('verbosities are not distinguished: %s' % canon)

        def apply(op, objs):
            o = objs[-1]
            if op in MODES or op in ('bogus', '', 'QUIET', 'infos'):
                o.set_verbosity(op)
            elif op == 'clear':
                o.clear()
                scen.tiny(o)
            elif op == 'new':
                objs.append(m.Spectrum1Loop())
            elif op == 'new B2':
                objs.append(m.B2Loop())
            elif op == 'new base':
                objs.append(m.PyRegPT())
            elif op == 'copy':
                objs.append(o.copy())
            elif op == 'deepcopy':
                objs.append(o.deepcopy())
            elif op == 'slice':
                cache['S1dd'][1:]
            elif op == 'run S1':
                go(cache['S1dd'], 'S1dd')
            elif op == 'run B2':
                go(cache['B2'], 'B2')
            elif op == 'run A2':
                go(cache['A2'], 'A2')
            elif op == 'set_terms':
                cache['S1dd'].set_terms(K)
            elif op == 'set_pk_lin':
                cache['B2'].set_pk_lin(*TABS['cdm'])
            elif op == 'nowiggle':
                s = m.SpectrumNoWiggle()
                s.set_terms(K)
                s.run_terms(A=1.)
            elif op == 'precision':
                o.set_precision('gamma1_1loop_q', n=scen.TINY['gamma1_1loop_q'])
                o.set_running_uvcutoff('spectrum_1loop', uvcutoff=0.5)

        def rec(seq):
            nonlocal n
            probe.set_verbosity('quiet')
            mode = 'quiet'
            objs = [m.PyRegPT()]
            for op in seq:
                cap.read()
                apply(op, objs)
                if op in MODES:
                    mode = op
                if op == 'clear':
                    mode = 'info'
                data, files = cap.read()
                if mode == 'quiet' and (data or files):
                    viol.append('%s: %s prints %r, creates %s in a quiet library' % (', '.join(seq), op, data[:80], files))
            n += 1
            got, r = signature(cap, m, probe, ref)
            if got != canon[mode]:
                viol.append('%s: the library behaves as %s, not as %s' % (', '.join(repr(s) for s in seq), [k for k in canon if canon[k] == got] or got, mode))
            if r:
                viol.append('%s: %s' % (', '.join(seq), r))
            if len(seq) < depth and len(viol) < 5:
                for op in OPS:
                    rec(seq + [op])
        rec(list(prefix))
    return {'viol': viol[:5], 'n': {'states': n, 'transitions': n * len(prefix)}, 'samples': [{'prefix': prefix, 'depth': depth}]}


def run(ctx):
    items = [(c, nt, b, d, t) for c in scen.CALCS for nt in (1, 2) for b in MODES for d in MODES for t in TABS]
    ctx.collect(items, ctx.pmap(check_calc, items))
    items = [([a, b], 3 if ctx.quick else 4) for a in OPS for b in OPS] + [([a], 1) for a in OPS]
    ctx.collect(items, ctx.pmap(check_seq, items, timeout=300))
    ctx.cov['traces_validated_against_impl'] = ctx.counts.get('transitions', 0)
    ctx.cov['exhaustive'] = True
    ctx.cov['rule'] = 'every calculation under every pair of verbosities; every sequence of %d operations up to depth 3 (4 in the thorough run)' % len(OPS)
