"""Explorer of thread schedules: stateless depth-first enumeration of the choices of the controlled OpenMP runtime (mc/sched/sched.c), every execution in a
fork of its own from the unused library."""
import ctypes, os, shutil, signal, subprocess, tempfile, time
import numpy as np
import h, hist, scen

TAB = ('cdm', 50)
KS = {1: [0.23], 2: [0.23, 0.02], 3: [0.23, 0.02, 0.7], 5: [0.05, 0.23, 0.02, 0.7, 30.], 0: []}
# time limits (only reached when a change of the code multiplies the schedules; the evidence then says how many items were cut short)
ITEM, DEADLINE = [60.], [0.]
for _n in list(range(6, 70)) + [300]:      # in no order, over the whole table
    KS[_n] = [float(3e-3 * 1.13**((37 * i) % 71)) for i in range(_n)]


_x = np.polynomial.legendre.leggauss(6)[0]      # on nodes of the quadratures (tiny ones): 1/2 of the logarithmic range, and one of 6 nodes over the table
_k = [float(np.sqrt(5e-4 * 10.)), float(np.exp(.5 * np.log(1e-4 * 20.) + .5 * np.log(20. / 1e-4) * _x[3]))]
KS['nodes'] = _k + [0.0043] + [v * (1 + 1e-4) for v in _k + [0.0041]]
WIDE = {'gamma1_1loop_q': 25, 'gamma1_2loop_q': 16, 'gamma2_tree_q': 11, 'gamma2d_1loop_q': 21, 'gamma2t_1loop_q': 21, 'bias_1loop_q': 20, 'A_1loop_q': 25, 'A_2loop_I_q': 9, 'B_q': 17, 'gamma2_tree_mu': 5}


def base(calc):
    """Calculations are named with their settings: 'S1dt+lin', 'S2dt+wide'; 'B0': the B term with the spectra the library assembles itself."""
    return calc.split('+')[0].replace('B0', 'B2')


def settings(o, calc):
    scen.tiny(o)
    for flag in calc.split('+')[1:]:
        if flag == 'wide':
            scen.tiny(o, WIDE)
        if flag == 'lin':
            for key in scen.QUADS_Q:
                o.set_precision(key, interpol='lin')
            o.set_precision('all_pklin', interpol='lin')
        if flag == 'edge':          # ranges far below the wavenumbers, those of the table for the Monte-Carlo integrals, strong damping
            for key in scen.QUADS_Q:
                o.set_precision(key, min=2e-6, max=8.)
            for key in scen.QUADS_MC:
                o.set_precision(key, min=-1., max=-1.)
            o.set_running_uvcutoff('all', uvcutoff=60.)


def launch(o, calc, T):
    if calc.startswith('B0'):
        e, a = np.zeros(1), np.ctypeslib.ndpointer(dtype='f8')
        o.set_terms(np.array(o['k']))       # these arrays and this table are the current ones
        o.set_spectrum_lin(o.spectrum_lin)
        o.regpt.set_spectra_B.argtypes = (ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t, a, a)
        for field in (b'delta', b'theta'):
            o.regpt.set_spectra_B(field, b'theta', 0, e, e)
        o.regpt.run_terms_B(ctypes.c_size_t(T))
    else:
        o.run_terms(nthreads=T, **scen.CALCS[base(calc)][1])


def calculate(m, calc, tab, nk, T):
    o = scen.new(m, base(calc))
    m.PyRegPT().set_verbosity('quiet')
    settings(o, calc)
    o.set_pk_lin(*scen.table(*tab))
    o.set_terms(np.array(KS[nk], dtype='f8'))
    launch(o, calc, T)
    return scen.outputs(o)


class State(object):

    def __init__(self, m):
        self.m, self.L, self.ref = m, h.lib(m), {}
        self.path = h.lib_path(m)

    def reference(self, calc, tab, nk):
        """One thread, unused library."""
        key = (calc, tab, nk)
        if key not in self.ref:
            def f():
                return calculate(self.m, calc, tab, nk, 1)
            kind, out = hist.child(f)
            if kind != 'ok':
                raise RuntimeError('reference %s: %s' % (key, out))
            self.ref[key] = out
        return self.ref[key]


def where(path, pcs):
    """Source position of return addresses in the library (line of the call: one byte before)."""
    if not pcs:
        return {}
    base = None
    for line in open('/proc/self/maps'):
        if line.rstrip().endswith(path):
            base = int(line.split('-')[0], 16)
            break
    if base is None:
        return {}
    try:
        out = subprocess.run(['addr2line', '-s', '-e', path] + [hex(p - base - 1) for p in pcs], capture_output=True, text=True, timeout=60).stdout.splitlines()
    except Exception:
        return {}
    return dict(zip(pcs, out))


def execute(st, runs, prefix, mode, verbosity, racy, hits):
    """One execution of a sequence of runs with given choices; returns choices, problems and outputs."""
    m, L = st.m, st.L
    signal.alarm(60)
    d = None
    if verbosity == 'debug':        # writes files in the working directory
        d = tempfile.mkdtemp(prefix='vs', dir='/tmp')
        os.chdir(d)
    try:
        L.vs_config(mode, 4, hits)
        if racy:
            L.vs_set_racy((ctypes.c_void_p * len(racy))(*racy), len(racy))
        p = m.PyRegPT()
        p.set_verbosity('quiet')
        settings(p, runs[0][0])
        objs = [scen.new(m, base(r[0])) for r in runs]
        for o, (calc, T, nk, tab) in zip(objs, runs):
            o.set_pk_lin(*scen.table(*tab))
            o.set_terms(np.array(KS[nk], dtype='f8'))
        arr = (ctypes.c_int * max(len(prefix), 1))(*prefix)
        L.vs_begin(arr, len(prefix))
        p.set_verbosity(verbosity)
        outs, problems, nall = [], [], 0
        for o, (calc, T, nk, tab) in zip(objs, runs):
            o.set_pk_lin(*scen.table(*tab))
            launch(o, calc, T)
            outs.append(scen.outputs(o))
        p.set_verbosity('quiet')
        buf = ctypes.create_string_buffer(1 << 16)
        n = L.vs_report(buf, 1 << 16)
        problems = buf.value.decode().splitlines() if n else []
        out = (ctypes.c_long * (4 * 4096))()
        nc = L.vs_choices(out, 4096)
        choices = [tuple(out[4 * i + j] for j in range(4)) for i in range(nc)]
        stats = (ctypes.c_long * 12)()
        L.vs_stats(stats)
        pcs, sizes, tids = (ctypes.c_void_p * 16)(), (ctypes.c_long * 16)(), (ctypes.c_int * 16)()
        nl = L.vs_leaks(pcs, sizes, tids, 16)
        leaks = [(pcs[i], sizes[i], tids[i]) for i in range(min(nl, 16))]
        racypc = []
        for line in problems:
            if line.startswith('race '):
                racypc += [int(x.rstrip(':'), 16) for x in line.split()[1:3]]
        pos = where(st.path, racypc + [l[0] for l in leaks] + [int(l.rsplit(' ', 1)[1], 16) for l in problems if not l.startswith('race') and l.rsplit(' ', 1)[1].startswith('0x')])
        text = []
        for line in problems:
            for pc, src in pos.items():
                line = line.replace(hex(pc), src)
            text.append(line)
        text += ['memory not released after the run: %d bytes allocated by thread %d at %s (%d blocks in all)' % (s, t, pos.get(pc, hex(pc or 0)), nl) for pc, s, t in leaks[:1]]
        return dict(choices=choices, problems=text, outs=outs, racy=sorted(set(racypc)), accesses=stats[0], regions=stats[1], sync=stats[2], lost=stats[3], diverged=stats[6])
    finally:
        if d:
            os.chdir('/')
            shutil.rmtree(d, ignore_errors=True)


def explore(st, runs, mode=0, verbosity='quiet', deviations=None, preemptions=None, racy=(), hits=0, cap=100000, visit=None, shard=None):
    """Enumerates all schedules within the bounds; visit(result, prefix) returns True to stop.  Returns counters."""
    stack = [()]
    n = dict(schedules=0, transitions=0, accesses=0, capped=0, sync=0, lost=0)
    start, least = time.time(), 60
    split = shard is not None       # (i, n): the first nodes are expanded by all, what follows is shared out
    while stack:
        if split and len(stack) >= 6 * shard[1]:
            stack, split = stack[shard[0]::shard[1]], False
            n = dict(schedules=0, transitions=0, accesses=0, capped=0, sync=0, lost=0) if shard[0] else n
            continue
        prefix = stack.pop(0 if split else -1)
        now = time.time()
        if n['schedules'] >= cap or now - start > ITEM[0] or (DEADLINE[0] and now > DEADLINE[0] and n['schedules'] >= least):
            n['capped'] = 1
            break
        kind, res = hist.child(execute, st, runs, list(prefix), mode, verbosity, list(racy), hits)
        n['schedules'] += 1
        if kind != 'ok':
            what = 'deadlock' if res == 77 << 8 else '%s %s' % (kind, res)
            res = dict(choices=[], problems=['execution: ' + what], outs=None, racy=[], accesses=0, diverged=0, sync=0, lost=0, regions=0)
        n['transitions'] += len(res['choices'])
        n['accesses'] += res['accesses']
        n['sync'] += res['sync']
        n['lost'] += res['lost']
        if res['diverged']:
            res['problems'].append('execution: the same choices lead to different synchronisation')
        if visit(res, prefix):
            break
        ch = res['choices']
        dev = pre = 0
        for i, (mask, cur, chosen, kd) in enumerate(ch):
            default = cur if cur >= 0 else (mask & -mask).bit_length() - 1
            if i >= len(prefix):
                for t in range(64):
                    if mask >> t & 1 and t != chosen:
                        d = dev + (t != default)
                        q = pre + (cur >= 0 and t != cur)
                        if (deviations is None or d <= deviations) and (preemptions is None or q <= preemptions):
                            stack.append(tuple(c[2] for c in ch[:i]) + (t,))
            dev += chosen != default
            pre += cur >= 0 and chosen != cur
    return n
