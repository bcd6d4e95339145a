"""Memory: sequences of calls under the address sanitizer (arrays of numpy included) and under the heap monitor of the controlled runtime (balance of allocations)."""
import ctypes, itertools, json, os, subprocess, sys, tempfile, threading
import numpy as np
import build, h, hist, memdrive, scen

HERE = os.path.dirname(os.path.abspath(h.__file__))


def base_items(q):
    """Sequences that enumerate sizes."""
    items = []
    sizes = (3, 4, 5, 8) if q else (3, 4, 5, 6, 7, 14, 15, 16, 29, 40)
    nks = (0, 1, 3) if q else (0, 1, 2, 3, 8)
    ns = (1, 4) if q else (1, 2, 3, 5)
    for c in scen.CALCS:
        for ntab, nk, n in itertools.product(sizes, nks, ns):
            for lin in ('poly', 'lin'):
                if lin == 'lin' and (n != ns[0] or nk != nks[-1]):
                    continue
                ops = [('quiet', 'quiet'), ('nodes', n)]
                if lin == 'lin':
                    ops += [('pklin', 'lin'), ('interpol', 'lin')]
                items.append(ops + [('new', 'X', c, ntab, nk), ('find', 'X', nk), ('run', 'X', 1 + (ntab + nk) % 3), ('run', 'X', 2), ('drop', 'X')])
        # numbers of threads and of wavenumbers
        for t, nk in itertools.product((1, 2, 3, 8), (0, 1, 2, 5)):
            items.append([('quiet', 'quiet'), ('nodes', 2), ('new', 'X', c, 6, nk), ('run', 'X', t), ('run', 'X', 9 - t), ('dropall',)])
        for t in (2, 3, 4, 8):      # threads that have work in one run and none in the next
            for n0, n1, n2 in ((5, 1, 3), (8, 0, 2), (3, 2, 1), (1, 8, 1)):
                items.append([('quiet', 'quiet'), ('nodes', 2), ('new', 'X', c, 6, n0), ('run', 'X', t), ('terms', 'X', n1), ('run', 'X', t), ('terms', 'X', n2), ('run', 'X', t), ('run', 'X', t - 1), ('dropall',)])
        # settings at the border of what is allowed, wavenumbers far from the table
        for extra in ([('range', 0.1, 0.1)], [('range', 1e-9, 1e-8)], [('range', 1e3, 1e4)], [('range', 1e-9, 1e4)], [('cut', 0.)], [('cut', -1.)], [('cut', 1e9)], [('quiet', 'info')], [('quiet', 'debug')],
                      [('interpol', 'lin'), ('range', 0.5, 30.)], [('nodes', 33)]):
            if c == 'A2' and extra == [('nodes', 33)]:
                extra = [('nodes', 12)]
            items.append([('quiet', 'quiet'), ('nodes', 2)] + extra + [('new', 'X', c, 9, 3), ('run', 'X', 2), ('find', 'X', 4), ('run', 'X', 1), ('dropall',)])
        for k in (0., 1e-30, 1e30):
            items.append([('quiet', 'quiet'), ('nodes', 3), ('new', 'X', c, 9, 3), ('k', 'X', k), ('run', 'X', 2), ('dropall',)])
        # each quadrature with another number of nodes than the others: arrays of different sizes
        for key in scen.TINY:
            if key in scen.USES.get(scen.kind(c), []):
                for n in (1, 2, 9) if q else (1, 2, 3, 9, 17):
                    items.append([('quiet', 'quiet'), ('nodes', 4), ('one', key, dict(n=n)), ('new', 'X', c, 12, 2), ('run', 'X', 2), ('dropall',)])
    for ntab, nk, t in itertools.product(sizes, nks, (1, 3)):
        for which in (['delta'], ['theta'], ['delta', 'theta']):
            items.append([('quiet', 'quiet'), ('nodes', 2), ('new', 'X', 'B1', ntab, nk), ('run', 'X', 2), ('own', 'X', t, which), ('own', 'X', 3 - t % 2, which[:1]), ('run', 'X', 1), ('dropall',)])
    for n in range(0, 40 if q else 130):
        items.append([('quiet', 'quiet'), ('gauss', n)])
    for n in range(1, 8 if q else 20):
        items.append([('quiet', 'quiet'), ('poly', n)])
    # default numbers of nodes
    for c in ('S1dt', 'B1', 'bias', 'A1') + (() if q else ('S2dt', 'A2')):
        items.append([('quiet', 'quiet'), ('new', 'X', c, 60, 2), ('run', 'X', 2), ('dropall',)])
    return items


def history_items(q):
    """Sequences of calls with arrays large enough for their memory to be returned when dropped."""
    big = 140
    items = []
    start = [('quiet', 'quiet'), ('nodes', 1)]
    pairs = list(itertools.product(scen.MAIN, repeat=2))
    ops = [('run', 'X', 2), ('run', 'Y', 1), ('drop', 'X'), ('pk', 'X', 150), ('pk', 'Y', 3), ('terms', 'X', 1), ('terms', 'Y', 160), ('deep', 'X', 'Y'), ('subset', 'X', 'Y', [0, 2, 5]), ('find', 'Y', 150), ('clear2',)]
    ops = [o for o in ops if o[0] != 'clear2']
    for a, b in pairs:
        for o in ops if not q else ops[:1] + ops[2:3] + ops[4:5] + ops[7:9]:
            items.append(start + [('new', 'X', a, big, big), ('run', 'X', 2), ('new', 'Y', b, 5, 3), o, ('run', 'Y', 2), ('drop', 'X'), ('run', 'Y', 1), ('find', 'Y', 3), ('dropall',)])
    # objects made and dropped again and again: addresses and identities of arrays come back
    for c in scen.MAIN:
        for sizes in ((140, 150, 140, 150), (140, 140, 140, 140), (150, 3, 140, 3), (3, 140, 3, 140)):
            for first in (True, False):
                seq = list(start)
                for n in sizes:
                    seq += [('drop', 'X')] if first else []
                    seq += [('new', 'X', c, n, n), ('run', 'X', 1)] + ([] if first else [('terms', 'X', n), ('run', 'X', 2), ('pk', 'X', n), ('run', 'X', 1)])
                items.append(seq + [('dropall',)])
                items.append(start + [('new', 'Y', 'S1dt', 150, 150), ('run', 'Y', 1), ('drop', 'Y')] + seq[2:])
    same = ['S1dt', 'A1', 'B2'] if q else scen.MAIN
    for c in same:
        for o1, o2 in itertools.product(ops, repeat=2):
            items.append(start + [('new', 'X', c, big, big), ('new', 'Y', c, 4, 2), o1, o2, ('run', 'Y', 2), ('run', 'X', 1), ('dropall',), ('new', 'X', c, 3, 1), ('run', 'X', 1)])
    return items


class Asan(object):
    """One process with the sanitizer preloaded."""

    def __init__(self, scratch, i):
        lib = subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
        env = dict(os.environ, LD_PRELOAD=os.path.realpath(lib), OMP_NUM_THREADS='4', OPENBLAS_NUM_THREADS='1',
                   ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:handle_segv=1:allocator_may_return_null=1:quarantine_size_mb=64:malloc_context_size=5')
        self.p = subprocess.Popen([sys.executable, os.path.join(HERE, 'asan_worker.py'), os.path.join(scratch, 'log%d' % i)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env, cwd=scratch)

    def ready(self):
        return self.p.stdout.readline() == 'ready\n'

    def ask(self, ops):
        self.p.stdin.write(json.dumps(ops) + '\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        return json.loads(line) if line else [-1, 'the process of the sanitizer ended']

    def close(self):
        self.p.stdin.close()
        self.p.wait()


def sanitize(ctx, items):
    build.build('asan')
    scratch = tempfile.mkdtemp(prefix='vasan', dir='/tmp')
    results = [None] * len(items)
    stop = threading.Event()

    def work(i, n):
        w = Asan(scratch, i)
        if not w.ready():
            ctx.errors.append('the sanitizer does not start')
            return
        for j in range(i, len(items), n):
            if stop.is_set():
                break
            st, text = w.ask(items[j])
            results[j] = {'viol': [], 'n': {'states': 1, 'transitions': len(items[j]), 'sanitized': 1}}
            if st:
                results[j]['viol'] = ['sanitizer: %s ends with status %s: %s' % (items[j], hex(st), text)]
                if sum(1 for r in results if r and r['viol']) > 10:
                    stop.set()
        w.close()
    n = 8
    th = [threading.Thread(target=work, args=(i, n)) for i in range(n)]
    for t in th:
        t.start()
    for t in th:
        t.join()
    subprocess.run(['rm', '-rf', scratch])
    ctx.collect(items, results)


class State(object):

    def __init__(self, m):
        self.m, self.L = m, h.lib(m)


def check_heap(st, ops):
    """Heap of the library: every access inside a live block, everything allocated by a call of run released when it returns, no file left open."""
    m, L = st.m, st.L

    def f():
        import signal
        signal.alarm(100)
        d = tempfile.mkdtemp(prefix='vm', dir='/tmp')
        os.chdir(d)
        L.vs_config(0, 4, 0)
        stats = (ctypes.c_long * 12)()

        def after(i, op):
            buf = ctypes.create_string_buffer(1 << 14)
            if L.vs_report(buf, 1 << 14):
                import explore
                text = buf.value.decode().splitlines()[0]
                pcs = [int(t, 16) for t in text.replace(':', ' ').split() if t.startswith('0x')]
                for pc, src in explore.where(h.lib_path(m), pcs).items():
                    text = text.replace(hex(pc), src)
                return '%s in call %d %s' % (text, i, op)
            L.vs_stats(stats)
            if op[0] in ('run', 'own', 'find', 'gauss', 'poly'):
                if stats[7] > state[0]:
                    pcs, sizes, tids = (ctypes.c_void_p * 4)(), (ctypes.c_long * 4)(), (ctypes.c_int * 4)()
                    n = L.vs_leaks(pcs, sizes, tids, 4)
                    import explore
                    src = explore.where(h.lib_path(m), [pcs[0]]) if n else {}
                    return 'call %d %s leaves %d blocks unreleased, the first of %d bytes allocated at %s' % (i, op, n, sizes[0], src.get(pcs[0]))
                nfd = len(os.listdir('/proc/self/fd'))
                if nfd > state[1]:
                    return 'call %d %s leaves %d files open' % (i, op, nfd - state[1])
            state[0], state[1] = stats[7], len(os.listdir('/proc/self/fd'))
            L.vs_begin(None, 0)
            return None
        state = [0, len(os.listdir('/proc/self/fd'))]
        try:
            L.vs_begin(None, 0)
            return memdrive.sequence(m, ops, after)
        finally:
            os.chdir('/')
            for x in os.listdir(d):
                os.unlink(os.path.join(d, x))
            os.rmdir(d)
    kind, out = hist.child(f)
    viol = []
    if kind != 'ok':
        viol.append('%s: %s %s' % (ops, kind, out))
    elif out:
        viol.append('%s: %s' % (ops, out))
    return {'viol': viol, 'n': {'heap_watched': 1, 'transitions': len(ops)}}


def check_growth(m, item):
    """Memory of the process after many cycles of make, run and drop."""
    calc, what = item

    def f():
        import tracemalloc, gc
        nk = 1500
        p = m.PyRegPT()
        p.set_verbosity('quiet')
        memdrive.nodes(p, 1)
        t = memdrive.ktable(nk if what == 'tables' else 60)
        k = np.linspace(0.01, 1., nk if what != 'tables' else 2)
        tracemalloc.start()

        def cycle():
            o = scen.new(m, calc)
            o.set_pk_lin(*t)
            o.set_terms(k)
            if what == 'run' or nk < 10:
                o.run_terms(nthreads=1, **scen.CALCS[calc][1])
            elif what == 'copies':
                z = o.deepcopy()
                z.set_terms(k)
                z = o[1:]
        for _ in range(4):
            cycle()
        gc.collect()
        a = tracemalloc.get_traced_memory()[0]
        for _ in range(10):
            cycle()
        gc.collect()
        return tracemalloc.get_traced_memory()[0] - a, 8 * nk
    kind, out = hist.child(f)
    viol = []
    if kind != 'ok':
        viol.append('%s: %s %s' % (item, kind, out))
    elif out[0] > 5 * out[1]:
        viol.append('%s of %s: the memory held grows by %d bytes in ten cycles of objects that are dropped (a column is %d bytes)' % (what, calc, out[0], out[1]))
    return {'viol': viol, 'n': {'growth': 1, 'transitions': 14}}


def run(ctx):
    base, histories = base_items(ctx.quick), history_items(ctx.quick)
    ctx.collect(base + histories, ctx.pmap(check_heap, base + histories, setup=State, variant='sched', timeout=300))
    growth = [(c, w) for c in scen.MAIN for w in ('run', 'tables', 'copies') if not (w == 'run' and c in ('A2', 'B2', 'S2dt') and ctx.quick)]
    ctx.collect(growth, ctx.pmap(check_growth, growth, timeout=300))
    if not ctx.violations:
        sanitize(ctx, base + histories)
    ctx.cov['traces_validated_against_impl'] = ctx.counts.get('states', 0)
    ctx.cov['exhaustive'] = True
    ctx.cov['rule'] = ('state = one sequence of calls; all combinations of the sizes of table, list of wavenumbers and quadratures, threads; all pairs of operations between two objects with large arrays; '
                       'each run with the address sanitizer preloaded and with the heap monitor')
    ctx.assumptions.append('tables of at least three points; arrays of numpy below 1 kB may be kept by its cache, so released ones are watched in the sequences with large arrays')
