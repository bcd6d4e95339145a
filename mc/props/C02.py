"""Data races, critical sections and thread-private tables: every schedule within the bounds of the real parallel calculations under the controlled runtime."""
import itertools, time
import scen, explore

T0, T1 = ('cdm', 50), ('narrow', 40)


def check(st, item):
    runs, mode, verbosity, dev, pre, cap = item[:6]
    viol = []

    def visit(res, prefix):
        for p in res['problems'][:3]:
            viol.append('%s%s: %s (schedule %s)' % ([r[:3] for r in runs], '' if verbosity == 'quiet' else ' verbosity %s' % verbosity, p, list(prefix)))
        return len(viol) >= 3
    n = explore.explore(st, runs, mode=mode, verbosity=verbosity, deviations=dev, preemptions=pre, cap=cap, visit=visit, shard=item[6] if len(item) > 6 else None)
    return {'viol': viol, 'n': {'states': n['schedules'], 'transitions': n['transitions'], 'memory_accesses': n['accesses'], 'capped': n['capped'], 'accesses_not_tracked': n['lost']},
            'samples': [{'runs': [list(r[:3]) for r in runs], 'threads_kept': not mode, 'verbosity': verbosity, 'deviations': dev, 'schedules': n['schedules']}]}


def run(ctx):
    items = []
    q = ctx.quick
    for c in scen.CALCS:
        items.append(([(c, 2, 3, T0)], 0, 'quiet', None if c != 'B2' else 3 - q, None, 20000))
        items.append(([(c, 2, 2, T0)], 1, 'info', None if c != 'B2' else 2 - q, None, 20000))
        items.append(([(c, 3, 2, T0)], 0, 'quiet', 2 if q else (3 if c == 'B2' else 4), None, 50000))
        items.append(([(c, 4, 3, T0)], 1, 'quiet', 1 if q else 2, None, 50000))
        items.append(([(c, 3, 1, T0)], 0, 'debug', 1 if q else 2, None, 20000))
        items.append(([(c, 3, 0, T0)], 0, 'info', 1, None, 20000))
        items.append(([(c, 8, 3, T0)], 0, 'quiet', 0 if q else 1, None, 20000))
    if not q:
        for c in ('S1dt', 'bias', 'A1', 'B1'):
            items += [([(c, 3, 3, T0)], 0, 'quiet', None, None, 200000, (i, 16)) for i in range(16)]
    # sequences of runs: other calculations, other numbers of threads, other tables
    for a, b in itertools.product(scen.MAIN, repeat=2):
        for ta, tb in ((2, 3), (3, 2)) if q else itertools.product((1, 2, 3), repeat=2):
            items.append(([(a, ta, 2, T0), (b, tb, 3, T1)], 0 if (ta, tb) == (2, 3) else 1, 'quiet', 0 if q else 1, None, 20000))
    # threads that have work in one run and none in the next
    for c in scen.CALCS:
        for t in (2, 3, 4):
            for seq in ((3, 1, 2), (1, 3, 1), (5, 0, 3)):
                items.append(([(c, t, nk, T0) for nk in seq], 0, 'quiet', 0 if q else 1, None, 3000))
        items.append(([(c, 4, 5, T0), (c, 2, 1, T1), (c, 4, 2, T0)], 0, 'quiet', 0 if q else 1, None, 3000))
    for seq in itertools.product(('S1dt', 'S2dt', 'B2') if q else scen.MAIN, repeat=3):
        items.append(([(c, t, 2, T0) for c, t in zip(seq, (3, 2, 3))], 0, 'quiet', 0, None, 100))
    # other branches of the calculations: linear interpolation, wavenumbers on nodes, enough nodes for every expansion in use, spectra that the library assembles itself
    for c in list(scen.CALCS) + ['B0']:
        for flag, nk in (('+lin', 3), ('', 'nodes'), ('+wide', 5), ('+edge', 5)) + ((('', 3),) if c == 'B0' else ()):
            items.append(([(c + flag, 2, nk, T0)], 0, 'quiet', 0 if q else 1, None, 20000))
            if c in scen.MAIN or c == 'B0':
                items.append(([(c + flag, 3, nk, T1)], 1, 'quiet', 0, None, 20000))
    explore.ITEM[0], explore.DEADLINE[0] = (60., time.time() + 300.) if q else (500., time.time() + (500. if 'check_real' in globals() else 700.))
    items.sort(key=lambda i: -((i[3] is None) * 10 + (i[3] or 0)) * len(i[0]))
    ctx.collect(items, ctx.pmap(check, items, setup=explore.State, variant='sched', timeout=800))
    ctx.cov['traces_validated_against_impl'] = ctx.counts.get('states', 0)
    ctx.cov['exhaustive'] = not ctx.counts.get('capped')
    ctx.cov['rule'] = ('state = one complete schedule of the synchronisation operations of a sequence of calculations on the real library; all schedules of two threads, those within the '
                       'stated number of deviations from the default for three, four and eight; in each: happens-before races over all memory accesses, heap errors, tables left')
    ctx.assumptions += ['interleavings of memory accesses between synchronisation operations are equivalent in an execution without races, which is checked on each',
                        'the OpenMP runtime is replaced by one that keeps its contract; thread-private data persists with the threads (kept or renewed between regions)']
