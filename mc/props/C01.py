"""Values for every number of threads and every schedule: controlled runtime, and the real OpenMP one for all small numbers of threads and of wavenumbers."""
import itertools, signal, time
import numpy as np
import scen, explore, hist

T0, T1 = ('cdm', 50), ('narrow', 40)
RTOL = 1e-10


def compare(st, runs, outs):
    for i, (r, out) in enumerate(zip(runs, outs)):
        bad = scen.close(out, st.reference(r[0], r[3], r[2]), rtol=RTOL)
        if bad:
            return 'run %d, %s with %d threads and %d wavenumbers: %s' % (i, r[0], r[1], r[2], bad)


def check(st, item):
    runs, mode, verbosity, dev, pre, cap = item[:6]
    viol, racy = [], set()

    def visit(res, prefix):
        racy.update(res['racy'])
        bad = 'execution ended: %s' % res['problems'][:1] if res['outs'] is None else compare(st, runs, res['outs'])
        if bad:
            viol.append('%s: %s (schedule %s)' % ([r[:3] for r in runs], bad, list(prefix)))
        return len(viol) >= 2
    n = explore.explore(st, runs, mode=mode, verbosity=verbosity, deviations=dev, preemptions=pre, cap=cap, visit=visit, shard=item[6] if len(item) > 6 else None)
    more = None
    if racy and not viol:
        # racy instructions become scheduling points: two preemptions anywhere among the first of them
        more = explore.explore(st, runs, mode=mode, verbosity=verbosity, deviations=2, racy=sorted(racy), hits=6, cap=1500, visit=visit)
        n['schedules'] += more['schedules']
        n['transitions'] += more['transitions']
    return {'viol': viol, 'n': {'states': n['schedules'], 'transitions': n['transitions'], 'capped': n['capped'], 'racy_sites': len(racy)},
            'samples': [{'runs': [list(r[:3]) for r in runs], 'threads_kept': not mode, 'deviations': dev, 'schedules': n['schedules']}]}


def check_real(st, item):
    """A history of runs with the system's OpenMP runtime, in a process of its own (a fork of the unused library)."""
    runs = item
    refs = [st.reference(r[0], r[3], r[2]) for r in runs]

    def f():
        signal.alarm(60)
        return [explore.calculate(st.m, c, tab, nk, t) for c, t, nk, tab in runs]
    kind, out = hist.child(f)
    viol = []
    if kind != 'ok':
        viol.append('%s: %s %s' % ([r[:3] for r in runs], kind, out))
    else:
        for i, (r, o, ref) in enumerate(zip(runs, out, refs)):
            bad = scen.close(o, ref, rtol=RTOL)
            if bad:
                viol.append('%s, run %d: %s' % ([r[:3] for r in runs], i, bad))
                break
    return {'viol': viol, 'n': {'real_histories': 1, 'states': 1, 'transitions': len(runs)}, 'samples': []}


def run(ctx):
    q, items = ctx.quick, []
    for c in scen.CALCS:
        items.append(([(c, 2, 3, T0)], 0, 'quiet', None if c != 'B2' else 3 - q, None, 20000))
        items.append(([(c, 3, 2, T0)], 1, 'quiet', 1 if q else (2 if c == 'B2' else 3), None, 50000))
        items.append(([(c, 2, 1, T0)], 0, 'quiet', None if c != 'B2' else 2 - q, None, 20000))
        items.append(([(c, 4, 3, T0)], 0, 'quiet', 1, None, 20000))
        items.append(([(c, 3, 5, T0)], 0, 'quiet', 1 if q else 2, None, 20000))
        for t in (5, 8, 16):
            items.append(([(c, t, 3, T0)], t == 8, 'quiet', 0, None, 20000))
    if not q:
        for c in ('S1dt', 'bias', 'A1', 'B1'):
            items += [([(c, 3, 3, T0)], 0, 'quiet', None, None, 200000, (i, 16)) for i in range(16)]
    for a, b in itertools.product(scen.MAIN, repeat=2):
        for ta, tb in ((3, 2),) if q else itertools.product((1, 2, 3), repeat=2):
            items.append(([(a, ta, 2, T0), (b, tb, 3, T1)], 0, 'quiet', 0 if q else 1, None, 20000))
    # other branches of the calculations: linear interpolation, wavenumbers on nodes, enough nodes for every expansion in use, spectra that the library assembles itself
    for c in list(scen.CALCS) + ['B0']:
        for flag, nk in (('+lin', 3), ('', 'nodes'), ('+wide', 5), ('+edge', 5)) + ((('', 3),) if c == 'B0' else ()):
            items.append(([(c + flag, 2, nk, T0)], 0, 'quiet', 0 if q else 1, None, 20000))
            if c in scen.MAIN or c == 'B0':
                items.append(([(c + flag, 3, nk, T1)], 1, 'quiet', 0, None, 20000))
    explore.ITEM[0], explore.DEADLINE[0] = (60., time.time() + 300.) if q else (500., time.time() + (500. if 'check_real' in globals() else 700.))
    items.sort(key=lambda i: -((i[3] is None) * 10 + (i[3] or 0)) * len(i[0]))
    ctx.collect(items, ctx.pmap(check, items, setup=explore.State, variant='sched', timeout=800))
    # the real runtime
    real = []
    threads = (1, 2, 3, 4, 5, 6, 7, 8, 16)
    for c in scen.CALCS:
        for nk in (0, 1, 2, 3, 5):
            for t in threads:
                if nk or c not in ('B2',):
                    real.append([(c, t, nk, T0)])
    for c in scen.MAIN:
        for seq in itertools.product((1, 2, 3, 5) if not q else (1, 3, 2), repeat=3):
            real.append([(c, t, nk, tab) for t, nk, tab in zip(seq, (3, 5, 2), (T0, T1, T0))])
    for a, b in itertools.product(scen.MAIN, repeat=2):
        for ta, tb in ((4, 2), (2, 4)) if q else itertools.product((1, 2, 4), repeat=2):
            real.append([(a, ta, 2, T0), (b, tb, 3, T1)])
    # threads that have work in one run and none in the next; long lists in no order
    for c in scen.CALCS:
        for t in (2, 3, 4, 8):
            for seq in ((3, 1, 2), (1, 3, 1), (5, 0, 3), (9, 2, 5)):
                real.append([(c, t, nk, tab) for nk, tab in zip(seq, (T0, T1, T0))])
        if c in ('S1dt', 'A1', 'B1', 'bias') or not q:
            real.append([(c, t, 300, T0) for t in (2, 3, 8, 1)])
    # many threads and many wavenumbers, one after the other in a single process
    for c in scen.CALCS if not q else scen.MAIN:
        for nk in (7, 10, 12, 17, 25, 33) if q else (6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 24, 25, 31, 32, 33, 40, 64):
            for up in ((8, 9, 10, 11, 12, 13, 17, 24), (32, 1, 7, 6, 5, 4, 3, 2)) if q else ((1, 2, 3, 4, 5, 6, 7, 8), (9, 10, 11, 12, 13, 14, 15, 16), (17, 20, 24, 31), (32, 33, 48, 64)):
                real.append([(c, t, nk, T0) for t in up])
    ctx.collect(real, ctx.pmap(check_real, real, setup=explore_state_plain, timeout=300, nproc=4))
    ctx.cov['traces_validated_against_impl'] = ctx.counts.get('states', 0)
    ctx.cov['exhaustive'] = not ctx.counts.get('capped')
    ctx.cov['rule'] = ('state = one complete schedule of the synchronisation operations (controlled runtime) or one history of numbers of threads (real runtime); every value compared with one thread; '
                       'all schedules of two threads, those within the stated number of deviations for more; all pairs of 1-8 and 16 threads and 0-5 wavenumbers with the real runtime')
    ctx.assumptions.append('interleavings of memory accesses between synchronisation operations are equivalent without races; racy instructions, if any, become scheduling points (C02 reports them)')


def explore_state_plain(m):
    return explore.State(m)
