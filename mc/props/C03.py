"""Independence of the wavenumbers: every arrangement of an alphabet of wavenumbers against each of them alone."""
import itertools
import numpy as np
import scen

KT, PT = scen.table('narrow', 40)      # 2e-3 ... 3
# below the table, its first point, below the first node used for damping thresholds, inside, at a node, equal to a quadrature edge, last point, above
KA = [3e-4, KT[0], 0.0071, 0.0123, KT[15], 0.1, 0.23, KT[-1], 9.]
CORE = [0, 3, 4, 5, 7, 8]


# wavenumbers that hardly differ: the next number, and relative differences from one millionth of a millionth to one hundredth
STEPS = [1e-12, 1e-9, 1e-7, 1e-5, 1e-4, 1e-3, 1e-2]


def near(base):
    return [base, float(np.nextafter(base, 1e9))] + [base * (1. + d) for d in STEPS] + [base * (1. - d) for d in (1e-12, 1e-6, 1e-4)]


def single(m, calc, cut, KA=KA):
    out = []
    for k in KA:
        scen.fresh(m)
        o = scen.new(m, calc)
        o.set_running_uvcutoff('all', uvcutoff=cut)
        out.append(scen.run(m, calc, (KT, PT), [k], obj=o))
    return out


def check(m, item):
    """Lists of wavenumbers given as indices of the alphabet; one object per list, or the same object for all of them."""
    calc, lists, nthreads, cut, reuse, base = item
    viol, n = [], 0
    KA = near(base) if base else globals()['KA']
    ref = single(m, calc, cut, KA)
    scen.fresh(m)
    o = None
    for seq in lists:
        if o is None or not reuse:
            o = scen.new(m, calc)
            scen.tiny(o)
            o.set_running_uvcutoff('all', uvcutoff=cut)
            o.set_pk_lin(KT, PT)
        o.set_terms([KA[i] for i in seq])
        o.run_terms(nthreads=nthreads, **scen.CALCS[calc][1])
        out = scen.outputs(o)
        n += max(1, len(seq))
        if len(o) != len(seq) or any(len(out[key]) != len(seq) for key in out):
            viol.append('%s, wavenumbers %s: %d rows' % (calc, [KA[i] for i in seq], len(o)))
            continue
        for pos, i in enumerate(seq):
            r = scen.close({key: out[key][pos:pos + 1] for key in out}, ref[i], rtol=1e-10)
            if r:
                viol.append('%s, %d threads, wavenumbers %s, element %d: %s' % (calc, nthreads, ['%.14g' % KA[j] for j in seq], pos, r))
                break
        if len(viol) > 4:
            break
    return {'viol': viol[:4], 'n': {'states': n, 'transitions': len(lists)}, 'samples': [{'calculation': calc, 'lists': len(lists), 'first': lists[0]}]}


def check_func(m, item):
    """The functions of a list of wavenumbers, over every short list."""
    name, tname, size, first, length, cut, close = item
    scen.fresh(m)
    k, p = scen.table(tname, size)
    if name == 'sigmad2':
        f = lambda x: o.calc_running_sigmad2(x, uvcutoff=cut)
        scale = 1. / cut
    else:
        f = lambda x: o.find_pk_lin(x, interpol=name)
        scale = 1.
    o = m.PyRegPT()
    o.set_pk_lin(k, p)
    al = np.array([0.3 * k[0], k[0], k[0] * 1.01, k[2], np.sqrt(k[2] * k[3]), k[size // 2], k[-2] * 1.02, k[-1], 2 * k[-1]]) * scale
    if close:
        x = al[close]
        al = np.array([x, np.nextafter(x, 1e9), np.nextafter(x, 0.), x * (1. + 1e-12), x * (1. - 1e-9), x * (1. + 1e-6), x * (1. - 1e-4), x * (1. + 1e-3), x * (1. - 1e-2)])
    one = np.array([f([x])[0] for x in al])
    viol, n = [], 0
    for rest in itertools.product(range(len(al)), repeat=length - 1):
        seq = [first] + list(rest)
        got = f(al[seq])
        n += 1
        r = scen.off(got, one[seq], 1e-11 * np.abs(one[seq]))
        if r:
            viol.append('%s of table %s (%d points), wavenumbers %s: %s' % (name, tname, size, al[seq].tolist(), r))
            if len(viol) > 3:
                break
    return {'viol': viol, 'n': {'states': n * length, 'transitions': n}}


def check_long(m, item):
    """Thousands of wavenumbers in one call."""
    name, tname, size, length, cut = item
    scen.fresh(m)
    k, p = scen.table(tname, size)
    o = m.PyRegPT()
    o.set_pk_lin(k, p)
    f = (lambda x: o.calc_running_sigmad2(x, uvcutoff=cut)) if name == 'sigmad2' else (lambda x: o.find_pk_lin(x, interpol=name))
    x = np.exp(np.linspace(np.log(0.2 * k[0]), np.log(4. * k[-1]), length)) / (cut if name == 'sigmad2' else 1.)
    one = np.array([f([v])[0] for v in x])
    viol, n = [], 0
    for oname, order in (('increasing', np.arange(length)), ('decreasing', np.arange(length)[::-1]), ('mixed', (np.arange(length) * 7 + 3) % length), ('from the ends', np.argsort(np.abs(np.arange(length) - length / 2.1))[::-1]),
                         ('in blocks', np.arange(length).reshape(-1, 10)[::-1].reshape(-1))):
        n += length
        r = scen.off(f(x[order]), one[order], 1e-11 * np.abs(one[order]))
        if r:
            viol.append('%s of table %s (%d points), %d wavenumbers, %s: %s' % (name, tname, size, length, oname, r))
    return {'viol': viol, 'n': {'states': n, 'transitions': 5}}


def run(ctx):
    items = []
    N = len(KA)

    def chunks(lists, size=60):
        return [lists[i:i + size] for i in range(0, len(lists), size)]
    for calc in scen.CALCS:
        main = calc in scen.MAIN
        lists = [[]] + [list(s) for L in (1, 2) for s in itertools.product(range(N), repeat=L)]
        if main and not ctx.quick or calc in ('S1dt', 'bias', 'A1', 'B1'):
            lists += [list(s) for s in itertools.product(range(N), repeat=3)]
        elif main:
            lists += [list(s) for s in itertools.product(CORE, repeat=3)]
        if main:
            lists += [list(s) for s in itertools.permutations(CORE[:4] if ctx.quick else CORE, 4 if ctx.quick else 6)]
        lists += [list(range(N)), list(range(N))[::-1], list(range(N)) * 3, sorted(list(range(N)) * 2), (list(range(N)) * 2)[::-1], [8, 0] * 7, [5] * 23]
        for c in chunks(lists):
            items.append((calc, c, 1, 0.5, False, None))
        lists = [list(s) for L in (2, 3) for s in itertools.product((0, 4, 8) if ctx.quick else CORE, repeat=L)]
        for nt in (2, 3):
            for c in chunks(lists):
                items.append((calc, c, nt, 0.5, True, None))
        for c in chunks([list(s) for s in itertools.permutations((0, 2, 4, 8))]):
            items.append((calc, c, 1, 2.5, True, None))
        for base in (KT[0], 0.0123, KT[15], 0.23, 9.):
            N2 = len(STEPS) + 5
            lists = [s for i in range(1, N2) for s in ([0, i], [i, 0], [0, i, 0, i], [i, 0, i])] + [list(range(N2)), list(range(N2))[::-1]]
            for nt in (1,) if ctx.quick or not main else (1, 2):
                items.append((calc, lists, nt, 0.5, False, float(base)))
                items.append((calc, lists, nt, 0.5, True, float(base)))
    # long lists: the alphabet over and over, in an order that does not repeat with its period
    for calc in scen.CALCS:
        for n in (101, 1201) if calc in scen.MAIN else (1201,):
            order = [(i * i + i // N) % N for i in range(n)]
            items += [(calc, [order, sorted(order), sorted(order)[::-1]], nt, 0.5, False, None) for nt in ((1, 3) if calc in scen.MAIN else (1,))]
    ctx.collect(items, ctx.pmap(check, items, timeout=300))
    items = []
    long = [(name, tname, size, length, cut) for name in ('poly', 'lin', 'sigmad2') for tname in ('cdm', 'irregular') for size in (5, 40, 300) for length in (1500, 6000) for cut in ((0.5, 1.3) if name == 'sigmad2' else (1.,))]
    ctx.collect(long, ctx.pmap(check_long, long, timeout=300))
    for name in ('poly', 'lin', 'sigmad2'):
        for tname in ('cdm', 'irregular'):
            for size in (5, 40) if ctx.quick else (5, 9, 40, 100):
                for first in range(9):
                    for cut in ((0.5, 1.3) if name == 'sigmad2' else (0.5,)):
                        for length in (2, 3, 4) if ctx.quick else (2, 3, 4, 5):
                            items.append((name, tname, size, first, length, cut, 0))
                            if length == 3:
                                items += [(name, tname, size, first, length, cut, close) for close in (1, 3, 4, 7, 8)]
    ctx.collect(items, ctx.pmap(check_func, items, timeout=300))
    ctx.cov['traces_validated_against_impl'] = ctx.counts.get('transitions', 0)
    ctx.cov['exhaustive'] = True
    ctx.cov['rule'] = 'every list (with repetitions) of up to 2 or 3 wavenumbers of the alphabet of 9, every permutation of 4 (6), long lists, 1 to 3 threads; every list of up to 4 (5) for the functions of a list; wavenumbers that differ by one unit in the last place up to one hundredth'
