"""What is printed and written: every calculation, number of wavenumbers and of threads, and every short sequence of calls on several objects; the transcript
of each call is parsed and compared with what that call did."""
import ctypes, itertools, os, re
import numpy as np
import scen, h
import C23

TABS = {'a': scen.table('cdm', 30), 'b': scen.table('narrow', 23), 'c': scen.table('irregular', 3)}
ROWS = {'none': (TABS['a'][0], 0. * TABS['a'][1]), 'some': (TABS['b'][0], np.where(np.arange(len(TABS['b'][0])) % 3 == 1, 0., TABS['b'][1])), 'large': (TABS['a'][0], 1e9 * TABS['a'][1])}
KS = (0.05, 0.21, 1e-7, 40., 0.)
TITLE = {'S1': 'power spectrum at 1 loop', 'S2': 'power spectrum at 2 loop', 'bias': 'bias terms at 1 loop', 'A1': 'A term at 1 loop', 'A2': 'A term at 2 loop', 'B': 'B term'}
COLS = {'S1': ['k', 'gamma1a_1loop', 'gamma1b_1loop', 'pk_gamma2_tree_tree'],
        'S2': ['k', 'gamma1a_1loop', 'gamma1a_2loop', 'gamma1b_1loop', 'gamma1b_2loop', 'pk_gamma2_tree_tree', 'pk_gamma2_tree_1loop', 'pk_gamma2_1loop_1loop', 'pk_gamma3_tree']}


def ks(nk, which=0):
    return [float((4e-3, 0.0113)[which] * 1.09**((37 * i) % 71)) for i in range(nk)]


def kind(calc):
    return 'B' if calc[0] == 'B' else ('S' + calc[1] if calc[0] == 'S' else calc)


def parse(text):
    """Blocks of a transcript, in order."""
    out = []
    for line in text.decode().split('\n'):
        s = line.strip()
        if not s:
            continue
        if s.startswith('***'):
            t = s[3:].strip()
            if 'inear power spectrum' in t:
                out.append({'block': 'lin'})
            elif 'k-output' in t:
                out.append({'block': 'k'})
            else:
                out.append({'block': 'run', 'title': t, 'flags': [], 'threads': [], 'percent': [], 'percent1': [], 'percent2': [], 'time': []})
            continue
        g = re.search(r'setting (P_\w+)', s)
        if g:
            out.append({'block': 'set', 'what': g.group(1)})
            continue
        if not out:
            return None, 'starts with %r' % s
        b = out[-1]
        for pat, key, conv in ((r'#modes: (\d+)$', 'n', int), (r'range: (\S+) < k < (\S+)$', 'range', str), (r'calculating (P_\w+)$', 'flags', str), (r'using (\d+) threads$', 'threads', int),
                               (r'computation done at (-?\d+) percent$', 'percent', int), (r'computation I done at (-?\d+) percent$', 'percent1', int),
                               (r'computation II done at (-?\d+) percent$', 'percent2', int), (r'relative time ellapsed (\S+) ms$', 'time', float),
                               (r'relative time ellapsed (\d+:\d\d:\d\d)$', 'time', lambda t: sum(int(x) * f for x, f in zip(t.split(':'), (3600000, 60000, 1000))))):
            g = re.search(pat, s)
            if g:
                v = g.groups() if len(g.groups()) > 1 else conv(g.group(1))
                if isinstance(b.get(key), list):
                    b[key].append(v)
                elif key in b:
                    return None, 'twice %s in %s' % (key, b)
                else:
                    b[key] = v
                break
        else:
            return None, 'line %r' % s
    return out, None


def head(block, k):
    """Number of wavenumbers and their range."""
    if block.get('n') != len(k):
        return '%s: number of modes %s instead of %d' % (block['block'], block.get('n'), len(k))
    want = ('%.3g' % k[0], '%.3g' % k[-1]) if len(k) else None
    if block.get('range') != want:
        return '%s: range %s instead of %s' % (block['block'], block.get('range'), want)


def steps(nk):
    return sorted(100 * i // nk for i in range(0, nk, max(nk // 10, 1)))


class Clock(object):
    """The clock of the library: hours go by between the calls, two minutes for each allocation during a call."""
    now = 1e9

    def __enter__(self):
        Clock.now += 36000.
        lib().env_clock(ctypes.c_double(self.now), ctypes.c_double(120.))
        return self

    def __exit__(self, *args):
        self.ms = 120000. * lib().env_ticks()
        Clock.now += self.ms / 1000.


def lib():
    return h.lib(STATE[0])


STATE = [None]


def body(b, calc, nk, nt, flags, wall, least):
    kd = kind(calc)
    if TITLE[kd] not in b['title']:
        return 'title %r of a calculation %s' % (b['title'], calc)
    if b['flags'] != ([flags] if flags else []):
        return 'fields %s instead of %s' % (b['flags'], flags)
    if b['threads'] != [nt]:
        return 'threads %s instead of %d' % (b['threads'], nt)
    parts = ('percent1', 'percent2') if kd in ('S2', 'A2') else ('percent',)
    for p in ('percent', 'percent1', 'percent2'):
        got = b[p] if nt == 1 or p == 'percent2' else sorted(b[p])
        want = steps(nk) if p in parts else []
        if got != want:
            return 'progress of %d wavenumbers %s instead of %s' % (nk, got, want)
    # the 2-loop B term restarts the clock for the spectra that it computes itself
    if len(b['time']) != 1 or not least <= b['time'][0] <= wall + 1000.:
        return 'time %s of a calculation of %.1f ms' % (b['time'], wall)


def flags_of(calc):
    kw = scen.CALCS[calc][1]
    return 'P_%s_%s' % (kw['a'], kw['b']) if 'a' in kw else None


def check_run(text, calc, tab, k, nt, wall):
    blocks, bad = parse(text)
    if bad:
        return bad
    names = {'B2': [('S1dt', 'P_delta_theta'), ('S1tt', 'P_theta_theta')]}.get(calc, []) + [(calc, flags_of(calc))]
    runs, sets = [], []
    nested = calc == 'B2'
    for b in blocks:
        if b['block'] == 'lin':
            bad = head(b, tab[0])
        elif b['block'] == 'k':
            bad = head(b, k)
            if bad and nested:
                bad = head(b, tab[0])
        elif b['block'] == 'set':
            sets.append(b['what'])
        else:
            if len(runs) >= len(names):
                return 'more than %d calculations' % len(names)
            c, fl = names[len(runs)]
            bad = body(b, c, len(tab[0]) if c != calc else len(k), nt, fl, wall, 0. if calc == 'B2' or not len(k) else wall / 2)
            runs.append(c)
        if bad:
            return bad
    if len(runs) != len(names):
        return 'calculations %s instead of %s' % (runs, [n[0] for n in names])
    if sorted(sets) != (['P_delta_theta', 'P_theta_theta'] if calc[0] == 'B' else []):
        return 'spectra set: %s' % sets


def check_files(o, calc, directory, files):
    want = {'S1': {'debug_terms_spectrum_1loop.dat'}, 'S2': {'debug_terms_spectrum_2loop.dat'}, 'B': {'debug_spectra_B.dat'}}.get(kind(calc), set())
    if not want <= set(files):
        return 'files %s instead of %s' % (sorted(files), sorted(want))
    for f in want:
        data = files[f]
        if kind(calc) == 'B':
            spec = o.spectrum_lin
            cols = [spec['k']] + ([spec['pk'], spec['pk']] if calc == 'B1' else [o.spectrum_1loop_dt.pk(), o.spectrum_1loop_tt.pk()])
        else:
            cols = [o[c] for c in COLS[kind(calc)]]
        ref = np.array(cols).T
        try:
            got = np.array([[float(x) for x in line.split()] for line in data.decode().split('\n') if line.strip()]).reshape(-1, len(cols))
        except ValueError as e:
            return '%s: %s' % (f, e)
        if got.shape != ref.shape:
            return '%s: %s numbers instead of %s' % (f, got.shape, ref.shape)
        with np.errstate(invalid='ignore'):
            off = ~((np.abs(got - ref) <= 6e-7 + 1e-9 * np.abs(ref)) | (got == ref) | np.isnan(got) & np.isnan(ref))
        if off.any():
            i, j = np.argwhere(off)[0]
            return '%s: row %d, column %d is %r instead of %r' % (f, i, j, got[i, j], ref[i, j])


class Cap(C23.Capture):

    def read(self):
        self.files = {f: open(os.path.join(self.dir, f), 'rb').read() for f in os.listdir(self.dir)}
        return C23.Capture.read(self)


def check_calc(m, item):
    """Every number of wavenumbers and of threads, one object."""
    calc, tname, nks, nts = item
    viol, n = [], 0
    scen.fresh(m)
    STATE[0] = m
    tab = TABS[tname]
    with Cap() as cap:
        o = scen.new(m, calc)
        scen.tiny(o)
        o.set_verbosity('info')
        for nk in nks:
            for nt in nts:
                k = ks(nk)
                cap.read()
                o.set_pk_lin(*tab)
                text, files = cap.read()
                blocks, bad = parse(text)
                if bad or [b['block'] for b in blocks] != ['lin'] or head(blocks[0], tab[0]):
                    viol.append('%s, linear spectrum of %d points: %s %s' % (calc, len(tab[0]), bad, blocks))
                o.set_terms(k)
                text, files = cap.read()
                blocks, bad = parse(text)
                if bad or [b['block'] for b in blocks] != ['k'] or head(blocks[0], k):
                    viol.append('%s, %d wavenumbers: %s %s' % (calc, nk, bad, blocks))
                with Clock() as t:
                    o.run_terms(nthreads=nt, **scen.CALCS[calc][1])
                wall = t.ms
                text, files = cap.read()
                bad = check_run(text, calc, tab, k, nt, wall)
                if bad:
                    viol.append('%s, %d wavenumbers, %d threads: %s' % (calc, nk, nt, bad))
                if files:
                    viol.append('%s: files %s' % (calc, files))
                o.set_verbosity('debug')
                o.run_terms(nthreads=nt, **scen.CALCS[calc][1])
                cap.read()
                bad = check_files(o, calc, cap.dir, cap.files)
                if bad:
                    viol.append('%s, %d wavenumbers, %d threads, debugging: %s' % (calc, nk, nt, bad))
                o.set_verbosity('info')
                n += 1
    return {'viol': viol[:5], 'n': {'states': n, 'transitions': 4 * n}, 'samples': [{'calculation': calc, 'wavenumbers': nks[-1], 'threads': nts[-1], 'percent': steps(nks[-1]) if nks[-1] else []}]}


def check_rows(m, item):
    """Every short list of wavenumbers among ordinary ones, repeated ones and extremes, also with no power: one row for each."""
    calc, tname, depth = item
    viol, n = [], 0
    scen.fresh(m)
    STATE[0] = m
    tab = ROWS[tname]
    with Cap() as cap:
        o = scen.new(m, calc)
        scen.tiny(o)
        o.set_verbosity('debug')
        o.set_pk_lin(*tab)
        for size in range(depth + 1):
            for k in itertools.product(KS, repeat=size):
                o.set_terms(list(k))
                for nt in (1, 3) if size > 1 else (1,):
                    cap.read()
                    o.run_terms(nthreads=nt, **scen.CALCS[calc][1])
                    cap.read()
                    bad = check_files(o, calc, cap.dir, cap.files)
                    n += 1
                    if bad:
                        viol.append('%s, %s, wavenumbers %s, %d threads, debugging: %s' % (calc, tname, list(k), nt, bad))
        o.set_verbosity('quiet')
    return {'viol': viol[:5], 'n': {'states': n, 'transitions': n}}


def ops(calcs):
    out = []
    for i, c in enumerate(calcs):
        out += [('run', i, 1), ('run', i, 3), ('run', i, 0), ('k', i, 4 + i), ('k', i, 13), ('lin', i, 'b'), ('lin', i, 'c'), ('swap', i, None)]
    return out + [('mode', 0, 'quiet'), ('mode', 0, 'debug')]


def check_seq(m, item):
    """Every sequence of calls on two objects: each call reports the state of its own object."""
    calcs, first, depth = item
    viol, n, done = [], 0, 0
    for seq in itertools.product(ops(calcs), repeat=depth - 1):
        seq = (first,) + seq
        done += 1
        scen.fresh(m)
        STATE[0] = m
        with Cap() as cap:
            objs = [scen.new(m, c) for c in calcs]
            scen.tiny(objs[0])
            state = []
            objs[0].set_verbosity('quiet')
            for i, o in enumerate(objs):
                o.set_pk_lin(*TABS['a'])
                o.set_terms(ks(3 + i, i))
                state.append({'tab': TABS['a'], 'k': ks(3 + i, i), 'flags': None})
            objs[0].run_terms(nthreads=2, **scen.CALCS[calcs[0]][1])
            objs[0].set_verbosity('info')
            nt, mode = 2, 'info'
            cap.read()
            for op, i, v in seq:
                o, st = objs[i], state[i]
                bad = None
                if op == 'mode':
                    mode = 'info' if v == mode else v
                    o.set_verbosity(mode)
                    text, _ = cap.read()
                    bad = text and 'prints %r' % text[:80]
                elif op == 'lin':
                    st['tab'] = TABS[v]
                    o.set_pk_lin(*TABS[v])
                    text, _ = cap.read()
                    blocks, bad = parse(text)
                    if mode == 'info' and not bad:
                        bad = 'no report' if not blocks else head(blocks[-1], st['tab'][0])
                elif op == 'k':
                    st['k'] = ks(v, i)
                    o.set_terms(st['k'])
                    text, _ = cap.read()
                    blocks, bad = parse(text)
                    if mode == 'info' and not bad:
                        bad = 'no report' if not blocks else head(blocks[-1], st['k'])
                elif op == 'swap':      # the other object is set
                    for c in objs[1 - i:2 - i]:
                        c.set_terms(state[1 - i]['k'])
                    cap.read()
                else:
                    nt = v or nt
                    with Clock() as t:
                        o.run_terms(nthreads=v, **scen.CALCS[calcs[i]][1])
                    wall = t.ms
                    text, files = cap.read()
                    if mode == 'info':
                        bad = check_run(text, calcs[i], st['tab'], st['k'], nt, wall)
                    elif mode == 'debug':
                        bad = check_files(o, calcs[i], cap.dir, cap.files)
                n += 1
                if bad:
                    viol.append('%s on %s (verbosity %s), after %s: %s' % ((op, v), calcs[i], mode, list(seq), bad))
                    break
        if len(viol) >= 3:
            break
    return {'viol': viol, 'n': {'sequences': done, 'states': n, 'transitions': n}}


def run(ctx):
    q = ctx.quick
    items = []
    for calc in scen.CALCS:
        for tname in ('a',) if q else ('a', 'b', 'c'):
            for nt in (1, 3, 7) if q else (1, 2, 3, 5, 8, 16):
                for nks in ((1, 2, 3, 5, 8, 9, 10, 11, 12), (15, 19, 20, 21, 25), (29, 30, 47)) if q else ((0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10), (11, 12, 13, 14, 15, 16, 17, 18, 19), (20, 21, 25, 29), (30, 31, 39, 47), (55, 70)):
                    items.append((calc, tname, nks, (nt,)))
    items += [(calc, 'a', (101, 1201) if q else (101, 250, 999, 1001, 1201, 2300), (nt,)) for calc in scen.CALCS if calc != 'A2' for nt in (1, 4)]
    ctx.collect(items, ctx.pmap(check_calc, items, timeout=400, variant='clock'), 'reports')
    items = [(calc, tname, 2 if q or calc[0] == 'B' else 3) for calc in scen.CALCS if kind(calc) in ('S1', 'S2', 'B') for tname in ROWS]
    ctx.collect(items, ctx.pmap(check_rows, items, timeout=400, variant='clock'), 'rows')
    items = []
    pairs = [('S1dt', 'S1tt'), ('S1td', 'B2'), ('bias', 'B1'), ('A1', 'S2td'), ('A2', 'S2dd')]
    if not q:
        pairs += [('B1', 'B2'), ('S2tt', 'S1dd'), ('A1', 'A2'), ('bias', 'S2dt')]
    for calcs in pairs:
        for first in ops(calcs):
            items.append((calcs, first, 3 if not q and calcs in (('S1dt', 'S1tt'), ('bias', 'B1'), ('A1', 'S2td')) else 2))
    ctx.collect(items, ctx.pmap(check_seq, items, timeout=600, variant='clock'), 'sequences')
    ctx.cov['traces_validated_against_impl'] = ctx.counts.get('transitions', 0)
    ctx.cov['exhaustive'] = True
    ctx.cov['rule'] = 'state = (calculation, number of wavenumbers, number of threads, table) or (sequence of calls on two objects); every line printed and every number written compared with what the call did'
    ctx.assumptions.append('blocks that report the linear spectrum or the wavenumbers may be repeated before a calculation, if they are right')
