"""Operations whose memory accesses are watched: shared by the address-sanitizer process and the heap monitor of the controlled runtime (see C07)."""
import ctypes, gc
import numpy as np
import scen


def ktable(n, kind='cdm'):
    k = np.exp(np.linspace(np.log(1e-3), np.log(10.), n))
    return k, scen.cdm(k)


def wavenumbers(nk, tk):
    base = [0.23, tk[0], tk[-1], 1e-5, 300., 0.05, tk[len(tk) // 2], 1e-3 * 1.0000001]
    out = (base * (nk // len(base) + 1))[:nk]
    return np.array(out, dtype='f8')


def nodes(p, n):
    for key in scen.TINY:
        p.set_precision(key, n=n)


def operate(m, op, objs):
    """One operation; objs is the dictionary of live objects."""
    p = m.PyRegPT()
    name = op[0]
    if name == 'quiet':
        p.set_verbosity(op[1])
    elif name == 'nodes':
        nodes(p, op[1])
    elif name == 'range':
        for key in scen.QUADS_Q + scen.QUADS_MC:
            p.set_precision(key, min=op[1], max=op[2])
    elif name == 'one':
        p.set_precision(op[1], **op[2])
    elif name == 'pklin':
        p.set_precision('all_pklin', interpol=op[1])
    elif name == 'interpol':
        p.set_precision('all', interpol=op[1])
    elif name == 'cut':
        p.set_running_uvcutoff('all', uvcutoff=op[1])
    elif name == 'clear':
        p.clear()
        p.set_verbosity('quiet')
    elif name == 'new':
        _, slot, calc, ntab, nk = op
        o = objs[slot] = scen.new(m, calc)
        o.calc_ = calc
        t = ktable(ntab)
        o.set_pk_lin(*t)
        o.set_terms(wavenumbers(nk, t[0]))
    elif name == 'pk':
        if op[1] in objs:
            objs[op[1]].set_pk_lin(*ktable(op[2]))
    elif name == 'terms':
        if op[1] in objs:
            objs[op[1]].set_terms(wavenumbers(op[2], ktable(5)[0]))
    elif name == 'k':
        objs[op[1]]['k'][:] = op[2]
    elif name == 'run':
        if op[1] in objs:
            objs[op[1]].run_terms(nthreads=op[2], **scen.CALCS[objs[op[1]].calc_][1])
    elif name == 'own':         # the B term with the 1-loop spectra that the library assembles itself
        o = objs[op[1]]
        e = np.zeros(1)
        a = np.ctypeslib.ndpointer(dtype='f8')
        o.regpt.set_spectra_B.argtypes = (ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t, a, a)
        for field in op[3]:
            o.regpt.set_spectra_B(field.encode(), b'theta', 0, e, e)
        o.regpt.run_terms_B(ctypes.c_size_t(op[2]))
    elif name == 'drop':
        objs.pop(op[1], None)
        gc.collect()
    elif name == 'dropall':
        objs.clear()
        gc.collect()
    elif name == 'deep':
        if op[1] in objs:
            c = objs[op[1]].calc_
            objs[op[2]] = objs[op[1]].deepcopy()
            objs[op[2]].calc_ = c
    elif name == 'subset':
        if op[1] in objs:
            c, lin = objs[op[1]].calc_, objs[op[1]].spectrum_lin
            objs[op[2]] = objs[op[1]][[i for i in op[3] if i < objs[op[1]].size]]
            objs[op[2]].calc_ = c
            objs[op[2]].set_spectrum_lin(lin)
    elif name == 'find':
        if op[1] in objs:
            o = objs[op[1]]
            for i in ('poly', 'lin'):
                o.find_pk_lin(wavenumbers(op[2], o.spectrum_lin.k), interpol=i)
            for c in (0., 0.5, 1e5):
                o.calc_running_sigmad2(wavenumbers(op[2], o.spectrum_lin.k), uvcutoff=c)
    elif name == 'gauss':
        x, w = p.nodes_weights_gauss_legendre(-1., 1., op[1])
        assert len(x) == op[1]
    elif name == 'poly':
        x = np.arange(op[1]) * 1.
        for v in (x[0], x[-1], 0.3, -1., op[1] + 1.):
            p.interpol_poly(v, x, x**2)
            p.interpol_lin(v, x, x**2)
    else:
        raise ValueError(op)


def sequence(m, ops, after=None):
    objs = {}
    for i, op in enumerate(ops):
        operate(m, op, objs)
        if after:
            r = after(i, op)
            if r:
                return r
    return None
