"""Third-order term: the integrator is replaced by one whose choices (points, order, workers) are enumerated here."""
import ctypes, itertools
import numpy as np
import h, scen, refmodel

D = ctypes.POINTER(ctypes.c_double)


class Env(object):
    """Handle on the stand-in of the Monte-Carlo integrator in the library under test."""

    def __init__(self, m):
        self.l = h.lib(m)

    def points(self, u):
        u = np.ascontiguousarray(u, 'f8')
        self.n = len(u)
        self.l.cubaenv_set_points(u.ctypes.data_as(D), ctypes.c_int(len(u)), ctypes.c_int(u.shape[1]))

    def schedule(self, order, owner, workers):
        o, w = np.array(order, 'i4'), np.array(owner, 'i4')
        I = ctypes.POINTER(ctypes.c_int)
        self.l.cubaenv_set_schedule(o.ctypes.data_as(I), w.ctypes.data_as(I), ctypes.c_int(len(o)), ctypes.c_int(workers))

    def log(self):
        self.l.cubaenv_log(ctypes.c_int(1))

    def reset(self):
        self.l.cubaenv_reset()

    def get(self, ncomp=1):
        out = np.zeros((65536, ncomp))
        n = self.l.cubaenv_get_log(out.ctypes.data_as(D), ctypes.c_int(65536))
        return out[:n]


def obj(m, tname, rng, interpol='poly'):
    o = m.Spectrum2Loop()
    o.set_verbosity('quiet')
    scen.tiny(o)
    for key in ('gamma1_1loop_q', 'gamma1_2loop_q', 'gamma2_tree_q', 'gamma2d_1loop_q', 'gamma2t_1loop_q'):
        o.set_precision(key, n=1, min=.1, max=.2)
    if rng:
        o.set_precision('gamma3_tree_q', min=rng[0], max=rng[1], interpol=interpol)
    else:
        o.set_precision('gamma3_tree_q')
    o.set_pk_lin(*scen.table(tname, 70))
    return o


def cube(axes, batch, nbatch):
    u = np.array(list(itertools.product(*axes)))
    return u[batch::nbatch]


def axes(quick):
    if quick:
        return [(.04, .37, .52, .63, .96), (.03, .31, .5, .94), (.02, .26, .5, .81), (.08, .41, .52, .61, .93), (.06, .35, .5, .88)]
    return [(.04, .2, .37, .48, .52, .57, .63, .8, .96), (.01, .13, .31, .5, .72, .94), (.02, .15, .26, .5, .68, .81, .99), (.08, .23, .41, .52, .555, .61, .76, .93), (.06, .2, .35, .5, .71, .88, .995)]


def special(k, lo, hi):
    """Points where two of the three wavevectors nearly cancel, or one is close to k: the singular corners of the kernel."""
    L = np.log(hi / lo)
    out = []
    for e in (1e-1, 1e-3, 1e-5):
        for p in (k, 0.5 * k, 0.3 * k, 2 * k):
            if not lo < p < hi:
                continue
            up = np.log(p / lo) / L
            ue = np.log(max(e * k, lo * 1.01) / lo) / L
            if up + e > 1 or ue > 1:
                continue
            for q in (up, up + e, ue):
                for t1, f1, t2 in ((e, .25, .5), (.5, e, .5), (.3, .5 + e, .7), (.3, .5, .7 - e), (.5 + e, .5, .5), (e, .1, e), (1 - e, .1, 1 - e)):
                    out.append((up, t1, f1, q, t2))
                    out.append((ue, t1, f1, up, t2))
    return np.array(out).reshape(-1, 5)


def check_points(m, item):
    (a, b), tname, rng, interpol, ks, batch, nbatch, quick, nthreads = item
    env = Env(m)
    o = obj(m, tname, rng, interpol)
    tabk, tabp = scen.table(tname, 70)
    tab = refmodel.Table(tabk, tabp)
    lo, hi = (5e-4, 10.) if not rng else (rng if min(rng) > 0 else (tabk[0], tabk[-1]))
    viol, inside, n = [], 0, 0
    us = cube(axes(quick), batch, nbatch)
    if batch == 0:
        us = np.concatenate([us] + [special(k, lo, hi) for k in ks])
    for u in np.array_split(us, len(us) // 3000 + 1):
        env.reset()
        env.points(u)
        env.log()
        o.set_terms(ks)
        o.run_terms(a=a, b=b, nthreads=nthreads)
        got = env.get()[:, 0].reshape(len(ks), len(u))
        for i, k in enumerate(ks):
            v, t, mag, close = refmodel.gamma3_points(tab, interpol, k, lo, hi, u, a, b)
            n += len(u)
            inside += int((v != 0).sum())
            g = np.where(close, v, got[i])
            r = scen.off(g, v, t)
            if r:
                j = int(r.split(']')[0][1:])
                viol.append('fields %s,%s k=%.6g table %s range %s interpolation %s point %s: %s' % (a, b, k, tname, rng, interpol, u[j].tolist(), r))
            r = scen.off(o['pk_gamma3_tree'][i], 6 * got[i].mean() / (2 * np.pi)**6, 1e-10 * 6 * np.abs(got[i]).mean() / (2 * np.pi)**6)
            if r:
                viol.append('term is not six times the average over (2 pi)^6, fields %s,%s k=%.6g: %s' % (a, b, k, r))
    env.reset()
    return {'viol': viol[:10], 'n': {'states': n, 'inside_the_domain': inside, 'transitions': 1}, 'samples': [{'fields': [a, b], 'k': ks[0], 'point': u[3].tolist(), 'integrand': float(v[3])}]}


PTS = np.array([[.55, .3, .2, .5, .62], [.37, .7, .6, .61, .2], [.52, .2, .9, .44, .8], [.63, .52, .33, .61, .47], [.5, .11, .05, .58, .9]])


def check_schedules(m, item):
    """Every order of evaluation and every assignment of the points to the master and two workers."""
    kind, a, b, nthreads = item
    env = Env(m)
    o = obj(m, 'cdm', (1e-2, 2.))
    ks = [0.1, 0.03, 0.4]
    viol, n = [], 0
    ref = None
    if kind == 'order':
        cases = [(p, (-1,) * len(p), 0) for p in itertools.permutations(range(len(PTS)))]
    else:
        cases = [(range(len(PTS)), w, 2) for w in itertools.product((-1, 0, 1), repeat=len(PTS))]
    for order, owner, workers in cases:
        env.reset()
        env.points(PTS)
        env.schedule(order, owner, workers)
        env.log()
        o.set_terms(ks)
        o.run_terms(a=a, b=b, nthreads=nthreads)
        got = env.get()[:, 0]
        n += 1
        if ref is None:
            ref = got
            tab = refmodel.Table(*scen.table('cdm', 70))
            want = np.concatenate([refmodel.gamma3_points(tab, 'poly', k, 1e-2, 2., PTS, a, b)[0] for k in ks])
            r = scen.off(ref, want, 1e-7 * np.abs(want))
            if r:
                viol.append('fields %s,%s: %s' % (a, b, r))
        r = scen.off(got, ref, 1e-12 * np.abs(ref))
        if r:
            viol.append('integrand depends on the schedule: fields %s,%s order %s owner %s: %s' % (a, b, list(order), list(owner), r))
    if kind == 'order':      # many points with nearly the same integrand: all of them count
        us = PTS[0] + 1e-4 * np.array([[i % 5, i % 3, i % 7, i % 4, i % 8] for i in range(1, 49)])
        env.reset()
        env.points(us)
        o.run_terms(a=a, b=b, nthreads=nthreads)
        want = np.array([refmodel.gamma3_points(tab, 'poly', k, 1e-2, 2., us, a, b)[0].mean() for k in ks]) * 6 / (2 * np.pi)**6
        n += 1
        r = scen.off(o['pk_gamma3_tree'], want, 1e-9 * np.abs(want))
        if r:
            viol.append('fields %s,%s: not the average over the sampling points: %s' % (a, b, r))
    env.reset()
    return {'viol': viol[:10], 'n': {'schedules': n, 'states': n * len(PTS) * len(ks), 'transitions': n}}


def run(ctx):
    q = ctx.quick
    items = [('order', a, b, 1) for a, b in scen.PAIRS] + [('workers', a, b, 1) for a, b in (scen.PAIRS[:2] if q else scen.PAIRS)]
    ctx.collect(items, ctx.pmap(check_schedules, items), 'schedules')
    items = []
    for ab in scen.PAIRS:
        for tname in ('cdm', 'narrow'):
            for rng, interpol in ((None, 'poly'), ((-1., -1.), 'poly'), ((1e-2, 2.), 'poly'), ((0.05, 0.4), 'lin'), ((1e-5, 50.), 'lin'), ((-1., 3.), 'poly'), ((0., 0.5), 'poly')):
                if q and tname == 'narrow' and rng and rng[0] > 0:
                    continue
                for batch in range(1 if q else 8):
                    items.append((ab, tname, rng, interpol, [0.1, 0.004, 0.75] if q else [0.1, 0.004, 0.75, 3., 3e-4], batch, 1 if q else 8, q, 3 if tname == 'narrow' else 1))
    ctx.collect(items, ctx.pmap(check_points, items), 'points')
    ctx.cov['traces_validated_against_impl'] = ctx.counts.get('transitions', 0)
    ctx.cov['exhaustive'] = True
    ctx.cov['rule'] = 'state = (fields, wavenumber, range, spectrum, sampling point); schedule = (order of evaluation, worker of each point): all orders of 5 points, all assignments to a master and 2 workers'
    ctx.assumptions.append('the Monte-Carlo integrator is replaced by an environment that may choose any points, order and workers; its convergence is not part of this repository')
