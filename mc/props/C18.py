"""2-loop A term: propagator part against the projected regularized bispectrum; Monte-Carlo part point by point."""
import itertools
import numpy as np
import scen, refmodel
from C16 import Probe, tree
from C17 import Env


def make(m, tname):
    o = m.A2Loop()
    o.clear()
    o.set_verbosity('quiet')
    scen.tiny(o)
    o.set_pk_lin(*scen.table(tname, 70))
    return o


class Gamma2(object):
    """1-loop correction of the second-order propagator at any triangle, summed over a loop quadrature, from the kernel that C16
    decides; the triangle is given to it with its first two sides in decreasing order (it is symmetric)."""

    def __init__(self, m, loop):
        self.p, self.loop, self.cache = Probe(m), loop, {}

    def __call__(self, fl, k1, k2, k3):
        key = (fl, round(min(k1, k2), 12), round(max(k1, k2), 12), round(k3, 12))
        if key not in self.cache:
            a, b = min(k1, k2), max(k1, k2)
            x0 = a / k3
            mu = (1 + x0 * x0 - (b / k3)**2) / (2 * x0)
            f2 = tree(fl, x0, mu)
            g = self.loop[fl]
            units = (0.1, 0.37, 0.0291, 1.7)
            tot, err = 0., 0.
            for q, w, pk in zip(g.q, g.w, g.pk):
                v = np.array([self.p(u, x0, mu, q / k3, fl, fl)[1] / 2 / f2 for u in units]) * (w * q**3 * pk / (8 * np.pi**3))
                tot += v[0]
                err += 100 * (v.max() - v.min()) + 2e-6 * abs(v[0])      # rounding error of a kernel that cancels
            self.cache[key] = tot, err
        return self.cache[key]


def check_I(m, item):
    tname, nq, nmu, rng, n1, nd, nt, interpol, uv, ks = item
    env = Env(m)
    env.reset()
    env.points(np.full((1, 5), 0.999))           # a point outside the half domain: the Monte-Carlo part is zero
    tabk, tabp = scen.table(tname, 70)
    tab = refmodel.Table(tabk, tabp)
    o = make(m, tname)
    o.set_precision('A_2loop_I_q', n=nq, min=rng[0], max=rng[1])
    o.set_precision('A_2loop_I_mu', n=nmu)
    o.set_precision('gamma1_1loop_q', n=n1, min=5e-4, max=10.)
    o.set_precision('gamma2d_1loop_q', n=nd, min=0.02, max=2.)
    o.set_precision('gamma2t_1loop_q', n=nt, min=0.01, max=3.)
    o.set_precision('bispectrum_1loop_pk_lin', interpol=interpol)
    o.set_running_uvcutoff('bispectrum_1loop', uvcutoff=uv)
    o.set_running_uvcutoff('A_2loop', uvcutoff=0.77)
    o.set_terms(ks)
    o.run_terms(nthreads=1)
    got = o['pk'].reshape(len(ks), 5)
    g2 = Gamma2(m, {'delta': refmodel.GridQ(tab, nd, 0.02, 2.), 'theta': refmodel.GridQ(tab, nt, 0.01, 3.)})
    grid, grid1 = refmodel.GridQ(tab, nq, *rng), refmodel.GridQ(tab, n1, 5e-4, 10.)
    viol, n = [], 0
    for i, k in enumerate(ks):
        v, t = refmodel.A_2loop_I(tab, grid, nmu, interpol, uv, grid1, g2, k)
        r = scen.off(got[i], v, t)
        n += 5 * nq * nmu
        if r:
            viol.append('part with propagators, k=%.5g, table %s, %d x %d nodes on %s, loop nodes %d %d %d, spectrum %s, cutoff %s: component %s' % (k, tname, nq, nmu, rng, n1, nd, nt, interpol, uv, r))
    # reported spectrum and dispersion follow the settings of this calculation, not of the bispectrum
    r = scen.off(o['sigmad2'], tab.sigmad2(np.array(ks), 0.77), 1e-9 * tab.sigmad2(np.array(ks), 0.77).max())
    if r:
        viol.append('dispersion: ' + r)
    env.reset()
    return {'viol': viol, 'n': {'states': n, 'transitions': 1}, 'samples': [{'k': ks[-1], 'A': v.tolist(), 'nq': nq, 'nmu': nmu}]}


def axes(quick, seed=0):
    if quick:
        return [(.07, .31, .46, .57, .69), (.04, .38, .62, .91), (.08, .33, .52, .64, .9), (.07, .39, .72), (.04, .33, .61, .87)]
    return [(.02, .07, .2, .31, .38, .46, .52, .57, .63, .69, .85, .98), (.01, .12, .27, .38, .5, .62, .8, .97), (.03, .08, .21, .33, .43, .52, .58, .64, .77, .95), (.02, .2, .39, .55, .72, .96), (.04, .18, .33, .51, .61, .74, .87, .99)]


def check_points(m, item):
    tname, rng, interpol, uv, ks, batch, nbatch, quick, nthreads = item
    env = Env(m)
    tabk, tabp = scen.table(tname, 70)
    tab = refmodel.Table(tabk, tabp)
    o = make(m, tname)
    o.set_precision('A_2loop_I_q', n=1, min=.1, max=.2)      # no angle is left: the propagator part is zero
    o.set_precision('gamma1_1loop_q', n=1, min=.1, max=.2)
    lo, hi = (5e-4, 10.) if not rng else (rng if min(rng) > 0 else (tabk[0], tabk[-1]))
    if rng:
        o.set_precision('A_2loop_II_III_q', min=rng[0], max=rng[1], interpol='lin')
    o.set_precision('bispectrum_1loop_pk_lin', interpol=interpol)
    o.set_running_uvcutoff('bispectrum_1loop', uvcutoff=uv)
    us = np.array(list(itertools.product(*axes(quick))))[batch::nbatch]
    if batch < 3:       # the symmetric edge mu x = 1/2 from both sides, for one of the wavenumbers
        edge = []
        for x, eps, rest in itertools.product((0.55, 0.8, 1., 3., 20.), (-1e-2, -1e-4, -3e-6, 3e-6, 1e-4, 1e-2), ((.5, .52, .33), (.38, .21, .8))):
            edge.append((np.log(x * ks[batch] / lo) / np.log(hi / lo), (1 + 0.5 / x * (1 + eps)) / 2) + rest)
        us = np.concatenate([[u for u in edge if 0 < u[0] < 1 and u[1] < 1], us])
    viol, n, inside = [], 0, 0
    got = np.zeros((len(us), len(ks), 5))
    o.set_terms(ks)
    env.reset()
    for j, u in enumerate(us):
        env.points(u[None, :])
        o.run_terms(nthreads=nthreads)
        got[j] = o['pk'].reshape(len(ks), 5)
    # all the points of the batch in a single integration: the average of what they give one by one
    keep = us[:240]
    env.points(keep)
    o.run_terms(nthreads=nthreads)
    together = o['pk'].reshape(len(ks), 5)
    for i, k in enumerate(ks):
        r = scen.off(together[i], got[:len(keep), i].mean(axis=0), 1e-11 * np.abs(got[:len(keep), i]).mean(axis=0))
        if r:
            viol.append('Monte-Carlo part, k=%.5g, table %s: %d points in one integration do not give their average: component %s' % (k, tname, len(keep), r))
    for i, k in enumerate(ks):
        v, t, close, damp = refmodel.A_2loop_II_III_points(tab, interpol, uv, k, lo, hi, us)
        n += 5 * len(us)
        inside += int((v[0] != 0).sum())
        for c in range(5):
            g = np.where(close | (damp > 100), v[c], got[:, i, c])
            r = scen.off(g, v[c], 3e-12 * t[c])
            if r:
                j = int(r.split(']')[0][1:])
                viol.append('Monte-Carlo part, component %d, k=%.5g, table %s, range %s, spectrum %s, cutoff %s, point %s: %s' % (c, k, tname, rng, interpol, uv, us[j].tolist(), r))
        cut = damp > 101
        if cut.any() and np.abs(got[cut, i]).max() > 1e-25 * max(np.abs(got[:, i]).max(), 1e-30):
            viol.append('Monte-Carlo part, k=%.5g: a point with damping exp(-%.4g) contributes' % (k, damp[cut].min()))
    env.reset()
    return {'viol': viol[:10], 'n': {'states': n, 'inside_the_domain': inside, 'transitions': len(us)}, 'samples': [{'k': k, 'point': us[5].tolist(), 'contribution': v[:, 5].tolist()}]}


PTS = np.array([[.55, .3, .52, .3, .62], [.46, .7, .6, .61, .2], [.57, .2, .4, .44, .8], [.5, .52, .33, .61, .47]])


def check_schedules(m, item):
    kind, nthreads = item
    env = Env(m)
    o = make(m, 'cdm')
    o.set_precision('A_2loop_I_q', n=1, min=.1, max=.2)
    o.set_precision('gamma1_1loop_q', n=1, min=.1, max=.2)
    ks = [0.1, 0.03, 0.4]
    tab = refmodel.Table(*scen.table('cdm', 70))
    want = np.array([refmodel.A_2loop_II_III_points(tab, 'poly', 0.5, k, 5e-4, 10., PTS)[0].mean(axis=1) for k in ks])
    o.set_terms(ks)
    viol, n = [], 0
    if kind == 'order':
        cases = [(p, (-1,) * len(p), 0) for p in itertools.permutations(range(len(PTS)))]
    else:
        cases = [(range(len(PTS)), w, 2) for w in itertools.product((-1, 0, 1), repeat=len(PTS))]
    for order, owner, workers in cases:
        env.reset()
        env.points(PTS)
        env.schedule(order, owner, workers)
        o.run_terms(nthreads=nthreads)
        n += 1
        r = scen.off(o['pk'].reshape(3, 5), want, 1e-8 * np.abs(want).max(axis=1)[:, None])
        if r:
            viol.append('result depends on the schedule: order %s owner %s: %s' % (list(order), list(owner), r))
    if kind == 'order':      # many points with nearly the same contribution: all of them count
        us = PTS[0] + 1e-4 * np.array([[i % 5, i % 3, i % 7, i % 4, i % 8] for i in range(1, 49)])
        env.reset()
        env.points(us)
        o.run_terms(nthreads=nthreads)
        want = np.array([refmodel.A_2loop_II_III_points(tab, 'poly', 0.5, k, 5e-4, 10., us)[0].mean(axis=1) for k in ks])
        n += 1
        r = scen.off(o['pk'].reshape(3, 5), want, 1e-9 * np.abs(want).max(axis=1)[:, None])
        if r:
            viol.append('not the average over the sampling points: ' + r)
    env.reset()
    return {'viol': viol[:10], 'n': {'schedules': n, 'states': n * len(PTS) * len(ks), 'transitions': n}}


def run(ctx):
    q = ctx.quick
    items = [('order', 1), ('workers', 1)]
    ctx.collect(items, ctx.pmap(check_schedules, items), 'schedules')
    items = []
    ks = [0.003, 0.0099, 0.012, 0.07, 0.31]
    for tname in ('cdm', 'narrow'):
        for nq, nmu in ((2, 1), (2, 2), (3, 2), (4, 2)) if q else ((2, 1), (2, 2), (3, 2), (4, 2), (5, 2), (6, 3), (8, 2)):
            for rng in ((5e-4, 10.), (-1., -1.), (0.01, 1.), (0.02, 0.3), (-1., 1.), (0., 0.)):
                for n1, nd, nt, interpol, uv in ((3, 1, 1, 'poly', 0.5), (1, 2, 1, 'lin', 0.3), (4, 1, 2, 'poly', 2.)):
                    items.append((tname, nq, nmu, rng, n1, nd, nt, interpol, uv, ks))
    ctx.collect(items, ctx.pmap(check_I, items), 'I')
    items = []
    nb = 8 if q else 48
    for tname, rng, interpol, uv in (('cdm', None, 'poly', 0.5), ('cdm', (0.01, 1.), 'lin', 0.3), ('narrow', (-1., -1.), 'poly', 2.), ('narrow', (-1., 1.), 'lin', 0.5), ('cdm', (0., 3.), 'lin', 0.5)) + (() if q else (('cdm', (1e-3, 30.), 'poly', 0.1), ('irregular', None, 'lin', 1.))):
        for b in range(nb):
            items.append((tname, rng, interpol, uv, [0.09, 0.005, 0.6], b, nb, q, 3 if tname == 'narrow' else 1))
    ctx.collect(items, ctx.pmap(check_points, items, timeout=400), 'II+III')
    ctx.cov['traces_validated_against_impl'] = ctx.counts.get('transitions', 0)
    ctx.cov['exhaustive'] = True
    ctx.cov['rule'] = 'state = (component, node or sampling point, wavenumber, spectrum, settings); schedule = order of evaluation and worker of each point'
    ctx.assumptions.append('the 1-loop kernel of the second-order propagator is taken from the library (C16 decides it); below 1e-2 (3e-2 for the third side) the propagators are their tree-level values')
