"""1-loop correction of the second-order propagator: pointwise against angular averages of the fourth-order kernels, then integrated."""
import os
import numpy as np
import scen, refmodel

DATA = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'data')


class Probe(object):
    """The kernel at one triangle (k1 k2 k3) and one loop wavenumber, read from the assembled 2-loop terms of quadratures
    that have one node each: k1 = x0 k3 is the only loop wavenumber of the tree quadrature that contributes (of two nodes the
    outer one has no angle left), mu its only angle."""

    def __init__(self, m):
        self.o = o = m.Spectrum2Loop()
        o.set_verbosity('quiet')
        tk, tp = scen.table('power', 60, 1e-5, 1e5)
        o.set_pk_lin(tk, tp)
        self.tab = refmodel.Table(tk, tp)
        scen.tiny(o)
        for key in ('gamma1_1loop_q', 'gamma1_2loop_q'):
            o.set_precision(key, n=1, min=.1, max=.2)
        o.set_precision('gamma2_tree_mu', n=1)

    def __call__(self, k3, x0, mu, q, a, b):
        """(tree*tree, tree*1-loop, 1-loop*1-loop) at the triangle |k3-q|, x0 k3, k3 and the loop wavenumber q k3."""
        o = self.o
        f = k3**3 / (2 * np.pi**2) * x0**3
        hi = 0.5 / x0 if x0 >= .5 else 1.
        # the range of angles is [lo, hi] with lo >= -1: mu is the only node, or the first of n
        for n in range(1, 12):
            t, wt = refmodel.leggauss(n)
            t = (t + 1) / 2
            lo = (mu - t[0] * hi) / (1 - t[0])
            if lo >= -1 - 1e-12:
                break
        lo = max(lo, -1.)
        rest = np.zeros(3)
        for i in range(1, n):
            rest += self(k3, x0, lo + t[i] * (hi - lo), q, a, b) * self.weight(k3, x0, lo + t[i] * (hi - lo), q) * (wt[i] / wt[0])
        x1 = np.sqrt(1 + x0 * x0 - 2 * x0 * lo)
        hh = np.sqrt(3) * .5 * np.log(x1 / x0)
        mid = .5 * np.log(x1 * x0)
        o.set_precision('gamma2_tree_mu', n=n)
        o.set_precision('gamma2_tree_q', n=2, min=k3 * np.exp(mid - hh), max=k3 * np.exp(mid + hh))
        for c in 'dt':
            o.set_precision('gamma2%s_1loop_q' % c, n=1, min=q * k3 / 1.2, max=q * k3 * 1.2)
        o.set_terms([k3])
        o.run_terms(a=a, b=b, nthreads=1)
        got = np.array([o['pk_gamma2_tree_tree'][0], o['pk_gamma2_tree_1loop'][0], o['pk_gamma2_1loop_1loop'][0]]) / (f * hh * (hi - lo) / 2 * wt[0])
        return (got - rest) / self.weight(k3, x0, mu, q)

    def weight(self, k3, x0, mu, q):
        kq = k3 * np.sqrt(1 + x0 * x0 - 2 * x0 * mu)
        pp = 2 * self.tab.find(np.array([x0 * k3]))[0] * self.tab.find(np.array([kq]))[0]
        g = 2 * np.log(1.2) * (q * k3)**3 * self.tab.find(np.array([q * k3]))[0] / (8 * np.pi**3)
        return pp * g**np.arange(3)


def tree(fl, x0, mu):
    return float(refmodel.F2(fl, 1 + x0 * x0 - 2 * x0 * mu, x0**2, x0 * mu - x0 * x0))


def load():
    d = np.loadtxt(os.path.join(DATA, 'gamma2.txt'))
    t = np.loadtxt(os.path.join(DATA, 'gamma2_tol.txt'))
    assert len(d) == len(t)
    return d, t


def check_points(m, item):
    rows, scales = item
    p = Probe(m)
    viol, n = [], 0
    samples = []
    for x0, mu, q, fd, ft, td, tt in rows:
        ref = {'delta': fd, 'theta': ft}
        tol = {'delta': td, 'theta': tt}
        f2 = {fl: tree(fl, x0, mu) for fl in ref}
        for k3 in scales:
            for a, b in scen.PAIRS:
                t0, t1, t11 = p(k3, x0, mu, q, a, b)
                n += 1
                where = 'fields %s,%s, triangle sides %.6g %.6g 1, loop wavenumber %.6g (unit %.3g)' % (a, b, np.sqrt(1 + x0 * x0 - 2 * x0 * mu), x0, q, k3)
                r = scen.off(t0, f2[a] * f2[b], 1e-8 * abs(f2[a] * f2[b]) + 1e-9)
                if r:
                    viol.append('tree-level product, %s: %s' % (where, r))
                e1 = f2[a] * ref[b] + f2[b] * ref[a]
                r = scen.off(t1, e1, abs(f2[a]) * tol[b] + abs(f2[b]) * tol[a] + 1e-8 * (abs(f2[a] * ref[b]) + abs(f2[b] * ref[a])))
                if r:
                    viol.append('tree x 1-loop, %s: %s' % (where, r))
                r = scen.off(t11, ref[a] * ref[b], abs(ref[a]) * tol[b] + abs(ref[b]) * tol[a] + tol[a] * tol[b] + 1e-8 * abs(ref[a] * ref[b]))
                if r:
                    viol.append('1-loop x 1-loop, %s: %s' % (where, r))
        if len(samples) < 1:
            samples.append({'x': x0, 'mu': mu, 'q': q, 'reference': ref, 'tolerance': tol})
    return {'viol': viol[:20], 'n': {'states': 3 * n, 'transitions': n}, 'samples': samples}


def integrated(m, item):
    """Whole terms at small quadratures: sums over the nodes of the kernel that check_points decides."""
    (a, b), nq, nmu, rng, nl, lrng, il, k = item
    p = Probe(m)
    tabk, tabp = scen.table('cdm', 70)
    tab = refmodel.Table(tabk, tabp)
    grid = refmodel.GridQ(tab, nq, *rng)
    loop = {fl: refmodel.GridQ(tab, nl[fl], *lrng[fl], il) for fl in nl}
    L = refmodel.Loop(tab, grid, nmu, 'poly', k, True)
    f, g, e = {}, {}, {}
    for fl in {a, b}:
        f[fl] = refmodel.F2(fl, L.kq**2, L.q**2, k * L.q * L.mu - L.q**2)
        g[fl], e[fl] = np.zeros(len(L.q)), np.zeros(len(L.q))
        for i in range(len(L.q)):
            f2 = tree(fl, L.x[i], L.mu[i])
            if L.w[i] < 1e-9:   # the outermost node has no angle left
                continue
            for q, w, pk in zip(loop[fl].q, loop[fl].w, loop[fl].pk):
                v = [p(u, L.x[i], L.mu[i], q / k, fl, fl)[1] / 2 / f2 * w * q**3 * pk / (8 * np.pi**3) for u in (0.1, 0.37)]
                g[fl][i] += v[0]
                e[fl][i] += 10 * abs(v[0] - v[1]) + 1e-6 * abs(v[0])
    o = m.Spectrum2Loop()
    scen.tiny(o)
    o.set_pk_lin(tabk, tabp)
    o.set_precision('gamma2_tree_q', n=nq, min=rng[0], max=rng[1])
    o.set_precision('gamma2_tree_mu', n=nmu)
    for fl in nl:
        key = 'gamma2%s_1loop_q' % fl[0]
        o.set_precision(key)
        if nl[fl] != 100:
            o.set_precision(key, n=nl[fl], min=lrng[fl][0], max=lrng[fl][1], interpol=il)
    o.set_terms([k])
    o.run_terms(a=a, b=b, nthreads=1)
    pp = 2 * L.pq * L.pkq
    n3 = k**3 / (2 * np.pi**2)
    viol = []
    for col, v, t in (('pk_gamma2_tree_1loop', f[a] * g[b] + f[b] * g[a], np.abs(f[a]) * e[b] + np.abs(f[b]) * e[a]),
                      ('pk_gamma2_1loop_1loop', g[a] * g[b], np.abs(g[a]) * e[b] + np.abs(g[b]) * e[a] + e[a] * e[b])):
        s, err = L.sum(pp * v, pp * (t + 1e-7 * np.abs(v)))
        r = scen.off(o[col], [n3 * s], [n3 * err])
        if r:
            viol.append('%s, fields %s,%s, k=%.4g, tree quadrature %d x %d on %s, loop quadrature %s on %s (%s): %s' % (col, a, b, k, nq, nmu, rng, nl, lrng, il, r))
    return {'viol': viol, 'n': {'states': 2 * len(L.q) * sum(nl.values()), 'transitions': 1}}


def run(ctx):
    d, t = load()
    rows = np.column_stack([d[:, :5], t])
    scales = [0.1] if ctx.quick else [0.1, 0.013, 1.7]
    items = [(rows[i::64].tolist(), scales) for i in range(64)]
    ctx.collect(items, ctx.pmap(check_points, items), 'kernel')
    items = []
    for ab in scen.PAIRS:
        for k in (0.007, 0.13, 1.1):
            for nq, nmu in ((2, 1), (3, 2), (4, 3)) if ctx.quick else ((2, 1), (3, 2), (4, 3), (5, 4), (7, 5)):
                for nd, nt, lr in ((1, 2, (5e-4, 10.)), (3, 2, (0.02, 2.)), (2, 4, (-1., -1.)), (5, 3, (0.1, 0.3))):
                    items.append((ab, nq, nmu, (5e-4, 10.), {'delta': nd, 'theta': nt}, {'delta': lr, 'theta': (lr[0] * 1.5 if lr[0] > 0 else -1., lr[1])}, 'lin' if nd == 3 else 'poly', k))
            # the documented defaults of the loop quadratures: 100 nodes
            items.append((ab, 2, 2, (5e-3, 3.), {'delta': 100, 'theta': 100}, {'delta': (5e-4, 10.), 'theta': (5e-4, 10.)}, 'poly', k))
    ctx.collect(items, ctx.pmap(integrated, items), 'integral')
    ctx.cov['triangles_and_loop_wavenumbers'] = len(rows)
    ctx.cov['traces_validated_against_impl'] = ctx.counts.get('transitions', 0)
    ctx.cov['exhaustive'] = True
    ctx.cov['rule'] = 'state = (field pair, product, triangle, loop wavenumber); both sides of every border between regimes and every regime'
    ctx.assumptions.append('reference: angular averages of the recursion F4, G4 (tools/f4avg.c), converged to better than the tolerance; the accuracy allowed in each state is that of the expansion in use there')
