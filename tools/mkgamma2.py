"""Writes mc/data/gamma2.txt: reference angular averages of the fourth-order kernels for C16 (uses tools/f4avg.c)."""
import os, subprocess, sys, tempfile
import numpy as np
HERE = os.path.dirname(os.path.abspath(__file__))
pts = set()
for x0 in (0.003, 0.02, 0.07, 0.2, 0.45, 0.7, 0.97, 1.4, 3., 12., 60., 250.):
    hi = 0.5 / x0 if x0 >= 0.5 else 1.
    for t in (-0.85, -0.5, 0., 0.25, 0.6, 0.9, 0.985):
        mu = (hi - 1.) / 2. + t * (hi + 1.) / 2.
        k3, k1 = 1., x0
        k2 = np.sqrt(1. + x0 * x0 - 2. * x0 * mu)
        ks = (k1, k2, k3)
        qs = list(np.exp(np.linspace(np.log(0.004 * min(ks)), np.log(300. * max(ks)), 19)))
        for k in ks:
            qs += [k * (1 + s * d) for s in (1, -1) for d in (5e-4, 2e-3, 0.05)]
        for thr in (0.1 * min(ks), 10. * max(ks), 50. * min(k1, k2), 100. * k3):
            qs += [0.985 * thr, 1.015 * thr]
        for q in qs:
            # expansions for very unequal scales are bounded elsewhere
            pts.add((x0, float(mu), float(q)))
# more triangles, most of them squeezed: every regime is then met in the middle of its domain too
for x0 in (0.13, 0.32, 0.55, 5.5, 18., 25., 35., 48., 120.):
    hi = 0.5 / x0 if x0 >= 0.5 else 1.
    for t in (-0.95, -0.3, 0.4, 0.8):
        mu = (hi - 1.) / 2. + t * (hi + 1.) / 2.
        k1, k2 = x0, np.sqrt(1. + x0 * x0 - 2. * x0 * mu)
        ks = (k1, k2, 1.)
        qs = list(np.exp(np.linspace(np.log(0.02 * min(ks)), np.log(60. * max(ks)), 14)))
        lo, up = max(100., 1.3 * max(ks)), 9.9 * max(ks)
        if x0 > 10 and lo < up:
            qs += list(np.exp(np.linspace(np.log(1.002 * lo), np.log(up), 7)))
        pts.update((x0, float(mu), float(q)) for q in qs)
old = {}
if os.path.exists(os.path.join(os.path.dirname(HERE), 'mc', 'data', 'gamma2.txt')):
    old = {tuple(float(t) for t in l.split()[:3]): l for l in open(os.path.join(os.path.dirname(HERE), 'mc', 'data', 'gamma2.txt')) if l[0] != '#'}
pts = sorted(pts)
print(len(pts), 'points,', len([p for p in pts if p not in old]), 'of them new')
allpts, pts = pts, [p for p in pts if p not in old]
exe = os.path.join(tempfile.mkdtemp(), 'f4avg')
subprocess.check_call(['gcc', '-O3', '-march=native', '-o', exe, os.path.join(HERE, 'f4avg.c'), '-lm'])
def job(part):
    inp = ''.join('%.17g %.17g 1 %.17g\n' % (x0, np.sqrt(1. + x0 * x0 - 2. * x0 * mu), q) for x0, mu, q in part)
    return subprocess.run([exe], input=inp, capture_output=True, text=True).stdout
from concurrent.futures import ThreadPoolExecutor
parts = [pts[i::64] for i in range(64)]
with ThreadPoolExecutor(8) as ex:
    outs = list(ex.map(job, parts))
with open(os.path.join(os.path.dirname(HERE), 'mc', 'data', 'gamma2.txt'), 'w') as f:
    f.write('# k1 mu q density velocity convergence (k3=1, mu cosine of k1 and k3)\n')
    lines = [old[p] for p in allpts if p in old]
    for part, o in zip(parts, outs):
        for (x0, mu, q), l in zip(part, o.splitlines()):
            w = l.split()
            lines.append('%.17g %.17g %.17g %s %s %s\n' % (x0, mu, q, w[4], w[5], w[6]))
    f.writelines(sorted(lines, key=lambda l: [float(t) for t in l.split()[:3]]))
print(len(lines))
