"""Writes mc/data/gamma2_tol.txt: accuracy allowed in each state of C16: three times the truncation error of the expansion in use
plus the rounding error seen when the same state is computed in other units, plus the convergence of the reference."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path[:0] = [V + '/mc', V + '/mc/props']
import numpy as np, h, C16
ctx = h.Ctx('C16', 'quick')
d = np.loadtxt(V + '/mc/data/gamma2.txt')
def f(m, rows):
    p = C16.Probe(m); out = []
    for x0, mu, q, fd, ft, conv in rows:
        line = []
        for fl, ref in (('delta', fd), ('theta', ft)):
            f2 = C16.tree(fl, x0, mu)
            v = np.array([p(k3, x0, mu, q, fl, fl)[1] / 2 / f2 for k3 in (0.1, 0.013, 1.7, 0.37, 0.0291, 0.5003)])
            dev = np.abs(v - ref).max(); spread = v.max() - v.min()
            line.append((dev, spread, ref))
        # the reference values are printed with 12 digits; the convergence column is relative
        out.append([3 * a + 30 * s + abs(r) * (1e-8 + 10 * conv) for a, s, r in line] + [a / abs(r) for a, s, r in line] + [s / abs(r) for a, s, r in line])
    return out
parts = [d[i::64].tolist() for i in range(64)]
res = ctx.pmap(f, parts)
out = np.zeros((len(d), 6))
for i, r in enumerate(res): out[i::64] = r
np.savetxt(V + '/mc/data/gamma2_tol.txt', out[:, :2], fmt='%.3e')
rel = out[:, :2] / np.abs(d[:, 3:5])
print(np.percentile(rel, [5, 25, 50, 75, 90, 95, 99, 100], axis=0)); print(np.percentile(out[:, 4:], [50, 90, 99, 100], axis=0)); print(ctx.errors[:1])
