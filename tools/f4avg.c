/* Angular averages 24 pi <F4sym(k1,k2,q,-q)>, same for G4, over the direction of q: the reference for C16.
 * stdin: lines "k1 k2 k3 q" (k3 = |k1+k2|); stdout: same numbers, density and velocity averages, and the change on refinement. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
typedef double R;
typedef struct { R x, y, z; } V;
static inline V add(V a, V b) { V c = {a.x + b.x, a.y + b.y, a.z + b.z}; return c; }
static inline R dot(V a, V b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static R tiny2;
/* unsymmetrised kernels, standard recursion */
static void FG(int n, const V *q, R *F, R *G)
{
	if (n == 1) { *F = *G = 1; return; }
	R f = 0, g = 0;
	for (int m = 1; m < n; m++) {
		R Fa, Ga, Fb, Gb;
		V a = {0, 0, 0}, b = {0, 0, 0};
		for (int i = 0; i < m; i++) a = add(a, q[i]);
		for (int i = m; i < n; i++) b = add(b, q[i]);
		R a2 = dot(a, a), b2 = dot(b, b), ab = dot(a, b);
		if (a2 < tiny2 || b2 < tiny2) continue;   /* kernels of momenta that sum to zero vanish */
		FG(m, q, &Fa, &Ga);
		FG(n - m, q + m, &Fb, &Gb);
		R al = 1 + ab / a2, be = (a2 + b2 + 2 * ab) * ab / (2 * a2 * b2);
		f += Ga * ((2 * n + 1) * al * Fb + 2 * be * Gb);
		g += Ga * (3 * al * Fb + 2 * n * be * Gb);
	}
	R d = (2 * n + 3) * (n - 1);
	*F = f / d; *G = g / d;
}
static int perms[24][4], np = 0;
static void mk(void)
{
	for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) for (int c = 0; c < 4; c++) for (int d = 0; d < 4; d++)
		if (a != b && a != c && a != d && b != c && b != d && c != d) { perms[np][0] = a; perms[np][1] = b; perms[np][2] = c; perms[np++][3] = d; }
}
static void sym(V k1, V k2, V q, R *F, R *G)
{
	V v[4] = {k1, k2, q, {-q.x, -q.y, -q.z}}, w[4];
	R f, g, sf = 0, sg = 0;
	for (int p = 0; p < 24; p++) { for (int i = 0; i < 4; i++) w[i] = v[perms[p][i]]; FG(4, w, &f, &g); sf += f; sg += g; }
	*F = sf / 24; *G = sg / 24;
}
static void leg(int n, R *x, R *w)
{
	for (int i = 0; i < n; i++) {
		long double z = cosl(3.14159265358979323846264338327950288L * (i + .75L) / (n + .5L)), pp = 1, z1;
		int it = 0;
		do { long double p1 = 1, p2 = 0; for (int j = 0; j < n; j++) { long double p3 = p2; p2 = p1; p1 = ((2 * j + 1) * z * p2 - j * p3) / (j + 1); }
			pp = n * (z * p1 - p2) / (z * z - 1); z1 = z; z = z1 - p1 / pp; } while (fabsl(z - z1) > 1e-18L && ++it < 50);
		x[i] = -z; w[i] = 2 / ((1 - z * z) * pp * pp);
	}
}
static V axis[3]; /* e1 e2 e3, e3 the polar axis */
static void average(V k1, V k2, R q, int nth, int nph, int npan, R *F, R *G)
{
	/* polar angle: composite Gauss-Legendre in theta with panels refined geometrically towards both poles */
	static R x[512], w[512];
	leg(nth, x, w);
	R sf = 0, sg = 0;
	R edge[128]; int ne = 0;
	edge[ne++] = 0;
	for (int i = npan - 1; i >= 1; i--) edge[ne++] = M_PI / 2 * pow(0.4, i);
	edge[ne++] = M_PI / 2;
	int half = ne;
	for (int i = half - 2; i >= 0; i--) edge[ne++] = M_PI - edge[i];
	for (int p = 0; p + 1 < ne; p++) for (int i = 0; i < nth; i++) {
		R h = (edge[p + 1] - edge[p]) / 2, th = (edge[p + 1] + edge[p]) / 2 + h * x[i];
		R ct = cos(th), st = sin(th), W = h * w[i] * st;
		R af = 0, ag = 0;
		/* symmetric under reflection in the plane of the triangle (e1, e3): phi and -phi */
		for (int j = 0; j < nph; j++) {
			R ph = M_PI * (j + 0.5) / nph, f, g;
			V v; R cx = st * cos(ph), cy = st * sin(ph);
			v.x = q * (cx * axis[0].x + cy * axis[1].x + ct * axis[2].x);
			v.y = q * (cx * axis[0].y + cy * axis[1].y + ct * axis[2].y);
			v.z = q * (cx * axis[0].z + cy * axis[1].z + ct * axis[2].z);
			sym(k1, k2, v, &f, &g); af += f; ag += g;
		}
		sf += W * af / nph; sg += W * ag / nph;
	}
	*F = sf / 2; *G = sg / 2;
}
int main(void)
{
	R k1, k2, k3, q;
	mk();
	while (scanf("%lf %lf %lf %lf", &k1, &k2, &k3, &q) == 4) {
		R c = (k3 * k3 - k1 * k1 - k2 * k2) / (2 * k1 * k2), s = sqrt(fmax(0, 1 - c * c));
		V a = {k1, 0, 0}, b = {k2 * c, k2 * s, 0}, t = add(a, b);
		V side[3] = {a, b, t}; R len[3] = {k1, k2, k3}; int best = 0;
		for (int i = 1; i < 3; i++) if (fabs(log(len[i] / q)) < fabs(log(len[best] / q))) best = i;
		R l = sqrt(dot(side[best], side[best]));
		V e3 = {side[best].x / l, side[best].y / l, 0}, e1 = {-e3.y, e3.x, 0}, e2 = {0, 0, 1};
		axis[0] = e1; axis[1] = e2; axis[2] = e3;
		tiny2 = 1e-20 * (k1 * k1 + k2 * k2 + q * q);
		R F0 = 0, G0 = 0, F = 0, G = 0; int n, ok = 0;
		for (n = 24; n <= 400; n *= 1.5) {
			average(a, b, q, 14, n, 2 + n / 12 > 12 ? 12 : 2 + n / 12, &F, &G);
			if (n > 24 && fabs(F - F0) < 1e-10 * fabs(F) && fabs(G - G0) < 1e-10 * fabs(G)) { ok = 1; break; }
			F0 = F; G0 = G;
		}
		printf("%.17g %.17g %.17g %.17g %.12g %.12g %.2g %d\n", k1, k2, k3, q, 24 * M_PI * F, 24 * M_PI * G, fmax(fabs(F / F0 - 1), fabs(G / G0 - 1)), n);
		fflush(stdout);
	}
}
