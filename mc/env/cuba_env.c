/* Controlled environment for the Cuba library, which pyregpt calls but does not contain.
 *
 * Suave is a Monte-Carlo integrator: it evaluates the integrand at points of the unit cube that it chooses and returns
 * a weighted mean.  Here the environment owns that choice.  The harness sets the list of points (default: a small fixed
 * lattice), the order in which they are evaluated, and how they are spread over worker processes (Cuba forks workers).
 * Everything the integrand returns is logged, so that a checker can look at each value and not only at the mean.
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include "cuba.h"

#define MAXDIM 16
#define MAXCOMP 16
#define MAXPTS 4096
#define MAXLOG 65536
#define MAXVEC 64

static int npts = 0, pts_ndim = 0;
static double pts[MAXPTS * MAXDIM];
static int nworkers = 0;              /* 0: evaluate in this process */
static int order[MAXPTS], norder = 0; /* permutation of the points */
static int owner[MAXPTS];             /* worker of each point, -1: the master */
static double perturb = 0.;

static int nlog = 0, log_on = 0, log_ncomp = 0;
static double logv[MAXLOG * MAXCOMP];
static int ncalls = 0, ncores = -1, naccel = -1, last_ndim = 0, last_ncomp = 0;
static double last_int[MAXCOMP];
static int abort_after = -1;

void cubacores(const int n, const int p) { (void)p; ncores = n; }
void cubaaccel(const int n, const int p) { (void)p; naccel = n; }
void cubainit(void *f, void *arg) { (void)f; (void)arg; }
void cubaexit(void *f, void *arg) { (void)f; (void)arg; }

void cubaenv_set_points(const double *x, int n, int ndim)
{
	if (n > MAXPTS || ndim > MAXDIM) abort();
	npts = n; pts_ndim = ndim;
	if (n) memcpy(pts, x, sizeof(double) * n * ndim);
	norder = 0; nworkers = 0;
}
void cubaenv_set_schedule(const int *ord, const int *own, int n, int workers)
{
	if (n > MAXPTS) abort();
	norder = n; nworkers = workers;
	memcpy(order, ord, sizeof(int) * n);
	memcpy(owner, own, sizeof(int) * n);
}
void cubaenv_reset(void) { npts = 0; norder = 0; nworkers = 0; nlog = 0; log_on = 0; ncalls = 0; ncores = -1; naccel = -1; abort_after = -1; }
void cubaenv_log(int on) { log_on = on; nlog = 0; }
int cubaenv_get_log(double *out, int maxn)
{
	int n = nlog < maxn ? nlog : maxn;
	memcpy(out, logv, sizeof(double) * n * log_ncomp);
	return n;
}
void cubaenv_get_stats(int *out) { out[0] = ncalls; out[1] = ncores; out[2] = naccel; out[3] = last_ndim; out[4] = last_ncomp; out[5] = nlog; }

static void default_points(int ndim, int seed)
{
	/* Korobov-like lattice, 24 points, off the faces of the cube */
	static const int gen[MAXDIM] = {1, 5, 7, 11, 13, 17, 19, 23, 3, 9, 15, 21, 2, 4, 8, 10};
	int i, d, n = 24;
	for (i = 0; i < n; i++) for (d = 0; d < ndim; d++) {
		double v = ((double)((i * gen[d]) % n) + 0.5 + 0.02 * d) / n + 1e-3 * ((unsigned)seed % 997u); /* other seeds, other points */
		pts[i * ndim + d] = v - (int)v;
	}
	npts = n; pts_ndim = ndim;
}

void Suave(const int ndim, const int ncomp, integrand_t integrand, void *userdata, const int nvec,
  const double epsrel, const double epsabs, const int flags, const int seed, const int mineval, const int maxeval,
  const int nnew, const int nmin, const double flatness, const char *statefile, void *spin,
  int *nregions, int *neval, int *fail, double integral[], double error[], double prob[])
{
	int i, c, was_default = (npts == 0);
	typedef int (*full_t)(const int *, const double *, const int *, double *, void *, const int *, const int *);
	full_t f = (full_t)(void *)integrand;
	(void)mineval; (void)nnew; (void)nmin; (void)flatness; (void)statefile; (void)spin;
	ncalls++; last_ndim = ndim; last_ncomp = ncomp;
	if (was_default) default_points(ndim, seed);
	if (pts_ndim != ndim || ncomp > MAXCOMP) { fprintf(stderr, "cuba_env: ndim %d ncomp %d\n", ndim, ncomp); abort(); }
	/* levels 1 to 3 of verbosity: Cuba prints its parameters and every iteration */
	if (flags & 3) { printf("Suave input parameters:\n  ndim %d\n  ncomp %d\n", ndim, ncomp); fflush(stdout); }
	/* it never evaluates more points than it is allowed to, and passes up to nvec of them at a time */
	int total = (maxeval >= 0 && maxeval < npts) ? maxeval : npts, vec = nvec > 1 ? nvec : 1, one = 1;
	if (vec > MAXVEC) vec = MAXVEC;
	double *res = mmap(NULL, sizeof(double) * npts * ncomp, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (res == MAP_FAILED) abort();
	int w, stop = 0;
	/* workers first, as in Cuba: they inherit the state of this process at the time of the call */
	for (w = 0; w < nworkers && !stop; w++) {
		fflush(NULL);
		pid_t pid = fork();
		if (pid < 0) abort();
		if (pid == 0) {
			int core = w;
			for (i = 0; i < norder; i++) if (owner[order[i]] == w) {
				double ff[MAXCOMP];
				for (c = 0; c < ncomp; c++) ff[c] = 12345.678; /* no integrand may rely on what was there before */
				f(&ndim, &pts[order[i] * ndim], &ncomp, ff, userdata, &one, &core);
				for (c = 0; c < ncomp; c++) res[order[i] * ncomp + c] = ff[c];
			}
			_exit(0);
		}
		int st = 0;
		waitpid(pid, &st, 0);
		if (st != 0) stop = 1;
	}
	for (i = 0; i < npts && !stop;) {
		int ips[MAXVEC], n = 0, core = 32768;
		double ff[MAXCOMP * MAXVEC], xx[MAXDIM * MAXVEC];
		for (; i < npts && n < vec; i++) {
			int ip = norder ? order[i] : i;
			if (ip >= total || (norder && owner[ip] >= 0)) continue;
			memcpy(&xx[n * ndim], &pts[ip * ndim], sizeof(double) * ndim);
			ips[n++] = ip;
		}
		if (!n) break;
		for (c = 0; c < ncomp * n; c++) ff[c] = 12345.678;
		if (f(&ndim, xx, &ncomp, ff, userdata, &n, &core) == -999) { stop = 1; break; }
		for (c = 0; c < ncomp * n; c++) res[ips[c / ncomp] * ncomp + c % ncomp] = ff[c];
	}
	for (c = 0; c < ncomp; c++) {
		double s = 0., s2 = 0.;
		int half = total / 2, n = total;
		for (i = 0; i < total; i++) {
			if (i == half && i > 1 && (epsabs > 1e-9 || epsrel > 1e-4)) {
				/* a coarse accuracy: it stops as soon as the estimated error is below it */
				double mean = s / half, var = s2 / half - mean * mean;
				double goal = epsabs > epsrel * (mean < 0. ? -mean : mean) ? epsabs : epsrel * (mean < 0. ? -mean : mean);
				if (var > 0. && var / half <= goal * goal) { n = half; break; }
			}
			s += res[i * ncomp + c]; s2 += res[i * ncomp + c] * res[i * ncomp + c];
		}
		integral[c] = n ? s / n : 0.;
		error[c] = 0.; prob[c] = 0.;
		last_int[c] = integral[c];
	}
	if (log_on) {
		log_ncomp = ncomp;
		for (i = 0; i < npts && nlog < MAXLOG; i++, nlog++)
			memcpy(&logv[nlog * ncomp], &res[i * ncomp], sizeof(double) * ncomp);
	}
	munmap(res, sizeof(double) * npts * ncomp);
	*nregions = 1; *neval = npts; *fail = stop ? -99 : 0;
	if (was_default) npts = 0;
}

/* Only reached by the _CUBA15 variant or by a change of integrator: same contract */
void Vegas(const int ndim, const int ncomp, integrand_t integrand, void *userdata, const int nvec,
  const double epsrel, const double epsabs, const int flags, const int seed, const int mineval, const int maxeval,
  const int nstart, const int nincrease, const int nbatch, const int gridno, const char *statefile, void *spin,
  int *neval, int *fail, double integral[], double error[], double prob[])
{
	int nregions;
	(void)nbatch; (void)gridno;
	Suave(ndim, ncomp, integrand, userdata, nvec, epsrel, epsabs, flags, seed, mineval, maxeval, nstart, nincrease, 5., statefile, spin, &nregions, neval, fail, integral, error, prob);
}
