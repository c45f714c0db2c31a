/* Deterministic stand-in for Cuba's Suave: evaluates the integrand at the points given with
   vf_suave_points() and returns the mean (the volume of the unit hypercube is 1), recording every
   value, so that a check can compare the integrand point by point against its own model. */
#include <stdlib.h>
#include <string.h>
#include "cuba.h"

#define MAXDIM 16
#define MAXCOMP 32

static double *vf_pts = NULL;
static long vf_npts = 0;
static int vf_dim = 5;
static double *vf_vals = NULL;      /* values of all calls, one block of npts*ncomp per call */
static long vf_nvals = 0, vf_cap = 0;
static long vf_ncalls = 0;
static int vf_last[8];              /* ndim, ncomp, nvec, flags, seed, mineval, maxeval, nnew */
static double vf_lastd[2];          /* epsrel, epsabs */

void vf_suave_points(const double *pts, long npts, int dim)
{
	free(vf_pts);
	vf_pts = (double *) malloc(sizeof(double)*(npts > 0 ? npts : 1)*dim);
	memcpy(vf_pts, pts, sizeof(double)*npts*dim);
	vf_npts = npts;
	vf_dim = dim;
}

void vf_suave_reset(void) { vf_nvals = 0; vf_ncalls = 0; }
long vf_suave_ncalls(void) { return vf_ncalls; }
long vf_suave_nvals(void) { return vf_nvals; }
void vf_suave_values(double *out) { memcpy(out, vf_vals, sizeof(double)*vf_nvals); }
void vf_suave_last(int *out, double *outd) { memcpy(out, vf_last, sizeof vf_last); memcpy(outd, vf_lastd, sizeof vf_lastd); }

static double vf_halton(long i, int base)
{
	double f = 1., r = 0.;
	while (i > 0) { f /= base; r += f*(i % base); i /= base; }
	return r;
}

void Suave(const int ndim, const int ncomp, integrand_t integrand, void *userdata, const int nvec,
           const double epsrel, const double epsabs, const int flags, const int seed,
           const int mineval, const int maxeval, const int nnew, const int nmin, const double flatness,
           const char *statefile, void *spin, int *nregions, int *neval, int *fail,
           double integral[], double error[], double prob[])
{
	static const int bases[MAXDIM] = {2,3,5,7,11,13,17,19,23,29,31,37,41,43,47,53};
	double x[MAXDIM], f[MAXCOMP], sum[MAXCOMP];
	long i, n = vf_npts > 0 ? vf_npts : 64;
	int d, c;
	(void) nmin; (void) flatness; (void) statefile; (void) spin;
	vf_last[0] = ndim; vf_last[1] = ncomp; vf_last[2] = nvec; vf_last[3] = flags; vf_last[4] = seed;
	vf_last[5] = mineval; vf_last[6] = maxeval; vf_last[7] = nnew;
	vf_lastd[0] = epsrel; vf_lastd[1] = epsabs;
	vf_ncalls++;
	for (c=0;c<ncomp;c++) sum[c] = 0.;
	for (i=0;i<n;i++) {
		for (d=0;d<ndim;d++) {
			if (vf_npts > 0 && d < vf_dim) x[d] = vf_pts[i*vf_dim+d];
			else x[d] = vf_halton(i+1,bases[d]);
		}
		for (c=0;c<ncomp;c++) f[c] = 0.;
		integrand(&ndim,x,&ncomp,f,userdata);
		if (vf_nvals+ncomp > vf_cap) {
			vf_cap = 2*(vf_nvals+ncomp)+1024;
			vf_vals = (double *) realloc(vf_vals,sizeof(double)*vf_cap);
		}
		for (c=0;c<ncomp;c++) { vf_vals[vf_nvals++] = f[c]; sum[c] += f[c]; }
	}
	for (c=0;c<ncomp;c++) { integral[c] = sum[c]/n; error[c] = 0.; prob[c] = 0.; }
	*nregions = 1; *neval = (int) n; *fail = 0;
}

void cubacores(const int n, const int p) { (void) n; (void) p; }
void cubaaccel(const int n, const int p) { (void) n; (void) p; }
