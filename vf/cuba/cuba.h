/* Stand-in for the Cuba library's header: only what pyregpt's sources use.
   The real Cuba library is not available offline; see suave_standin.c. */
#ifndef VF_CUBA_H
#define VF_CUBA_H

typedef int (*integrand_t)(const int *ndim, const double x[], const int *ncomp, double f[], void *userdata);

void Suave(const int ndim, const int ncomp, integrand_t integrand, void *userdata, const int nvec,
           const double epsrel, const double epsabs, const int flags, const int seed,
           const int mineval, const int maxeval, const int nnew, const int nmin, const double flatness,
           const char *statefile, void *spin, int *nregions, int *neval, int *fail,
           double integral[], double error[], double prob[]);

void cubacores(const int n, const int p);
void cubaaccel(const int n, const int p);

#endif
