/* Runs a script of library calls read on standard input, every array in a heap block of its exact size and left
   uninitialised where the library has to fill it. Linked with the sources under test and a sanitizer. */
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "cuba.h"

typedef double T;
typedef size_t N;

void set_verbosity(char *);
void set_pk_lin(T *, T *, N);
void find_pk_lin(T *, T *, N, int);
void calc_running_sigmad2(T *, T *, N, T);
void nodes_weights_gauss_legendre(T, T, T *, T *, N);
T interpol_poly(T, T *, T *, N);
T interpol_lin(T, T, T, T, T);
void set_terms_spectrum_1loop(N, T *, T *, T *, T *, T *, T *);
void set_terms_spectrum_2loop(N, T *, T *, T *, T *, T *, T *, T *, T *, T *, T *, T *);
void set_terms_bias_1loop(N, T *, T *, T *, T *, T *, T *, T *, T *, T *, T *, T *);
void set_terms_A_1loop(N, T *, T *, T *, T *);
void set_terms_A_2loop(N, T *, T *, T *, T *);
void set_terms_B(N, T *, T *, T *, T *);
void run_terms_spectrum_1loop(char *, char *, N);
void run_terms_spectrum_2loop(char *, char *, N);
void run_terms_bias_1loop(N);
void run_terms_A_1loop(N);
void run_terms_A_2loop(N);
void run_terms_B(N);
void spectrum_1loop(T *);
void spectrum_2loop(T *);
void set_spectrum_1loop(N, T *, T *);
void run_spectrum_1loop(char *, char *, N);
void set_spectra_B(char *, char *, N, T *, T *);

#define Q(X) X(gamma1_1loop_q) X(gamma1_2loop_q) X(gamma2_tree_q) X(gamma2d_1loop_q) X(gamma2t_1loop_q) X(bias_1loop_q) X(A_1loop_q) X(A_2loop_I_q) X(B_q)
#define MC(X) X(gamma3_tree_q) X(A_2loop_II_III_q)
#define MU(X) X(gamma2_tree_mu) X(bias_1loop_mu) X(A_1loop_mu) X(A_2loop_I_mu) X(B_mu)
#define PK(X) X(spectrum_1loop) X(spectrum_2loop) X(bispectrum_1loop) X(bias_1loop) X(A_1loop) X(A_2loop) X(B)
#define DQ(n) void set_precision_##n(N, T, T, char *);
#define DMC(n) void set_precision_##n(T, T, char *);
#define DMU(n) void set_precision_##n(N, char *);
#define DPK(n) void set_precision_##n##_pk_lin(char *); void set_running_uvcutoff_##n(T);
Q(DQ) MC(DMC) MU(DMU) PK(DPK)

#ifdef COUNT_ALLOCATED
size_t __sanitizer_get_current_allocated_bytes(void);
#endif

void vf_suave_reset(void);

static char word[64], word2[64], word3[64];
static double sink;

static void die(const char *what) { fprintf(stderr, "driver: bad script (%s)\n", what); exit(90); }
static double num(void) { double x; if (scanf("%lf", &x) != 1) die("number"); return x; }
static size_t cnt(void) { size_t n; if (scanf("%zu", &n) != 1) die("count"); return n; }
static char *str(char *w) { if (scanf("%63s", w) != 1) die("word"); return w; }
static T *block(size_t n) { return (T *) malloc(n ? n*sizeof(T) : 1); }
static T *list(size_t n) { T *a = block(n); for (size_t i=0;i<n;i++) a[i] = num(); return a; }
/* everything the library returns is looked at: a sanitizer for uninitialised memory sees what was never written */
static void use(const T *a, size_t n) { for (size_t i=0;i<n;i++) { if (a[i] > 0.) sink += 1.; } }

static T *tabk = NULL, *tabp = NULL;
#define MAXCOL 12
struct set { size_t nk; T *col[MAXCOL]; size_t len[MAXCOL]; int n; } sets[6];
static const char *kinds[6] = {"spectrum_1loop","spectrum_2loop","bias_1loop","A_1loop","A_2loop","B"};
static const int ncols[6] = {6, 11, 11, 4, 4, 4}, last[6] = {1, 1, 1, 5, 5, 9};

static int kind(const char *w) { for (int i=0;i<6;i++) if (!strcmp(w, kinds[i])) return i; die("kind"); return 0; }

static void run(int i, char *a, char *b, size_t threads)
{
	switch (i) {
	case 0: run_terms_spectrum_1loop(a, b, threads); break;
	case 1: run_terms_spectrum_2loop(a, b, threads); break;
	case 2: run_terms_bias_1loop(threads); break;
	case 3: run_terms_A_1loop(threads); break;
	case 4: run_terms_A_2loop(threads); break;
	case 5: run_terms_B(threads); break;
	}
}

int main(void)
{
	set_verbosity("quiet");
	while (scanf("%63s", word) == 1) {
		if (!strcmp(word, "verbosity")) set_verbosity(str(word2));
		else if (!strcmp(word, "table")) {
			size_t n = cnt();
			T *k = list(n), *p = list(n);
			set_pk_lin(k, p, n);
			free(tabk); free(tabp);
			tabk = k; tabp = p;
		}
		else if (!strcmp(word, "lookup")) {
			size_t n = cnt();
			int poly = (int) num();
			T *k = list(n), *p = block(n);
			find_pk_lin(k, p, n, poly);
			use(p, n);
			free(k); free(p);
		}
		else if (!strcmp(word, "sigmad2")) {
			size_t n = cnt();
			T uv = num(), *k = list(n), *p = block(n);
			calc_running_sigmad2(k, p, n, uv);
			use(p, n);
			free(k); free(p);
		}
		else if (!strcmp(word, "gl")) {
			size_t n = cnt();
			T lo = num(), hi = num(), *x = block(n), *w = block(n);
			nodes_weights_gauss_legendre(lo, hi, x, w, n);
			use(x, n); use(w, n);
			free(x); free(w);
		}
		else if (!strcmp(word, "poly")) {
			size_t n = cnt();
			T x = num(), *a = list(n), *b = list(n), y = interpol_poly(x, a, b, n);
			use(&y, 1);
			free(a); free(b);
		}
		else if (!strcmp(word, "prec")) {
			/* name n min max interpolation */
			str(word2);
			size_t n = cnt();
			T lo = num(), hi = num();
			str(word3);
			int found = 0;
#define CQ(m) if (!strcmp(word2, #m)) { set_precision_##m(n, lo, hi, word3); found = 1; }
#define CMC(m) if (!strcmp(word2, #m)) { set_precision_##m(lo, hi, word3); found = 1; }
#define CMU(m) if (!strcmp(word2, #m)) { set_precision_##m(n, word3); found = 1; }
#define CPK(m) if (!strcmp(word2, #m "_pk_lin")) { set_precision_##m##_pk_lin(word3); found = 1; }
			Q(CQ) MC(CMC) MU(CMU) PK(CPK)
			if (!found) die(word2);
		}
		else if (!strcmp(word, "uv")) {
			str(word2);
			T uv = num();
			int found = 0;
#define CUV(m) if (!strcmp(word2, #m)) { set_running_uvcutoff_##m(uv); found = 1; }
			PK(CUV)
			if (!found) die(word2);
		}
		else if (!strcmp(word, "terms")) {
			int i = kind(str(word2));
			size_t nk = cnt();
			T *old[MAXCOL];
			memcpy(old, sets[i].col, sizeof old);
			sets[i].nk = nk;
			sets[i].n = ncols[i];
			T **c = sets[i].col;
			for (int j=0;j<ncols[i];j++) {
				sets[i].len[j] = nk*(j == ncols[i]-1 ? last[i] : 1);
				c[j] = j == 0 ? list(nk) : block(sets[i].len[j]);
			}
			switch (i) {
			case 0: set_terms_spectrum_1loop(nk, c[0], c[1], c[2], c[3], c[4], c[5]); break;
			case 1: set_terms_spectrum_2loop(nk, c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7], c[8], c[9], c[10]); break;
			case 2: set_terms_bias_1loop(nk, c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7], c[8], c[9], c[10]); break;
			case 3: set_terms_A_1loop(nk, c[0], c[1], c[2], c[3]); break;
			case 4: set_terms_A_2loop(nk, c[0], c[1], c[2], c[3]); break;
			case 5: set_terms_B(nk, c[0], c[1], c[2], c[3]); break;
			}
			for (int j=0;j<MAXCOL;j++) free(old[j]);
		}
		else if (!strcmp(word, "run")) {
			/* kind a b threads times */
			int i = kind(str(word));
			str(word2); str(word3);
			size_t threads = cnt(), times = cnt();
			if (!sets[i].n) die("run before terms");
#ifdef COUNT_ALLOCATED
			size_t before = 0, after = 0;
#endif
			for (size_t t=0;t<times;t++) {
				vf_suave_reset();
				run(i, word2, word3, threads);
#ifdef COUNT_ALLOCATED
				/* the first two runs may set up the pool of threads and buffers of the C library */
				if (t == 1) before = __sanitizer_get_current_allocated_bytes();
				after = __sanitizer_get_current_allocated_bytes();
				if (t >= 3 && t == times-1 && after >= before + (times-2)*16) {
					fprintf(stderr, "ERROR: leak: %zu bytes more allocated after %zu further runs of %s\n", after-before, times-2, kinds[i]);
					exit(91);
				}
#endif
			}
			for (int j=1;j<sets[i].n;j++) use(sets[i].col[j], sets[i].len[j]);
		}
		else if (!strcmp(word, "combine")) {
			int i = kind(str(word));
			T *p = block(sets[i].nk);
			if (i == 0) spectrum_1loop(p);
			if (i == 1) spectrum_2loop(p);
			if (i <= 1) use(p, sets[i].nk);
			free(p);
		}
		else if (!strcmp(word, "runspectrum")) {
			/* a b threads n k... ; it takes the place of the terms set before */
			str(word2); str(word3);
			size_t threads = cnt(), n = cnt();
			T *k = list(n), *p = block(n);
			set_spectrum_1loop(n, k, p);
			run_spectrum_1loop(word2, word3, threads);
			use(p, n);
			free(k); free(p);
			for (int j=0;j<MAXCOL;j++) { free(sets[0].col[j]); sets[0].col[j] = NULL; }
			sets[0].n = 0;
		}
		else if (!strcmp(word, "runB")) {
			/* threads n k... delta-theta... theta-theta... : B with spectra of its own, taken away afterwards */
			size_t threads = cnt(), n = cnt();
			T *k = list(n), *dt = list(n), *tt = list(n);
			set_spectra_B("delta", "theta", n, k, dt);
			set_spectra_B("theta", "theta", n, k, tt);
			if (!sets[5].n) die("runB before terms");
			run_terms_B(threads);
			set_spectra_B("delta", "theta", 0, NULL, NULL);
			set_spectra_B("theta", "theta", 0, NULL, NULL);
			for (int j=1;j<sets[5].n;j++) use(sets[5].col[j], sets[5].len[j]);
			free(k); free(dt); free(tt);
		}
		else die(word);
	}
	printf("done %g\n", sink);
	return 0;
}
