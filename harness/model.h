/* Independent reference models of univariate functions and function trains. */
#ifndef MODEL_H
#define MODEL_H
#include <complex.h>
#include "vh.h"
#include "array.h"
#include "stringmanip.h"
#include "lib_funcs.h"
#include "lib_linalg.h"
#include "lib_clinalg.h"
#include "space.h"
#include "fapprox.h"

enum { T_LIN=0, T_CONST, T_KER, T_LEG, T_CHEB, T_HERM, T_FOUR, T_PW, T_N };
extern const char *tname[T_N];
/* capability sets */
#define M(t) (1u<<(t))
#define T_NODAL (M(T_LIN)|M(T_CONST))
#define T_POLY  (M(T_LEG)|M(T_CHEB)|M(T_HERM))

struct sp {              /* one univariate function space */
    int t; double lb, ub;            /* working domain (finite) */
    size_t n; double *x;             /* nodes / centres / piece boundaries */
    size_t maxn;                     /* max number of coefficients */
    double mean, std, scale, width;
    int band;                        /* Fourier: all maxn coefficients stored, upper half of the modes empty */
    void *aopts; struct OneApproxOpts *o;
};
struct sp *sp_rand(unsigned types);              /* random space among the types */
struct sp *sp_make(int t, double lb, double ub, size_t n);
void sp_free(struct sp *);
double sp_x(const struct sp *);                  /* random point: interior, node, end point */

struct m1 { const struct sp *sp; size_t n; double *c; double complex *cc; };
struct m1 m1_rand(const struct sp *);
struct m1 m1_rand_n(const struct sp *, size_t n);
void m1_free(struct m1 *);
struct GenericFunction *m1_gf(const struct m1 *);
double m1_eval(const struct m1 *, double x);
double m1_mag(const struct m1 *, double x);      /* sum of |terms|: scale for tolerances */
double m1_deriv(const struct m1 *, double x);
double m1_integral(const struct m1 *);           /* exact integral over the domain w.r.t. the documented measure (dx) */
double m1_inner(const struct m1 *, const struct m1 *); /* inner product as documented for the class */

/* reference function train */
#define MD 16   /* largest dimension of a random train */
#define MR 12   /* largest rank of a random train */
struct mft { size_t d; size_t *r; struct sp **sp; struct m1 **f; };
struct mft *mft_rand(struct sp **sp, size_t d, size_t maxr);
void mft_free(struct mft *);
struct FunctionTrain *mft_ft(const struct mft *);
double mft_eval(const struct mft *, const double *x);
double mft_mag(const struct mft *, const double *x);
double mft_grad(const struct mft *, const double *x, size_t k);
struct sp **spv_rand(size_t d, unsigned types, int mixed);
void spv_free(struct sp **, size_t d);
void spv_x(struct sp **, size_t d, double *x);
struct MultiApproxOpts *spv_mopts(struct sp **, size_t d);
void ft_wellformed(const char *key, const struct FunctionTrain *ft, size_t d);
/* independent evaluation of a library FT through its univariate functions */
double ft_eval_ref(const struct FunctionTrain *ft, const double *x, double *mag);
double *gl_nodes(size_t n, double **w);          /* own Gauss-Legendre rule on [-1,1] */
/* ---- quadrature rule exact for the class' inner product on this space; full-grid tensors ---- */
#ifndef MODEL_RULE
#define MODEL_RULE
struct rule { size_t n; double *x, *w; };
struct rule *rules_make(struct sp **sp, size_t d, size_t deg_extra);
void rules_free(struct rule *, size_t d);
size_t rules_size(const struct rule *, size_t d);
double *ft_full(const struct FunctionTrain *ft, const struct rule *r);   /* first index fastest */
double *mft_full(const struct mft *f, const struct rule *r);
/* tail[r] = sum of the squared singular values beyond the first r of the weighted unfolding (dims 0..k-1 | k..d-1); returns count n, tail has n+1 entries */
size_t full_tails(const double *t, const struct rule *r, size_t d, size_t k, double **tail);
double full_norm(const double *t, const struct rule *r, size_t d);       /* sqrt(sum w t^2) */
double full_diffnorm(const double *a, const double *b, const struct rule *r, size_t d);
double full_inner(const double *a, const double *b, const struct rule *r, size_t d, double *absval);
#endif
#endif
