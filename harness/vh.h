/* Core of the monitoring harness: case registry, PRNG, oracles, event log. */
#ifndef VH_H
#define VH_H
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <float.h>

/* ---- PRNG: every random choice of a case comes from here ---- */
uint64_t vr_u64(void);
double   vr_u01(void);                     /* (0,1) */
double   vr_unif(double a, double b);
double   vr_norm(void);
size_t   vr_int(size_t lo, size_t hi);     /* inclusive */
size_t   vr_big(size_t lo, size_t hi, size_t big); /* lo..hi, sometimes up to big */
int      vr_chance(double p);
double   vr_coef(void);                    /* multiplier: often exactly 0, 1, -1, 2 or -0.5 */
double   vr_val(void);                     /* "interesting" finite double of moderate size */
void     vr_sorted(size_t n, double lb, double ub, double *x, double minsep_frac); /* strictly increasing incl. ends */

/* ---- oracles ---- */
void vh_fail(const char *key, const char *fmt, ...) __attribute__((format(printf,2,3)));
void vh_sig(const char *fmt, ...) __attribute__((format(printf,1,2)));   /* shape of this case, for coverage */
void vh_hit(const char *what);             /* coverage counter */
void vh_obs(double v);                     /* value made observable to the determinism monitor */
void vh_obs_arr(size_t n, const double *v);
int  vh_close_(const char *key, const char *file, int line, double got, double want, double tol);
/* |got-want| <= tol ; tol absolute; NaN never passes */
#define CLOSE(key,got,want,tol) vh_close_(key,__FILE__,__LINE__,(got),(want),(tol))
int  vh_true_(const char *key, const char *file, int line, int ok, const char *expr);
#define TRUE_(key,e) vh_true_(key,__FILE__,__LINE__,!!(e),#e)
#define EQZ(key,a,b) vh_eqz_(key,__FILE__,__LINE__,(size_t)(a),(size_t)(b))
int  vh_eqz_(const char *key, const char *file, int line, size_t got, size_t want);
int  vh_bytes_(const char *key, const char *file, int line, const void *a, const void *b, size_t n);
#define SAMEBYTES(key,a,b,n) vh_bytes_(key,__FILE__,__LINE__,(a),(b),(n))
int  vh_failed(void);                      /* failures in the current iteration */
extern int vh_tier;                        /* 0 quick, 1 thorough */
const char *vh_scratch(void);              /* private scratch directory */
char *vh_path(const char *name);           /* scratch path, static storage (4 slots) */

/* ---- case registry ---- */
struct vh_case { const char *name, *props; void (*fn)(void); int nq, nt; int flags; struct vh_case *next; };
void vh_register(struct vh_case *c);
#define VH_SLOW 1      /* expensive: run less often in the cross-cutting (memory, leak, determinism) checks */
#define VH_NOLEAK 2    /* not used by the leak monitor */
#define VH_NODET 4     /* not used by the determinism monitor */
size_t vh_ncases(void); struct vh_case *vh_case_at(size_t i);
uint64_t vh_job(struct vh_case *c, uint64_t seed, int id);  /* run one iteration of a case as a job of its own thread; digest of everything it observed */
/* props: space separated property ids decided by this case */
#define CASE(NAME, PROPS, NQ, NT, FLAGS)                                   \
  static void case_##NAME(void);                                           \
  static struct vh_case vhc_##NAME = {#NAME, PROPS, case_##NAME, NQ, NT, FLAGS, NULL}; \
  __attribute__((constructor)) static void reg_##NAME(void){ vh_register(&vhc_##NAME);} \
  static void case_##NAME(void)

static inline double dmax(double a,double b){return a>b?a:b;}
static inline double dmin(double a,double b){return a<b?a:b;}
double *vh_dvec(size_t n);                  /* malloc'd random normals */
#endif
