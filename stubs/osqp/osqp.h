/* Model of the OSQP 0.6.3 C interface (the solver is not installed here): setup
 * records the problem, solving is delegated to the harness. */
#pragma once
#include <cstdlib>
#include <cstring>
#include "sx.hpp"
typedef long long c_int;
typedef double c_float;
#define c_malloc malloc
#define c_free free
#define c_calloc calloc
#define c_realloc realloc
#define OSQP_NULL 0
#define OSQP_INFTY ((c_float)1e30)
#define OSQP_DUAL_INFEASIBLE_INACCURATE (4)
#define OSQP_PRIMAL_INFEASIBLE_INACCURATE (3)
#define OSQP_SOLVED_INACCURATE (2)
#define OSQP_SOLVED (1)
#define OSQP_MAX_ITER_REACHED (-2)
#define OSQP_PRIMAL_INFEASIBLE (-3)
#define OSQP_DUAL_INFEASIBLE (-4)
#define OSQP_SIGINT (-5)
#define OSQP_TIME_LIMIT_REACHED (-6)
#define OSQP_NON_CVX (-7)
#define OSQP_UNSOLVED (-10)
enum linsys_solver_type { QDLDL_SOLVER, MKL_PARDISO_SOLVER };
typedef struct { c_int nzmax, m, n; c_int *p, *i; c_float *x; c_int nz; } csc;
typedef struct { c_int n, m; csc *P, *A; c_float *q, *l, *u; } OSQPData;
typedef struct {
  c_float rho, sigma;
  c_int scaling, adaptive_rho, adaptive_rho_interval;
  c_float adaptive_rho_tolerance, adaptive_rho_fraction;
  c_int max_iter;
  c_float eps_abs, eps_rel, eps_prim_inf, eps_dual_inf, alpha;
  enum linsys_solver_type linsys_solver;
  c_float delta;
  c_int polish, polish_refine_iter, verbose, scaled_termination, check_termination, warm_start;
  c_float time_limit;
} OSQPSettings;
typedef struct { c_float *x, *y; } OSQPSolution;
typedef struct {
  c_int iter;
  char status[32];
  c_int status_val, status_polish;
  c_float obj_val, pri_res, dua_res, setup_time, solve_time, update_time, polish_time, run_time;
  c_int rho_updates;
  c_float rho_estimate;
} OSQPInfo;
typedef struct {
  OSQPData *data;
  OSQPSettings *settings;
  OSQPSolution *solution;
  OSQPInfo *info;
  c_float *x, *y;       /* iterates given by a warm start */
  int warm;             /* number of warm starts received */
  int initialised;
} OSQPWorkspace;
/* the harness */
extern "C" {
c_int sx_osqp_setup(OSQPWorkspace **w, const OSQPData *d, OSQPSettings *s); /* 0, or an error (the workspace may be left allocated) */
c_int sx_osqp_solve(OSQPWorkspace *w);
}
static int sx_osqp_live = 0;
static inline csc *csc_spalloc(c_int m, c_int n, c_int nzmax, c_int values, c_int triplet) {
  csc *A = (csc *)c_calloc(1, sizeof(csc));
  A->m = m; A->n = n; A->nzmax = nzmax = nzmax > 1 ? nzmax : 1; A->nz = triplet ? 0 : -1;
  A->p = (c_int *)c_malloc((triplet ? nzmax : n + 1) * sizeof(c_int));
  A->i = (c_int *)c_malloc(nzmax * sizeof(c_int));
  A->x = values ? (c_float *)c_malloc(nzmax * sizeof(c_float)) : nullptr;
  return A;
}
static inline void csc_spfree(csc *A) {
  if (!A) return;
  if (A->p) c_free(A->p);
  if (A->i) c_free(A->i);
  if (A->x) c_free(A->x);
  c_free(A);
}
static inline csc *csc_matrix(c_int m, c_int n, c_int nzmax, c_float *x, c_int *i, c_int *p) {
  csc *A = (csc *)c_malloc(sizeof(csc));
  A->m = m; A->n = n; A->nz = -1; A->nzmax = nzmax; A->x = x; A->i = i; A->p = p;
  return A;
}
static inline void osqp_set_default_settings(OSQPSettings *s) {
  memset((void *)s, 0, sizeof(*s));
  s->rho = 0.1; s->sigma = 1e-6; s->scaling = 10; s->adaptive_rho = 1; s->adaptive_rho_interval = 0;
  s->adaptive_rho_tolerance = 5; s->adaptive_rho_fraction = 0.4; s->max_iter = 4000; s->eps_abs = 1e-3; s->eps_rel = 1e-3;
  s->eps_prim_inf = 1e-4; s->eps_dual_inf = 1e-4; s->alpha = 1.6; s->linsys_solver = QDLDL_SOLVER; s->delta = 1e-6;
  s->polish = 0; s->polish_refine_iter = 3; s->verbose = 1; s->scaled_termination = 0; s->check_termination = 25;
  s->warm_start = 1; s->time_limit = 0;
}
/* for the harness: allocate the workspace as a successful setup does */
static inline OSQPWorkspace *sx_osqp_work(const OSQPData *d, const OSQPSettings *s) {
  OSQPWorkspace *w = (OSQPWorkspace *)c_calloc(1, sizeof(OSQPWorkspace));
  w->data = (OSQPData *)c_malloc(sizeof(OSQPData));
  *w->data = *d;
  w->settings = (OSQPSettings *)c_malloc(sizeof(OSQPSettings));
  *w->settings = *s;
  w->solution = (OSQPSolution *)c_calloc(1, sizeof(OSQPSolution));
  w->solution->x = (c_float *)c_malloc(d->n * sizeof(c_float));
  w->solution->y = (c_float *)c_malloc(d->m * sizeof(c_float));
  w->info = (OSQPInfo *)c_calloc(1, sizeof(OSQPInfo));
  w->info->status_val = OSQP_UNSOLVED;
  w->x = (c_float *)c_calloc(d->n, sizeof(c_float));
  w->y = (c_float *)c_calloc(d->m, sizeof(c_float));
  w->initialised = 1;
  sx_osqp_live++;
  return w;
}
static inline c_int osqp_setup(OSQPWorkspace **w, const OSQPData *d, const OSQPSettings *s) { return sx_osqp_setup(w, d, (OSQPSettings *)s); }
static inline c_int osqp_warm_start(OSQPWorkspace *w, const c_float *x, const c_float *y) {
  if (!w || !w->initialised) return 7;
  if (!w->settings->warm_start) w->settings->warm_start = 1;
  memcpy(w->x, x, w->data->n * sizeof(c_float));
  memcpy(w->y, y, w->data->m * sizeof(c_float));
  w->warm++;
  return 0;
}
static inline c_int osqp_warm_start_x(OSQPWorkspace *w, const c_float *x) {
  if (!w || !w->initialised) return 7;
  if (!w->settings->warm_start) w->settings->warm_start = 1;
  memcpy(w->x, x, w->data->n * sizeof(c_float));
  w->warm++;
  return 0;
}
static inline c_int osqp_warm_start_y(OSQPWorkspace *w, const c_float *y) {
  if (!w || !w->initialised) return 7;
  if (!w->settings->warm_start) w->settings->warm_start = 1;
  memcpy(w->y, y, w->data->m * sizeof(c_float));
  w->warm++;
  return 0;
}
static inline c_int osqp_update_warm_start(OSQPWorkspace *w, c_int v) {
  if (!w || !w->initialised) return 7;
  if (v != 0 && v != 1) return 1;
  w->settings->warm_start = v;
  return 0;
}
static inline c_int osqp_solve(OSQPWorkspace *w) {
  if (!w || !w->initialised) return 7;
  return sx_osqp_solve(w);
}
static inline c_int osqp_cleanup(OSQPWorkspace *w) {
  if (!w) return 0;
  if (w->data) c_free(w->data);
  if (w->settings) c_free(w->settings);
  if (w->solution) {
    if (w->solution->x) c_free(w->solution->x);
    if (w->solution->y) c_free(w->solution->y);
    c_free(w->solution);
  }
  if (w->info) c_free(w->info);
  if (w->x) c_free(w->x);
  if (w->y) c_free(w->y);
  c_free(w);
  sx_osqp_live--;
  return 0;
}
