// Model of the nlopt C API: every setter records what it was given, solving is
// delegated to sx_nlopt_solve() of the harness, which may answer anything.
#pragma once
#include <nlopt.hpp>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <vector>
#include "sx.hpp"

struct SxCon {
  unsigned m;
  nlopt_mfunc mf;
  nlopt_func f;
  void *data;
  double *tol;
};
struct nlopt_opt_s {
  nlopt_algorithm alg;
  unsigned n;
  double *lb, *ub;
  nlopt_func f;
  void *fdata;
  bool maximize;
  SxCon eq[8], ineq[8];
  int neq, nineq;
  double stopval, ftol_rel, ftol_abs, xtol_rel, maxtime;
  double *xtol_abs, *xw;
  int maxeval, numevals, force_stop;
  nlopt_munge md, mc;
  nlopt_opt local;
};
extern "C" int sx_nlopt_solve(nlopt_opt o, double *x, double *f); // nlopt_result

static int sx_nlopt_live = 0;
extern "C" {
static void sx_drop(nlopt_opt o, void *d) { if (o->md && d) o->md(d); }
static void sx_drop_cons(nlopt_opt o, SxCon *c, int &n) {
  for (int i = 0; i < n; i++) { sx_drop(o, c[i].data); free(c[i].tol); }
  n = 0;
}
nlopt_opt nlopt_create(nlopt_algorithm a, unsigned n) {
  nlopt_opt o = (nlopt_opt)malloc(sizeof(nlopt_opt_s));
  memset((void *)o, 0, sizeof(nlopt_opt_s));
  o->alg = a;
  o->n = n;
  o->lb = (double *)malloc(n * sizeof(double));
  o->ub = (double *)malloc(n * sizeof(double));
  o->xtol_abs = (double *)malloc(n * sizeof(double));
  o->xw = (double *)malloc(n * sizeof(double));
  for (unsigned i = 0; i < n; i++) { o->lb[i] = -HUGE_VAL; o->ub[i] = HUGE_VAL; o->xtol_abs[i] = 0; o->xw[i] = 1; }
  o->stopval = -HUGE_VAL;
  sx_nlopt_live++;
  return o;
}
void nlopt_destroy(nlopt_opt o) {
  if (!o) return;
  sx_drop(o, o->fdata);
  sx_drop_cons(o, o->eq, o->neq);
  sx_drop_cons(o, o->ineq, o->nineq);
  if (o->local) nlopt_destroy(o->local);
  free(o->lb);
  free(o->ub);
  free(o->xtol_abs);
  free(o->xw);
  free(o);
  sx_nlopt_live--;
}
nlopt_opt nlopt_copy(const nlopt_opt o) {
  if (!o) return nullptr;
  nlopt_opt c = nlopt_create(o->alg, o->n);
  memcpy(c->lb, o->lb, o->n * sizeof(double));
  memcpy(c->ub, o->ub, o->n * sizeof(double));
  memcpy(c->xtol_abs, o->xtol_abs, o->n * sizeof(double));
  memcpy(c->xw, o->xw, o->n * sizeof(double));
  c->f = o->f;
  c->maximize = o->maximize;
  c->stopval = o->stopval; c->ftol_rel = o->ftol_rel; c->ftol_abs = o->ftol_abs; c->xtol_rel = o->xtol_rel;
  c->maxtime = o->maxtime; c->maxeval = o->maxeval;
  c->md = o->md; c->mc = o->mc;
  c->fdata = o->mc && o->fdata ? o->mc(o->fdata) : o->fdata;
  c->neq = o->neq; c->nineq = o->nineq;
  for (int k = 0; k < 2; k++)
    for (int i = 0; i < (k ? o->nineq : o->neq); i++) {
      SxCon &d = k ? c->ineq[i] : c->eq[i];
      d = k ? o->ineq[i] : o->eq[i];
      double *t = (double *)malloc(d.m * sizeof(double));
      memcpy(t, d.tol, d.m * sizeof(double));
      d.tol = t;
      if (o->mc && d.data) d.data = o->mc(d.data);
    }
  return c;
}
nlopt_algorithm nlopt_get_algorithm(const nlopt_opt o) { return o->alg; }
unsigned nlopt_get_dimension(const nlopt_opt o) { return o->n; }
const char *nlopt_get_errmsg(nlopt_opt) { return nullptr; }
const char *nlopt_algorithm_name(nlopt_algorithm) { return "stub"; }
void nlopt_srand(unsigned long) {}
void nlopt_srand_time(void) {}
void nlopt_version(int *a, int *b, int *c) { *a = 2; *b = 7; *c = 1; }
void nlopt_set_munge(nlopt_opt o, nlopt_munge d, nlopt_munge c) { if (o) { o->md = d; o->mc = c; } }
static nlopt_result sx_set_obj(nlopt_opt o, nlopt_func f, void *d, bool mx) {
  if (!o) return NLOPT_INVALID_ARGS;
  sx_drop(o, o->fdata);
  o->f = f;
  o->fdata = d;
  o->maximize = mx;
  return NLOPT_SUCCESS;
}
nlopt_result nlopt_set_min_objective(nlopt_opt o, nlopt_func f, void *d) { return sx_set_obj(o, f, d, false); }
nlopt_result nlopt_set_max_objective(nlopt_opt o, nlopt_func f, void *d) { return sx_set_obj(o, f, d, true); }
nlopt_result nlopt_set_precond_min_objective(nlopt_opt o, nlopt_func f, nlopt_precond, void *d) { return sx_set_obj(o, f, d, false); }
static unsigned sx_count(SxCon *c, int n) { unsigned t = 0; for (int i = 0; i < n; i++) t += c[i].m; return t; }
static nlopt_result sx_add(nlopt_opt o, bool eq, unsigned m, nlopt_mfunc mf, nlopt_func f, void *d, const double *tol) {
  if (m == 0) { if (o) sx_drop(o, d); return NLOPT_SUCCESS; }
  bool ok = o != nullptr && (mf || f);
  if (ok && eq && sx_count(o->eq, o->neq) + m > o->n) ok = false; // nlopt: too many equality constraints
  if (ok && tol) for (unsigned i = 0; i < m; i++) if (tol[i] < 0) ok = false;
  int &k = eq ? o->neq : o->nineq;
  if (ok && k >= 8) ok = false;
  if (!ok) { if (o) sx_drop(o, d); return NLOPT_INVALID_ARGS; }
  SxCon &c = eq ? o->eq[k] : o->ineq[k];
  c.m = m; c.mf = mf; c.f = f; c.data = d;
  c.tol = (double *)malloc(m * sizeof(double));
  for (unsigned i = 0; i < m; i++) c.tol[i] = tol ? tol[i] : 0;
  k++;
  return NLOPT_SUCCESS;
}
nlopt_result nlopt_add_equality_mconstraint(nlopt_opt o, unsigned m, nlopt_mfunc h, void *d, const double *tol) { return sx_add(o, true, m, h, nullptr, d, tol); }
nlopt_result nlopt_add_inequality_mconstraint(nlopt_opt o, unsigned m, nlopt_mfunc h, void *d, const double *tol) { return sx_add(o, false, m, h, nullptr, d, tol); }
nlopt_result nlopt_add_equality_constraint(nlopt_opt o, nlopt_func h, void *d, double tol) { return sx_add(o, true, 1, nullptr, h, d, &tol); }
nlopt_result nlopt_add_inequality_constraint(nlopt_opt o, nlopt_func h, void *d, double tol) { return sx_add(o, false, 1, nullptr, h, d, &tol); }
nlopt_result nlopt_remove_inequality_constraints(nlopt_opt o) { if (!o) return NLOPT_INVALID_ARGS; sx_drop_cons(o, o->ineq, o->nineq); return NLOPT_SUCCESS; }
nlopt_result nlopt_remove_equality_constraints(nlopt_opt o) { if (!o) return NLOPT_INVALID_ARGS; sx_drop_cons(o, o->eq, o->neq); return NLOPT_SUCCESS; }
#define SX_VEC(NAME, FIELD)                                                                                            \
  nlopt_result nlopt_set_##NAME(nlopt_opt o, const double *v) {                                                        \
    if (!o || (o->n && !v)) return NLOPT_INVALID_ARGS;                                                                 \
    memcpy(o->FIELD, v, o->n * sizeof(double));                                                                        \
    return NLOPT_SUCCESS;                                                                                              \
  }                                                                                                                    \
  nlopt_result nlopt_get_##NAME(const nlopt_opt o, double *v) {                                                        \
    if (!o || (o->n && !v)) return NLOPT_INVALID_ARGS;                                                                 \
    memcpy(v, o->FIELD, o->n * sizeof(double));                                                                        \
    return NLOPT_SUCCESS;                                                                                              \
  }
SX_VEC(lower_bounds, lb)
SX_VEC(upper_bounds, ub)
nlopt_result nlopt_set_xtol_abs(nlopt_opt o, const double *v) { if (!o) return NLOPT_INVALID_ARGS; memcpy(o->xtol_abs, v, o->n * sizeof(double)); return NLOPT_SUCCESS; }
nlopt_result nlopt_get_xtol_abs(const nlopt_opt o, double *v) { if (!o) return NLOPT_INVALID_ARGS; memcpy(v, o->xtol_abs, o->n * sizeof(double)); return NLOPT_SUCCESS; }
nlopt_result nlopt_set_x_weights(nlopt_opt o, const double *v) { if (!o) return NLOPT_INVALID_ARGS; memcpy(o->xw, v, o->n * sizeof(double)); return NLOPT_SUCCESS; }
nlopt_result nlopt_get_x_weights(const nlopt_opt o, double *v) { if (!o) return NLOPT_INVALID_ARGS; memcpy(v, o->xw, o->n * sizeof(double)); return NLOPT_SUCCESS; }
#define SX_ALL(NAME, FIELD)                                                                                            \
  nlopt_result nlopt_set_##NAME(nlopt_opt o, double v) {                                                               \
    if (!o) return NLOPT_INVALID_ARGS;                                                                                 \
    for (unsigned i = 0; i < o->n; i++) o->FIELD[i] = v;                                                               \
    return NLOPT_SUCCESS;                                                                                              \
  }
SX_ALL(lower_bounds1, lb)
SX_ALL(upper_bounds1, ub)
SX_ALL(xtol_abs1, xtol_abs)
SX_ALL(x_weights1, xw)
nlopt_result nlopt_set_lower_bound(nlopt_opt o, int i, double v) { if (!o || i < 0 || i >= (int)o->n) return NLOPT_INVALID_ARGS; o->lb[i] = v; return NLOPT_SUCCESS; }
nlopt_result nlopt_set_upper_bound(nlopt_opt o, int i, double v) { if (!o || i < 0 || i >= (int)o->n) return NLOPT_INVALID_ARGS; o->ub[i] = v; return NLOPT_SUCCESS; }
#define SX_SC(NAME, TY)                                                                                                \
  nlopt_result nlopt_set_##NAME(nlopt_opt o, TY v) {                                                                   \
    if (!o) return NLOPT_INVALID_ARGS;                                                                                 \
    o->NAME = v;                                                                                                       \
    return NLOPT_SUCCESS;                                                                                              \
  }                                                                                                                    \
  TY nlopt_get_##NAME(const nlopt_opt o) { return o->NAME; }
SX_SC(stopval, double)
SX_SC(ftol_rel, double)
SX_SC(ftol_abs, double)
SX_SC(xtol_rel, double)
SX_SC(maxtime, double)
SX_SC(maxeval, int)
SX_SC(force_stop, int)
nlopt_result nlopt_force_stop(nlopt_opt o) { return nlopt_set_force_stop(o, 1); }
int nlopt_get_numevals(const nlopt_opt o) { return o->numevals; }
nlopt_result nlopt_set_local_optimizer(nlopt_opt o, const nlopt_opt l) {
  if (!o) return NLOPT_INVALID_ARGS;
  if (o->local) nlopt_destroy(o->local);
  o->local = nullptr;
  if (l) { o->local = nlopt_copy(l); sx_drop(o->local, nullptr); }
  return NLOPT_SUCCESS;
}
nlopt_result nlopt_set_population(nlopt_opt, unsigned) { return NLOPT_SUCCESS; }
unsigned nlopt_get_population(const nlopt_opt) { return 0; }
nlopt_result nlopt_set_vector_storage(nlopt_opt, unsigned) { return NLOPT_SUCCESS; }
unsigned nlopt_get_vector_storage(const nlopt_opt) { return 0; }
nlopt_result nlopt_set_default_initial_step(nlopt_opt, const double *) { return NLOPT_SUCCESS; }
nlopt_result nlopt_set_initial_step(nlopt_opt, const double *) { return NLOPT_SUCCESS; }
nlopt_result nlopt_set_initial_step1(nlopt_opt, double) { return NLOPT_SUCCESS; }
nlopt_result nlopt_get_initial_step(const nlopt_opt, const double *, double *) { return NLOPT_SUCCESS; }
nlopt_result nlopt_optimize(nlopt_opt o, double *x, double *f) {
  if (!o || !o->f) return NLOPT_INVALID_ARGS;
  o->numevals = 0;
  o->force_stop = 0;
  return (nlopt_result)sx_nlopt_solve(o, x, f);
}
}

// the problem as the solver sees it
static inline double sx_obj(nlopt_opt o, const double *z, double *g) { o->numevals++; return o->f(o->n, z, g, o->fdata); }
static inline void sx_con(nlopt_opt o, const SxCon &c, double *r, const double *z, double *g) {
  if (c.mf) c.mf(c.m, r, o->n, z, g, c.data);
  else r[0] = c.f(o->n, z, g, c.data);
}
