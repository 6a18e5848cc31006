// Common parts of the linear harnesses.
// Sizes: -DNX -DNU -DND -DNY -DPH -DCH, -DDYN=1 for run-time sizes.
// POS=1: positive model entries (no zero, so that the sparsity pattern is one);
// POS=0: mixed signs and structural zeros.
#pragma once
#include "sx.hpp"
#include <cmath>
#include <vector>
#include <mpc/LMPC.hpp>
using namespace mpc;
#ifndef NX
#define NX 2
#endif
#ifndef NU
#define NU 1
#endif
#ifndef ND
#define ND 1
#endif
#ifndef NY
#define NY 1
#endif
#ifndef PH
#define PH 3
#endif
#ifndef CH
#define CH 2
#endif
#ifndef DYN
#define DYN 0
#endif
#ifndef POS
#define POS 1
#endif
static const int NS = NX + NU;                      // extended state
static const int NV = (PH + 1) * NS + PH * NU;      // variables
static const int ME = (PH + 1) * NS;                // equality rows
static const int RB = ME, RY = RB + (PH + 1) * NS, RD = RY + (PH + 1) * NY, RS = RD + PH * NU, MC = RS + PH + 1;
#if DYN
typedef LMPC<> Ctl;
#define CTL_ARGS (NX, NU, ND, NY, PH, CH)
typedef cvec<> XV; typedef cvec<> UV; typedef cvec<> YV; typedef cvec<> DV;
typedef mat<> XB; typedef mat<> UB; typedef mat<> UP; typedef mat<> YB; typedef mat<> DB;
typedef mat<> MA; typedef mat<> MB; typedef mat<> MCc; typedef mat<> MBd; typedef mat<> MDd;
#else
typedef LMPC<NX, NU, ND, NY, PH, CH> Ctl;
#define CTL_ARGS
typedef cvec<NX> XV; typedef cvec<NU> UV; typedef cvec<NY> YV; typedef cvec<ND> DV;
typedef mat<NX, PH> XB; typedef mat<NU, CH> UB; typedef mat<NU, PH> UP; typedef mat<NY, PH> YB; typedef mat<ND, PH> DB;
typedef mat<NX, NX> MA; typedef mat<NX, NU> MB; typedef mat<NY, NX> MCc; typedef mat<NX, ND> MBd; typedef mat<NY, ND> MDd;
#endif
static Ctl *newCtl() { return new Ctl CTL_ARGS; }
static void quiet(Ctl &c) { c.setLoggerLevel(Logger::log_level::NONE); }
// variable indices
static int vx(int k, int j) { return k * NS + j; }          // x_k
static int vu(int k, int j) { return k * NS + NX + j; }     // input leading to x_k, u_{k-1}
static int vd(int k, int j) { return ME + k * NU + j; }     // increment du_k

// ---- what the solver was given
struct Prob {
  int n, m;
  double P[NV][NV], A[MC][NV], q[NV], l[MC], u[MC];
  OSQPSettings s;
};
static Prob *prob_;
#define PR (*prob_)
static const char *cscBad(const csc *M, int rows, int cols, bool upper) {
  if (!M || M->m != rows || M->n != cols) return "matrix dimensions";
  if (M->p[0] != 0) return "first column pointer";
  for (int c = 0; c < cols; c++) {
    if (M->p[c + 1] < M->p[c]) return "column pointers monotone";
    for (int k = (int)M->p[c]; k < (int)M->p[c + 1]; k++) {
      if (M->i[k] < 0 || M->i[k] >= rows) return "row index in range";
      if (k > (int)M->p[c] && M->i[k] <= M->i[k - 1]) return "row indices increasing";
      if (upper && M->i[k] > c) return "upper triangle only";
    }
  }
  if (M->p[cols] > M->nzmax) return "number of non zeros";
  if (M->nz != -1) return "compressed column form";
  return nullptr;
}
static void record(const OSQPData *d, const OSQPSettings *s) {
  if (!prob_) prob_ = new Prob;
  PR.n = (int)d->n;
  PR.m = (int)d->m;
  sx_check(PR.n == NV, "number of variables");
  sx_check(PR.m == MC, "number of constraints");
  const char *e = cscBad(d->P, NV, NV, true);
  if (e) sx_check(0, e);
  e = cscBad(d->A, MC, NV, false);
  if (e) sx_check(0, e);
  for (int i = 0; i < NV; i++) { PR.q[i] = d->q[i]; for (int j = 0; j < NV; j++) PR.P[i][j] = 0; for (int k = 0; k < MC; k++) PR.A[k][i] = 0; }
  for (int k = 0; k < MC; k++) { PR.l[k] = d->l[k]; PR.u[k] = d->u[k]; }
  for (int c = 0; c < NV; c++) {
    for (int k = (int)d->P->p[c]; k < (int)d->P->p[c + 1]; k++) PR.P[d->P->i[k]][c] = PR.P[c][d->P->i[k]] = d->P->x[k];
    for (int k = (int)d->A->p[c]; k < (int)d->A->p[c + 1]; k++) PR.A[d->A->i[k]][c] = d->A->x[k];
  }
  PR.s = *s;
}
// OSQP's own limits: what it calls infinite
static bool noLo(double v) { return v <= -OSQP_INFTY; }
static bool noUp(double v) { return v >= OSQP_INFTY; }

// ---- default solver behaviour
#ifndef OWN_SOLVER
static int solves;
extern "C" c_int sx_osqp_setup(OSQPWorkspace **w, const OSQPData *d, OSQPSettings *s) {
  *w = sx_osqp_work(d, s);
  return 0;
}
extern "C" c_int sx_osqp_solve(OSQPWorkspace *w) {
  record(w->data, w->settings); // the data must still be there
  solves++;
  for (int i = 0; i < NV; i++) w->solution->x[i] = 0;
  for (int i = 0; i < MC; i++) w->solution->y[i] = 0;
  w->info->status_val = OSQP_SOLVED;
  w->info->obj_val = 0;
  return 0;
}
#endif

static const double TINY = 1.0 / (1 << 22); // the smallest non zero coefficient
// ---- symbolic data
static double ent(const char *p, int i, int j, int salt) {
#if POS
  return sd2(p, i, j, TINY, RNG);
#else
  int k = (i * 7 + j * 3 + salt) % 4;
  return k == 1 ? 0.0 : k == 3 ? sd2(p, i, j, -RNG, -TINY) : sd2(p, i, j, TINY, RNG);
#endif
}
template <class M> static M symM(const char *p, int r, int c, int salt = 0) {
  M m(r, c);
  for (int i = 0; i < r; i++)
    for (int j = 0; j < c; j++) m(i, j) = ent(p, i, j, salt);
  return m;
}
template <class V> static V symV(const char *p, int n, double lo = -RNG, double hi = RNG) {
  V v(n);
  for (int i = 0; i < n; i++) v(i) = sd1(p, i, lo, hi);
  return v;
}
