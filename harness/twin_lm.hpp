// The calls a controller can be given (LMPC), with inputs and observations of twin.hpp.
#pragma once
#include "sx.hpp"
#include <cmath>
#include <vector>
#include <mpc/LMPC.hpp>
using namespace mpc;
#ifndef NX
#define NX 2
#endif
#ifndef NU
#define NU 1
#endif
#ifndef ND
#define ND 1
#endif
#ifndef NY
#define NY 1
#endif
#ifndef PH
#define PH 2
#endif
#ifndef CH
#define CH 2
#endif
#ifndef OPS
#define OPS 1
#endif
#ifndef SOLVES
#define SOLVES 2
#endif
#include "twin.hpp"
template <bool D> struct Ty;
template <> struct Ty<true> {
  typedef LMPC<> Ctl;
  static Ctl *make() { return new Ctl(NX, NU, ND, NY, PH, CH); }
  typedef mat<> XB; typedef mat<> UB; typedef mat<> UP; typedef mat<> YB; typedef mat<> DB;
  typedef mat<> A; typedef mat<> B; typedef mat<> C; typedef mat<> Bd; typedef mat<> Dd;
  typedef cvec<> XV; typedef cvec<> UV; typedef cvec<> YV; typedef cvec<> DV;
};
template <> struct Ty<false> {
  typedef LMPC<NX, NU, ND, NY, PH, CH> Ctl;
  static Ctl *make() { return new Ctl(); }
  typedef mat<NX, PH> XB; typedef mat<NU, CH> UB; typedef mat<NU, PH> UP; typedef mat<NY, PH> YB; typedef mat<ND, PH> DB;
  typedef mat<NX, NX> A; typedef mat<NX, NU> B; typedef mat<NY, NX> C; typedef mat<NX, ND> Bd; typedef mat<NY, ND> Dd;
  typedef cvec<NX> XV; typedef cvec<NU> UV; typedef cvec<NY> YV; typedef cvec<ND> DV;
};
static int code_;
static void (*yield_)() = nullptr; // where another controller may be used
static void yieldPoint() { if (yield_ && !other_) yield_(); }
extern "C" c_int sx_osqp_setup(OSQPWorkspace **w, const OSQPData *d, OSQPSettings *s) {
  put(d->n, "number of variables"); put(d->m, "number of constraints");
  const csc *M[2] = {d->P, d->A};
  for (auto m : M) { // as dense matrices: how zeros are stored is not observable
    double *full = new double[m->m * m->n];
    for (int i = 0; i < m->m * m->n; i++) full[i] = 0;
    for (int c = 0; c < m->n; c++) for (int k = (int)m->p[c]; k < (int)m->p[c + 1]; k++) full[m->i[k] * m->n + c] = m->x[k];
    for (int i = 0; i < m->m * m->n; i++) put(full[i], m == d->P ? "cost matrix" : "constraint matrix");
    delete[] full;
  }
  for (int i = 0; i < d->n; i++) put(d->q[i], "cost vector");
  for (int i = 0; i < d->m; i++) put(d->l[i], "bounds"), put(d->u[i], "bounds");
  put(s->alpha, "settings"); put(s->rho, "settings"); put(s->eps_abs, "settings"); put(s->eps_rel, "settings"); put(s->eps_prim_inf, "settings"); put(s->eps_dual_inf, "settings");
  put(s->max_iter, "settings"); put(s->time_limit, "settings"); put(s->verbose, "settings"); put(s->polish, "settings"); put(s->adaptive_rho, "settings"); put(s->warm_start, "settings");
  int code = code_;
  yieldPoint();
  code_ = code;
  if (code == 99) return 3;
  *w = sx_osqp_work(d, s);
  return 0;
}
extern "C" c_int sx_osqp_solve(OSQPWorkspace *w) {
  int code = code_;
  put(w->warm, "warm start");
  if (w->warm) {
    for (int i = 0; i < w->data->n; i++) put(w->x[i], "warm start");
    for (int i = 0; i < w->data->m; i++) put(w->y[i], "warm start");
  }
  for (int i = 0; i < w->data->n; i++) w->solution->x[i] = in();
  for (int i = 0; i < w->data->m; i++) w->solution->y[i] = in();
  w->info->status_val = code;
  w->info->obj_val = in();
  yieldPoint();
  return 0;
}

#ifndef LATE // highest outcome class of later solves
#define LATE 0
#endif
#ifndef MOVED // what may happen to the controller object between calls
#define MOVED
#endif
template <bool D> struct Run {
  typedef Ty<D> T;
  typedef typename T::XV XV; typedef typename T::UV UV; typedef typename T::YV YV; typedef typename T::DV DV;
  typename Ty<D>::Ctl *pc = nullptr;
  static auto vec(auto v, int r, double lo = -3, double hi = 3) { v.resize(r); for (int i = 0; i < r; i++) v(i) = in(lo, hi); return v; }
  static auto mtx(auto m, int r, int q, double lo = -3, double hi = 3) { m.resize(r, q); for (int i = 0; i < r; i++) for (int j = 0; j < q; j++) m(i, j) = in(lo, hi); return m; }
  void setup() {
  typedef Ty<D> T;
  pc = T::make();
  auto &c = *pc;
  c.setLoggerLevel(Logger::log_level::NONE);
  look();
  put(c.setStateSpaceModel(mtx(typename T::A(), NX, NX, 0.5), mtx(typename T::B(), NX, NU, 0.5), mtx(typename T::C(), NY, NX, 0.5)), "accepted");
  }
  void look() {
    auto &c = *pc;
    auto q = c.getOptimalSequence();
    putM(q.state, "state sequence"); putM(q.input, "input sequence"); putM(q.output, "output sequence");
    putR(c.getLastResult());
  }
  static const int NOPS = 19;
  void op(int what) {
    typedef Ty<D> T;
    auto &c = *pc;
    int s = 0, e = 0;
    if (what >= 10 && what <= 16) s = any(), e = any();
    switch (what) {
    case 0: { auto b = mtx(typename T::Bd(), NX, ND), d = mtx(typename T::Bd(), NX, ND); (void)d; put(c.setDisturbances(b, mtx(typename T::Dd(), NY, ND)), "accepted"); break; }
    case 1: put(c.setExogenousInputs(mtx(typename T::DB(), ND, PH)), "accepted"); break;
    case 2: { auto a = mtx(typename T::YB(), NY, PH, 0.5); auto b = mtx(typename T::UP(), NU, PH, 0.5), d = mtx(typename T::UP(), NU, PH, 0.5); put(c.setObjectiveWeights(a, b, d), "accepted"); break; }
    case 3: { auto a = mtx(typename T::YB(), NY, PH); auto b = mtx(typename T::UP(), NU, PH), d = mtx(typename T::UP(), NU, PH); put(c.setReferences(a, b, d), "accepted"); break; }
    case 4: { auto a = mtx(typename T::XB(), NX, PH, -3, 0), b = mtx(typename T::XB(), NX, PH, 0, 3); put(c.setStateBounds(a, b), "accepted"); break; }
    case 5: { auto a = mtx(typename T::UB(), NU, CH, -3, 0), b = mtx(typename T::UB(), NU, CH, 0, 3); put(c.setInputBounds(a, b), "accepted"); break; }
    case 6: { auto a = mtx(typename T::YB(), NY, PH, -3, 0), b = mtx(typename T::YB(), NY, PH, 0, 3); put(c.setOutputBounds(a, b), "accepted"); break; }
    case 7: {
      auto a = vec(XV(), NX, -3, 0), b = vec(XV(), NX, 0, 3); auto u = vec(UV(), NU, -3, 0), v = vec(UV(), NU, 0, 3); auto y = vec(YV(), NY, -3, 0), z = vec(YV(), NY, 0, 3);
      put(c.setConstraints((unsigned)any(0), a, u, y, b, v, z), "accepted");
      break;
    }
    case 8: { double l = in(-3, 0), u = in(0, 3); auto x = vec(XV(), NX, 0.5); auto v = vec(UV(), NU, 0.5); put(c.setScalarConstraint((unsigned)any(0), l, u, x, v), "accepted"); break; }
    case 9: {
      LParameters p;
      p.alpha = in(); p.rho = in(); p.eps_rel = in(); p.eps_abs = in(); p.eps_prim_inf = in(); p.eps_dual_inf = in(); p.time_limit = in();
      p.maximum_iteration = 77; p.verbose = pick(0, 1); p.adaptive_rho = pick(0, 1); p.polish = false; p.enable_warm_start = pick(0, 1);
      c.setOptimizerParameters(p);
      break;
    }
    case 10: put(c.setExogenousInputs(vec(DV(), ND), HorizonSlice{s, e}), "accepted"); break;
    case 11: { auto a = vec(YV(), NY, 0.5); auto b = vec(UV(), NU, 0.5), d = vec(UV(), NU, 0.5); put(c.setObjectiveWeights(a, b, d, HorizonSlice{s, e}), "accepted"); break; }
    case 12: { auto a = vec(YV(), NY); auto b = vec(UV(), NU), d = vec(UV(), NU); put(c.setReferences(a, b, d, HorizonSlice{s, e}), "accepted"); break; }
    case 13: { auto a = vec(XV(), NX, -3, 0), b = vec(XV(), NX, 0, 3); put(c.setStateBounds(a, b, HorizonSlice{s, e}), "accepted"); break; }
    case 14: { auto a = vec(UV(), NU, -3, 0), b = vec(UV(), NU, 0, 3); put(c.setInputBounds(a, b, HorizonSlice{s, e}), "accepted"); break; }
    case 15: { auto a = vec(YV(), NY, -3, 0), b = vec(YV(), NY, 0, 3); put(c.setOutputBounds(a, b, HorizonSlice{s, e}), "accepted"); break; }
    case 16: { double l = in(-3, 0), u = in(0, 3); auto x = vec(XV(), NX, 0.5); auto v = vec(UV(), NU, 0.5); put(c.setScalarConstraint(l, u, x, v, HorizonSlice{s, e}), "accepted"); break; }
    case 17:
    case 18: { // a start of the problem's size, or one that is too short
      const int nv = (PH + 1) * (NX + NU) + PH * NU, mc = 2 * (PH + 1) * (NX + NU) + (PH + 1) * NY + PH * NU + PH + 1;
      std::vector<double> x(what == 18 ? nv - 1 : nv), y(mc);
      for (auto &v : x) v = in();
      for (auto &v : y) v = in();
      LParameters p;
      p.enable_warm_start = true;
      c.setOptimizerParameters(p);
      c.setSolverWarmStart(x, y);
      break;
    }
    }
  }
  void solve(int k) {
    auto &c = *pc;
    static const int codes[] = {1, -3, 99};
    code_ = codes[k == 0 ? pick(0, 2) : LATE ? pick(0, LATE) : 0];
    XV x0 = vec(XV(), NX);
    UV u0 = vec(UV(), NU);
    auto r = c.optimize(x0, u0);
    putR(r);
    look();
    auto px = c.getSolverWarmStartPrimal(), py = c.getSolverWarmStartDual();
    put(px.size(), "remembered answer"); put(py.size(), "remembered answer");
    for (double v : px) put(v, "remembered answer");
    for (double v : py) put(v, "remembered answer");
  }
  void whole() {
    yieldPoint();
    setup();
    yieldPoint();
    MOVED;
#ifdef FIXED // a full configuration instead of arbitrary calls
    for (int o : {0, 1, 2, 3, 4, 5, 6, 17}) op(o);
#else
    for (int i = 0; i < OPS; i++) op(pick(0, NOPS - 1));
#endif
    yieldPoint();
    MOVED;
    for (int i = 0; i < SOLVES; i++) {
      solve(i), yieldPoint();
      MOVED;
      look();
    }
  }
};
