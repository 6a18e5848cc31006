// The calls a controller can be given (NLMPC), with inputs and observations of twin.hpp.
#pragma once
#include "nlopt_stub.hpp"
#include <mpc/NLMPC.hpp>
using namespace mpc;
#ifndef NX
#define NX 2
#endif
#ifndef NU
#define NU 1
#endif
#ifndef NY
#define NY 1
#endif
#ifndef PH
#define PH 2
#endif
#ifndef CH
#define CH 2
#endif
#ifndef NI
#define NI 1
#endif
#ifndef NE
#define NE 1
#endif
#ifndef OPS
#define OPS 1
#endif
#ifndef SOLVES
#define SOLVES 2
#endif
#include "twin.hpp"
template <bool D> struct Ty;
template <> struct Ty<true> {
  typedef NLMPC<> Ctl;
  static Ctl *make() { return new Ctl(NX, NU, NY, PH, CH, NI, NE); }
  typedef mat<> XM; typedef mat<> UM; typedef mat<> YM; typedef mat<> XB; typedef mat<> UB; typedef mat<> YB;
  typedef cvec<> XV; typedef cvec<> UV; typedef cvec<> YV; typedef cvec<> IV; typedef cvec<> EV;
};
template <> struct Ty<false> {
  typedef NLMPC<NX, NU, NY, PH, CH, NI, NE> Ctl;
  static Ctl *make() { return new Ctl(); }
  typedef mat<PH + 1, NX> XM; typedef mat<PH + 1, NU> UM; typedef mat<PH + 1, NY> YM; typedef mat<NX, PH> XB; typedef mat<NU, CH> UB; typedef mat<NY, PH> YB;
  typedef cvec<NX> XV; typedef cvec<NU> UV; typedef cvec<NY> YV; typedef cvec<NI> IV; typedef cvec<NE> EV;
};
static void (*called_)() = nullptr; // told of every call of a user function
// unknown function of the flattened arguments
struct Args {
  Args() { if (called_) called_(); }
  double v[160];
  int n = 0;
  template <class M> Args &add(const M &m) {
    for (int i = 0; i < (int)m.rows(); i++) for (int j = 0; j < (int)m.cols(); j++) v[n++] = m(i, j);
    return *this;
  }
  Args &num(double x) { v[n++] = x; return *this; }
  double f(const char *name, int i = 0) { return sx_uf(Nm(name, i), v, n); }
};
static int code_, calls_, forced_; // forced_: the outcome of every solve
static void (*yield_)() = nullptr; // where another controller may be used
static void yieldPoint() { if (yield_ && !other_) yield_(); }
static bool solving_; // inside the solver
// what the solver can see of the problem, at one point
static void evaluations(nlopt_opt o, const double *z) {
  int n = o->n;
  double g[64 * 24], c[24];
  put(sx_obj(o, z, g), "objective");
  if (o->force_stop) return;
  for (int i = 0; i < n; i++) put(g[i], "objective gradient");
  put(sx_obj(o, z, nullptr), "objective");
  if (o->force_stop) return;
  for (int k = 0; k < 2; k++)
    for (int a = 0; a < (k ? o->nineq : o->neq); a++) {
      SxCon &q = k ? o->ineq[a] : o->eq[a];
      put(q.m, "constraints");
      for (int b = 0; b < 64 * 24; b++) g[b] = 0;
      sx_con(o, q, c, z, g);
      if (o->force_stop) return;
      for (int b = 0; b < (int)q.m; b++) put(c[b], "constraint values"), put(q.tol[b], "tolerances");
      for (int b = 0; b < (int)q.m * n; b++) put(g[b], "constraint gradients");
      sx_con(o, q, c, z, nullptr);
      if (o->force_stop) return;
      for (int b = 0; b < (int)q.m; b++) put(c[b], "constraint values");
    }
}
extern "C" int sx_nlopt_solve(nlopt_opt o, double *x, double *f) {
  int code = code_;
  yieldPoint();
  put(o->alg, "algorithm"); put(o->n, "number of variables");
  int n = o->n;
  for (int i = 0; i < n; i++) put(o->lb[i], "bounds"), put(o->ub[i], "bounds"), put(x[i], "starting point"), put(o->xtol_abs[i], "tolerances");
  put(o->ftol_abs, "stopping criteria"); put(o->ftol_rel, "stopping criteria"); put(o->xtol_rel, "stopping criteria"); put(o->stopval, "stopping criteria");
  put(o->maxeval, "stopping criteria"); put(o->maxtime, "stopping criteria"); put(o->neq, "constraints"); put(o->nineq, "constraints");
  double z[64];
  for (int i = 0; i < n; i++) z[i] = i == n - 1 ? in(-0.9, 0.9) : in();
  solving_ = true;
  evaluations(o, z);
  solving_ = false;
  for (int i = 0; i < n; i++) x[i] = i == n - 1 ? in(-0.9, 0.9) : in();
  *f = in();
  yieldPoint();
  return o->force_stop ? NLOPT_FORCED_STOP : code;
}

#ifndef MOVED // what may happen to the controller object between calls
#define MOVED
#endif
template <bool D> struct Run {
  typedef Ty<D> T;
  typedef typename T::XM XM; typedef typename T::UM UM; typedef typename T::YM YM;
  typedef typename T::XV XV; typedef typename T::UV UV; typedef typename T::YV YV; typedef typename T::IV IV; typedef typename T::EV EV;
  typename Ty<D>::Ctl *pc = nullptr;
  static auto vec(auto v, int r, double lo, double hi) { v.resize(r); for (int i = 0; i < r; i++) v(i) = in(lo, hi); return v; }
  static auto mtx(auto m, int r, int q, double lo, double hi) { m.resize(r, q); for (int i = 0; i < r; i++) for (int j = 0; j < q; j++) m(i, j) = in(lo, hi); return m; }
  void setup() {
  typedef Ty<D> T;
  pc = T::make();
  auto &c = *pc;
  c.setLoggerLevel(Logger::log_level::NONE);
  look();
  auto dyn = [](XV &dx, const XV &x, const UV &u, const unsigned int &k) {
    Args a;
    a.add(x).add(u).num(k);
    for (int i = 0; i < NX; i++) dx(i) = a.f("f", i);
  };
  put(c.setStateSpaceFunction(dyn), "accepted");
  put(c.setObjectiveFunction([](const XM &x, const YM &y, const UM &u, const double &e) { double v = Args().add(x).add(y).add(u).num(e).f("J"); if (!other_ && ++calls_ == 2) yieldPoint(); return v; }), "accepted");
  }
  void look() {
    auto &c = *pc;
    auto q = c.getOptimalSequence();
    putM(q.state, "state sequence"); putM(q.input, "input sequence"); putM(q.output, "output sequence");
    putR(c.getLastResult());
  }
  static const int NOPS = 11;
  void op(int what) {
    typedef Ty<D> T;
    auto &c = *pc;
    int s = what == 1 || what == 3 ? any() : 0, e = what == 1 || what == 3 ? any() : 0;
    switch (what) {
    case 0: { auto a = mtx(typename T::XB(), NX, PH, -3, -1), b = mtx(typename T::XB(), NX, PH, 1, 3); put(c.setStateBounds(a, b), "accepted"); break; }
    case 1: { auto a = vec(XV(), NX, -3, -1), b = vec(XV(), NX, 1, 3); put(c.setStateBounds(a, b, HorizonSlice{s, e}), "accepted"); break; }
    case 2: { auto a = mtx(typename T::UB(), NU, CH, -3, -1), b = mtx(typename T::UB(), NU, CH, 1, 3); put(c.setInputBounds(a, b), "accepted"); break; }
    case 3: { auto a = vec(UV(), NU, -3, -1), b = vec(UV(), NU, 1, 3); put(c.setInputBounds(a, b, HorizonSlice{s, e}), "accepted"); break; }
    case 4: c.setStateScale(vec(XV(), NX, 0.25, 4)); break;
    case 5: c.setInputScale(vec(UV(), NU, 0.25, 4)); break;
    case 6: {
      NLParameters p;
      p.relative_ftol = in(0, 1); p.absolute_ftol = in(0, 1); p.relative_xtol = in(0, 1); p.absolute_xtol = in(0, 1); p.time_limit = in(0, 1);
      p.maximum_iteration = 77;
      p.hard_constraints = pick(0, 1);
      p.enable_warm_start = pick(0, 1);
      c.setOptimizerParameters(p);
      break;
    }
    case 7: put(c.setOutputFunction([](YV &y, const XV &x, const UV &u, const unsigned int &k) { Args a; a.add(x).add(u).num(k); for (int i = 0; i < NY; i++) y(i) = a.f("y", i); }), "accepted"); break;
    case 8: put(c.setIneqConFunction([](IV &o, const XM &x, const YM &y, const UM &u, const double &e) { Args a; a.add(x).add(y).add(u).num(e); for (int i = 0; i < NI; i++) o(i) = a.f("g", i); }, 1e-3f), "accepted"); break;
    case 9: put(c.setEqConFunction([](EV &o, const XM &x, const UM &u) { Args a; a.add(x).add(u); for (int i = 0; i < NE; i++) o(i) = a.f("h", i); }, 1e-4f), "accepted"); break;
    case 10: put(c.setDiscretizationSamplingTime(in(0.1, 2)), "accepted"); break;
    }
  }
  void solve(int k) {
    auto &c = *pc;
    code_ = forced_ ? forced_ : pick(0, 1) ? 1 : -1;
    if (!other_) calls_ = 0;
    XV x0 = vec(XV(), NX, -0.25, 0.25); // inside any bounds (C02 has the others)
    UV u0 = vec(UV(), NU, -0.25, 0.25);
    auto r = c.optimize(x0, u0);
    putR(r);
    look();
  }
  void whole() {
    yieldPoint();
    setup();
    yieldPoint();
    MOVED;
#ifdef FIXED // a full configuration instead of arbitrary calls
    for (int o : {0, 2, 4, 5, 7, 8, 9}) op(o);
#else
    for (int i = 0; i < OPS; i++) op(pick(0, NOPS - 1));
#endif
    yieldPoint();
    MOVED;
    for (int i = 0; i < SOLVES; i++) {
      solve(i), yieldPoint();
      MOVED;
      look();
    }
  }
};
