// C02: the vector every nonlinear optimisation starts from.
#include "nl.hpp"
static double start[NZ], ans[NZ], base_[NZ], slack = 0;
static bool solved = false;
static int call_ = 0;
static double lo_[NZ], hi_[NZ]; // bounds in force, in the solver's variables
static bool hard = true;
#ifndef CALLS
#define CALLS 3
#endif
static double in_(int i, double v) { return i == NZ - 1 ? (hard ? 0 : v) : fmax(lo_[i], fmin(v, hi_[i])); }
extern "C" int sx_nlopt_solve(nlopt_opt o, double *x, double *f) {
  sx_check((int)o->n == NZ, "number of solver variables");
  for (int i = 0; i < NZ; i++) start[i] = x[i];
  static const char *nmz[3] = {"p", "q", "r"};
  bool ok = sx_pick(sx_bool(Nm("ok", call_)));
  double z[NZ];
  for (int i = 0; i < NZ; i++) z[i] = sd1(nmz[call_], i);
  *f = sd1("cost", call_);
  for (int i = 0; i < NZ; i++) {
    if (i == NZ - 1 && hard) z[i] = 0; // the solver stays within the bounds
    x[i] = z[i];
  }
  if (ok) for (int i = 0; i < NZ; i++) ans[i] = z[i];
  solved = ok;
  return ok ? NLOPT_SUCCESS : NLOPT_FAILURE;
}
extern "C" void sx_main() {
  unitScale();
  Ctl *pc = newCtl();
  Ctl &c = *pc;
  quiet(c);
#if SCALE == 1
  setScales(c, true, true);
#elif SCALE >= 2
  decoyScales(c, SCALE == 3, SCALE == 2);
#endif
  c.setStateSpaceFunction([](XV &dx, const XV &, const UV &, const unsigned int &) { dx.setZero(); });
  trivialObj(c);
#if SCALE == 2
  setScales(c, false, true);
#elif SCALE == 3
  setScales(c, true, false);
#endif
  for (int i = 0; i < NZ; i++) lo_[i] = -INFINITY, hi_[i] = INFINITY;
#if BND & 1
  XB xl(NX, PH), xh(NX, PH);
  for (int k = 0; k < PH; k++)
    for (int j = 0; j < NX; j++) {
      xl(j, k) = sd2("xl", k, j, -RNG, band(k + j)); xh(j, k) = sd2("xh", k, j, band(k + j), RNG);
      lo_[k * NX + j] = xl(j, k) / sX[j]; hi_[k * NX + j] = xh(j, k) / sX[j];
    }
  c.setStateBounds(xl, xh);
#endif
#if BND & 2
  UB ul(NU, CH), uh(NU, CH);
  for (int k = 0; k < CH; k++)
    for (int j = 0; j < NU; j++) {
      ul(j, k) = sd2("ul", k, j, -RNG, band(k + j)); uh(j, k) = sd2("uh", k, j, band(k + j), RNG);
      lo_[PH * NX + k * NU + j] = ul(j, k) / sU[j]; hi_[PH * NX + k * NU + j] = uh(j, k) / sU[j];
    }
  c.setInputBounds(ul, uh);
#endif
  bool ever = false, warm = false;
  for (call_ = 0; call_ < CALLS; call_++) {
    if (call_ > 0 || sx_pick(sx_bool("setp"))) {
      NLParameters p;
      warm = sx_pick(sx_bool(Nm("warm", call_)));
      p.enable_warm_start = warm;
#ifdef HARD
      hard = sx_pick(sx_bool(Nm("hard", call_)));
#else
      hard = false;
#endif
      p.hard_constraints = hard;
      c.setOptimizerParameters(p);
    }
    static const char *nx0[3] = {"x0", "x1", "x2"}, *nu0[3] = {"u0", "u1", "u2"};
    XV x0 = symX0(nx0[call_]);
    UV u0 = symU0(nu0[call_]);
    c.optimize(x0, u0);
    for (int k = 0; k < PH; k++)
      for (int j = 0; j < NX; j++) {
        if (warm && ever) sx_check_eq(start[k * NX + j], in_(k * NX + j, base_[(k + 1 < PH ? k + 1 : k) * NX + j]), "warm start: next state of the previous solution");
        else sx_check_eq(start[k * NX + j], in_(k * NX + j, x0(j) / sX[j]), "cold start: current state");
      }
    for (int k = 0; k < CH; k++)
      for (int j = 0; j < NU; j++) {
        int i = PH * NX + k * NU + j, n = PH * NX + (k + 1 < CH ? k + 1 : k) * NU + j;
        if (warm && ever) sx_check_eq(start[i], in_(i, base_[n]), "warm start: input applied one step later");
        else sx_check_eq(start[i], in_(i, u0(j) / sU[j]), "cold start: last input");
      }
    sx_check_eq(start[NZ - 1], in_(NZ - 1, slack), "previous slack");
    sx_cover(warm && ever ? "warm" : "cold");
    if (solved) {
      ever = true;
      for (int i = 0; i < NZ; i++) base_[i] = ans[i];
      slack = ans[NZ - 1];
      sx_cover("solved");
    } else sx_cover("failed");
  }
  delete pc;
}
