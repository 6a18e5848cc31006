// C09: the feasibility flag. MODE 0: both functions set, polynomials of the
// trajectory; 1: arbitrary values, NaN possible; 2: never set / only one set
#include "nl.hpp"
#ifndef MODE
#define MODE 0
#endif
static double ans[NZ];
static int call_;
static bool ok_;
extern "C" int sx_nlopt_solve(nlopt_opt o, double *x, double *f) {
  symZ(ans, call_ ? "ansb" : "ans");
  // the last point evaluated is not the point returned
  double z[NZ], r[NI + NE + NX * PH + 1];
  for (int i = 0; i < NZ; i++) z[i] = 0;
  for (int i = 0; i < o->nineq; i++) sx_con(o, o->ineq[i], r, z, nullptr);
  for (int i = 0; i < o->neq; i++) sx_con(o, o->eq[i], r, z, nullptr);
  for (int i = 0; i < NZ; i++) x[i] = ans[i];
  *f = 1;
  static const int codes[3] = {NLOPT_SUCCESS, NLOPT_MAXEVAL_REACHED, NLOPT_FAILURE};
  int k = MODE == 2 ? sx_pick(sx_int(Nm("code", call_), 0, 2)) : MODE == 0 ? 0 : 1;
  ok_ = k < 2;
  return codes[k];
}
static double vi[NI + 1], ve[NE + 1];
extern "C" void sx_main() {
  unitScale();
  Ctl *pc = newCtl();
  Ctl &c = *pc;
  quiet(c);
  c.setStateSpaceFunction([](XV &dx, const XV &, const UV &, const unsigned int &) { dx.setZero(); });
  trivialObj(c);
  double ti = sd("tolI", 0, 1), te = sd("tolE", 0, 1);
  bool si = true, se = true;
#if MODE == 2
  si = sx_pick(sx_bool("setI"));
  se = sx_pick(sx_bool("setE"));
#endif
#if MODE == 0
  symIneq();
  symEq();
  symOut();
  bindOut(c);
  bindIneq(c, (float)ti);
  bindEq(c, (float)te);
#else
  for (int i = 0; i < NI; i++) vi[i] = MODE == 1 && sx_pick(sx_bool(Nm("nanI", i))) ? NAN : sd1("vi", i);
  for (int i = 0; i < NE; i++) ve[i] = MODE == 1 && sx_pick(sx_bool(Nm("nanE", i))) ? NAN : sd1("ve", i);
  if (si) c.setIneqConFunction([](IV &o, const XM &, const YM &, const UM &, const double &) { for (int i = 0; i < NI; i++) o(i) = vi[i]; }, (float)ti);
  if (se) c.setEqConFunction([](EV &o, const XM &, const UM &) { for (int i = 0; i < NE; i++) o(i) = ve[i]; }, (float)te);
#endif
#if MODE == 0
  int calls = 1;
#else
  int calls = 2;
#endif
  for (call_ = 0; call_ < calls; call_++) {
    auto r = c.optimize(symX0(call_ ? "x1" : "x0"), symU0(call_ ? "u1" : "u0"));
    int want = ok_;
#if MODE == 0
    Traj<double> t;
    expand(t, ans);
    specIneq<double>(t, vi);
    specEq<double>(t, ve);
#endif
    if (si) for (int i = 0; i < NI; i++) want &= (int)(vi[i] <= ti);
    if (se) for (int i = 0; i < NE; i++) want &= (int)(ve[i] <= te) & (int)(-ve[i] <= te);
    sx_check((int)r.is_feasible == want, "feasible exactly when the user constraints hold");
    sx_cover(!ok_ ? "failed" : r.is_feasible ? "feasible" : "infeasible");
  }
  delete pc;
}
