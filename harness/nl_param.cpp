// C27: parameters, slack bounds and user functions in force at the next solve.
#include "nl.hpp"
static NLParameters want;
static double id_obj, id_in, id_eq, id_st, tol_st, tol_in, tol_eq;
static bool has_in, has_eq, set_;
static double start[NZ], prev[NZ];
static int solves;
extern "C" int sx_nlopt_solve(nlopt_opt o, double *x, double *f) {
  sx_check((int)o->n == NZ, "number of solver variables");
  sx_check(o->maxeval == want.maximum_iteration, "evaluation limit");
  sx_check_eq(o->ftol_rel, want.relative_ftol, "relative function tolerance");
  sx_check_eq(o->xtol_rel, want.relative_xtol, "relative variable tolerance");
  sx_check_eq(o->ftol_abs, want.absolute_ftol, "absolute function tolerance");
  for (int i = 0; i < NZ; i++) sx_check_eq(o->xtol_abs[i], want.absolute_xtol, "absolute variable tolerance");
  if (want.time_limit > 0) sx_check_eq(o->maxtime, want.time_limit, "time limit");
  else sx_check(o->maxtime <= 0, "no time limit when not positive");
  if (want.hard_constraints) sx_check(o->lb[NZ - 1] == 0 && o->ub[NZ - 1] == 0, "slack fixed with hard constraints");
  else sx_check(o->lb[NZ - 1] == -INFINITY && o->ub[NZ - 1] == INFINITY, "slack free without hard constraints");
  for (int i = 0; i < NZ - 1; i++) sx_check(o->lb[i] == -INFINITY && o->ub[i] == INFINITY, "no other bound");
  double z[NZ], r[NX * PH + NI + NE];
  for (int i = 0; i < NZ; i++) z[i] = 0;
  sx_check(!o->maximize && o->f != nullptr, "objective minimised");
  sx_check_eq(sx_obj(o, z, nullptr), id_obj, "objective last registered");
  sx_check(o->neq == 1 + has_eq && o->nineq == (int)has_in, "constraint blocks");
  for (int i = 0; i < o->neq + o->nineq; i++) {
    bool in = i >= o->neq;
    SxCon &k = in ? o->ineq[i - o->neq] : o->eq[i];
    bool dyn = !in && (int)k.m == NX * PH;
    sx_check(dyn || (int)k.m == (in ? NI : NE), "declared number of constraints");
    sx_con(o, k, r, z, nullptr);
    for (int j = 0; j < (int)k.m; j++) {
      if (dyn) sx_check_eq(r[j], -id_st, "state function last registered");
      else sx_check_eq(r[j], (in ? id_in : id_eq) + j, "user constraint last registered");
      sx_check_eq(k.tol[j], dyn ? tol_st : in ? tol_in : tol_eq, "constraint tolerance");
    }
  }
  for (int i = 0; i < NZ; i++) { start[i] = x[i]; x[i] = prev[i] = sd2("ans", solves, i); }
  *f = 0;
  solves++;
  return 1;
}
static void regs(Ctl &c, int n) {
  // every registered function is recognisable by a symbolic value of its own
  int what = n < 0 ? 15 : sx_pick(sx_int(Nm("reg", n), 0, 4));
  if (n >= 0) what = what == 0 ? 0 : 1 << (what - 1);
  if (what & 1) {
    double v = sd1("objv", n < 0 ? 9 : n);
    id_obj = v;
    c.setObjectiveFunction([v](const XM &, const YM &, const UM &, const double &) { return v; });
  }
  if (what & 2) {
    double v = sd1("stv", n < 0 ? 9 : n), t = sd1("stt", n < 0 ? 9 : n, 0, 1);
    id_st = v; tol_st = t;
    c.setStateSpaceFunction([v](XV &dx, const XV &, const UV &, const unsigned int &) { dx.setConstant(v); }, (float)t);
    sx_cover("state function");
  }
#if NI > 0
  if ((what & 4) && (n >= 0 || sx_pick(sx_bool("firstI")))) {
    double v = sd1("inv", n < 0 ? 9 : n), t = sd1("int", n < 0 ? 9 : n, 0, 1);
    id_in = v; tol_in = t; has_in = true;
    c.setIneqConFunction([v](IV &o, const XM &, const YM &, const UM &, const double &) { for (int i = 0; i < NI; i++) o(i) = v + i; }, (float)t);
    sx_cover("inequality function");
  }
#endif
#if NE > 0
  if ((what & 8) && (n >= 0 || sx_pick(sx_bool("firstE")))) {
    double v = sd1("eqv", n < 0 ? 9 : n), t = sd1("eqt", n < 0 ? 9 : n, 0, 1);
    id_eq = v; tol_eq = t; has_eq = true;
    c.setEqConFunction([v](EV &o, const XM &, const UM &) { for (int i = 0; i < NE; i++) o(i) = v + i; }, (float)t);
    sx_cover("equality function");
  }
#endif
}
#ifndef OPS
#define OPS 2
#endif
extern "C" void sx_main() {
  static_assert(NE != NX * PH, "sizes must differ");
  unitScale();
  Ctl *pc = newCtl();
  Ctl &c = *pc;
  quiet(c);
  regs(c, -1);
  for (int op = 0; op < OPS; op++) {
    int set = sx_pick(sx_int(Nm("what", op), 0, 1));
    if (set) {
      NLParameters p;
      p.maximum_iteration = sx_int(Nm("maxit", op), -5, 1000);
      p.time_limit = sd1("tlim", op, -2, 10);
      p.relative_ftol = sd1("rf", op, -1, 1);
      p.relative_xtol = sd1("rx", op, -1, 1);
      p.absolute_ftol = sd1("af", op, -1, 1);
      p.absolute_xtol = sd1("ax", op, -1, 1);
      p.hard_constraints = sx_pick(sx_bool(Nm("hard", op)));
      p.enable_warm_start = sx_pick(sx_bool(Nm("warm", op)));
      c.setOptimizerParameters(p);
      want = p;
      sx_cover(p.hard_constraints ? "hard" : "soft");
    } else regs(c, op);
    double last[NZ];
    for (int i = 0; i < NZ; i++) last[i] = prev[i];
    int before = solves;
    XV x0 = symX0(Nm("x", op));
    UV u0 = symU0(Nm("u", op));
    c.optimize(x0, u0);
    sx_check(solves == before + 1, "one solve per optimisation");
    if (before > 0) { // the warm start mode is observable in the starting point
      sx_check_eq(start[0], want.enable_warm_start ? last[PH > 1 ? NX : 0] : x0(0), want.enable_warm_start ? "warm start in force" : "warm start not in force");
      sx_cover(want.enable_warm_start ? "warm" : "cold");
    }
  }
  delete pc;
}
