// C10, C11: the result and the sequence of every nonlinear optimisation.
// STATUS=1: every return code, one call; otherwise histories of calls.
#include "nl.hpp"
#ifndef STATUS
#define STATUS 0
#endif
static double ans[NZ], cost;
static int call_, code;
extern "C" int sx_nlopt_solve(nlopt_opt o, double *x, double *f) {
  static const char *zn[3] = {"z", "y", "w"};
  symZ(ans, zn[call_]);
  for (int i = 0; i < NZ; i++) x[i] = ans[i];
  *f = cost = sd1("cost", call_);
  return code;
}
extern "C" void sx_main() {
  unitScale();
  Ctl *pc = newCtl();
  Ctl &c = *pc;
  quiet(c);
#if SCALE == 1
  setScales(c, true, true);
#endif
  c.setStateSpaceFunction([](XV &dx, const XV &, const UV &, const unsigned int &) { dx.setZero(); });
  trivialObj(c);
#if !STATUS
  symOut();
  if (sx_pick(sx_bool("out"))) { bindOut(c); sx_cover("with outputs"); }
  bool warm = sx_pick(sx_bool("warm"));
  NLParameters p;
  p.enable_warm_start = warm;
  c.setOptimizerParameters(p);
#endif
  double cmd[NU];
  for (int j = 0; j < NU; j++) cmd[j] = 0;
  for (call_ = 0; call_ < (STATUS ? 1 : 3); call_++) {
#if STATUS
    code = sx_pick(sx_int("code", -7, 9)); // nlopt: -5..-1 errors, 1..6 answers; the rest unknown
#else
    static const int codes[5] = {1, 3, -1, -4, -2};
    code = codes[sx_pick(sx_int(Nm("code", call_), 0, call_ == 1 ? 4 : 2))];
#endif
    static const char *xn[3] = {"x0", "x1", "x2"}, *un[3] = {"u0", "u1", "u2"};
    auto r = c.optimize(symX0(xn[call_]), symU0(un[call_]));
    bool err = code < 0 && code >= -5;
    auto s = c.getOptimalSequence();
    auto l = c.getLastResult();
    if (code < -5 || code > 6 || code == 0) { // not a code of the solver
      if (r.solver_status == code) sx_check(r.status == ResultStatus::UNKNOWN, "status of an unknown code");
      else sx_check(r.status == ResultStatus::ERROR && r.solver_status == -1, "status of an unknown code");
      sx_cover("unknown code");
      continue;
    }
    sx_check((int)r.cmd.rows() == NU, "command size");
    sx_check((int)s.state.rows() == PH + 1 && (int)s.state.cols() == NX && (int)s.input.rows() == PH + 1 && (int)s.input.cols() == NU &&
                 (int)s.output.rows() == PH + 1 && (int)s.output.cols() == NY, "sequence shape");
    if (err) {
      sx_check(r.status == ResultStatus::ERROR, "failure: status ERROR");
      sx_check(r.solver_status == -1, "failure: solver code -1");
      sx_check(r.cost == INFINITY, "failure: infinite cost");
      sx_check(!r.is_feasible, "failure: infeasible");
      sx_check(!r.solver_status_msg.empty(), "failure: message");
      for (int j = 0; j < NU; j++) sx_check_eq(r.cmd(j), cmd[j], "failure: previous command");
      for (int k = 0; k <= PH; k++) {
        for (int j = 0; j < NX; j++) sx_check(s.state(k, j) == 0, "failure: zero sequence");
        for (int j = 0; j < NU; j++) sx_check(s.input(k, j) == 0, "failure: zero sequence");
        for (int j = 0; j < NY; j++) sx_check(s.output(k, j) == 0, "failure: zero sequence");
      }
      sx_cover("failure");
    } else {
      Traj<double> t;
      expand(t, ans);
      sx_check(r.status == (code <= 4 ? ResultStatus::SUCCESS : ResultStatus::MAX_ITERATION), "status of an answer");
      sx_check(r.solver_status == code, "solver code");
      sx_check_eq(r.cost, cost, "cost of this solve");
      for (int j = 0; j < NU; j++) sx_check_eq(r.cmd(j), cmd[j] = t.U[0][j], "first input of the solution");
      for (int k = 0; k <= PH; k++) {
        for (int j = 0; j < NX; j++) sx_check_eq(s.state(k, j), t.X[k][j], "state sequence");
        for (int j = 0; j < NU; j++) sx_check_eq(s.input(k, j), t.U[k][j], "input sequence");
        for (int j = 0; j < NY; j++) sx_check_eq(s.output(k, j), t.Y[k][j], "output sequence");
      }
      sx_cover(code <= 4 ? "success" : "limit");
    }
    sx_check(l.status == r.status && l.solver_status == r.solver_status && l.is_feasible == r.is_feasible && l.solver_status_msg == r.solver_status_msg, "last result");
    if (err) sx_check(l.cost == r.cost, "last result"); else sx_check_eq(l.cost, r.cost, "last result");
    eqm(l.cmd, r.cmd, "last result");
  }
  delete pc;
}
