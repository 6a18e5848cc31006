// C11, C18, C19: what reaches the linear solver besides the problem, and what
// comes back. MODE 1: every return code (one solve); 2: histories of outcomes;
// 3: settings and warm starts
#define OWN_SOLVER
#include "lm.hpp"
#ifndef MODE
#define MODE 2
#endif
#ifndef CALLS
#define CALLS (MODE == 1 ? 1 : 3)
#endif
enum { GOOD, INACC, MAXIT, TIMEL, PINF, DINF, PINFI, NONCVX, SETUP0, SETUPW, SOLVEERR, NULLX, NANX, NOUT };
static int call_, out_, code_, solves, setups, exit_ = 0;
static double sol[NV], dual[MC], obj_, lastx[NV + 1], lasty[MC + 1];
static int hx, hy; // sizes of what there is to warm start from
static LParameters lp;
static bool finite_() { return out_ == GOOD || out_ == INACC || out_ == MAXIT || out_ == TIMEL; }
extern "C" c_int sx_osqp_setup(OSQPWorkspace **w, const OSQPData *d, OSQPSettings *s) {
  setups++;
  record(d, s);
  if (out_ == SETUP0) return 4;
  *w = sx_osqp_work(d, s);
  if (out_ == SETUPW) {
    (*w)->initialised = 0;
    free((*w)->solution->x); free((*w)->solution->y); free((*w)->solution);
    (*w)->solution = nullptr;
    return 5;
  }
  return 0;
}
extern "C" c_int sx_osqp_solve(OSQPWorkspace *w) {
  solves++;
  record(w->data, w->settings); // the problem must still be valid memory
  OSQPSettings &s = w->settings[0];
  sx_check_eq(s.alpha, lp.alpha, "alpha");
  sx_check_eq(s.rho, lp.rho, "rho");
  sx_check_eq(s.eps_rel, lp.eps_rel, "eps_rel");
  sx_check_eq(s.eps_abs, lp.eps_abs, "eps_abs");
  sx_check_eq(s.eps_prim_inf, lp.eps_prim_inf, "eps_prim_inf");
  sx_check_eq(s.eps_dual_inf, lp.eps_dual_inf, "eps_dual_inf");
  sx_check_eq(s.time_limit, lp.time_limit, "time limit");
  sx_check(s.max_iter == lp.maximum_iteration, "iteration limit");
  sx_check((s.verbose != 0) == lp.verbose, "verbose");
  sx_check((s.adaptive_rho != 0) == lp.adaptive_rho, "adaptive rho");
  sx_check((s.polish != 0) == lp.polish, "polish");
  sx_check(s.sigma == 1e-6 && s.scaling == 10 && s.check_termination == 25 && s.delta == 1e-6 && s.linsys_solver == QDLDL_SOLVER && s.scaled_termination == 0 && s.polish_refine_iter == 3, "other settings at their defaults");
  bool warm = lp.enable_warm_start && hx == NV && hy == MC;
  sx_check(w->warm == (int)warm, warm ? "warm start from the previous answer" : "no warm start");
  sx_check((s.warm_start != 0) == warm, warm ? "warm start in force" : "warm start not in force");
  if (warm) {
    for (int i = 0; i < NV; i++) sx_check_eq(w->x[i], lastx[i], "primal warm start");
    for (int i = 0; i < MC; i++) sx_check_eq(w->y[i], lasty[i], "dual warm start");
    sx_cover("warm");
  } else sx_cover("cold");
  static const char *xn[5] = {"v", "w", "y", "s", "t"}, *yn[5] = {"l", "m", "n", "o", "p"};
  for (int i = 0; i < NV; i++) sol[i] = sd1(xn[call_], i);
  for (int i = 0; i < MC; i++) dual[i] = sd1(yn[call_], i);
  obj_ = sd1("obj", call_);
  bool nan = out_ == PINF || out_ == DINF || out_ == PINFI || out_ == NONCVX;
  for (int i = 0; i < NV; i++) w->solution->x[i] = nan ? NAN : sol[i];
  for (int i = 0; i < MC; i++) w->solution->y[i] = nan ? NAN : dual[i];
  if (out_ == NANX) w->solution->x[call_ % NV] = NAN;
  if (out_ == NULLX) { free(w->solution->x); w->solution->x = nullptr; }
  static const int codes[NOUT] = {OSQP_SOLVED, OSQP_SOLVED_INACCURATE, OSQP_MAX_ITER_REACHED, OSQP_TIME_LIMIT_REACHED, OSQP_PRIMAL_INFEASIBLE, OSQP_DUAL_INFEASIBLE,
                                  OSQP_PRIMAL_INFEASIBLE_INACCURATE, OSQP_NON_CVX, 0, 0, OSQP_SIGINT, OSQP_SOLVED, OSQP_SOLVED};
  if (MODE != 1) code_ = codes[out_];
  w->info->status_val = code_;
  w->info->obj_val = obj_;
  return out_ == SOLVEERR ? 1 : 0;
}
static ResultStatus want(int c) {
  switch (c) {
  case 1: case 2: return ResultStatus::SUCCESS;
  case -2: case -6: return ResultStatus::MAX_ITERATION;
  case -3: case -4: case 3: case 4: return ResultStatus::INFEASIBLE;
  case -5: case -7: return ResultStatus::ERROR;
  default: return ResultStatus::UNKNOWN;
  }
}
extern "C" void sx_main() {
  Ctl *pc = newCtl();
  Ctl &c = *pc;
  quiet(c);
  MA A = symM<MA>("A", NX, NX);
  MB B = symM<MB>("B", NX, NU, 1);
  MCc C = symM<MCc>("C", NY, NX, 2);
  sx_check(c.setStateSpaceModel(A, B, C), "model accepted");
  MBd Bd(NX, ND);
  MDd Dd(NY, ND);
  fill(Bd, "Bd");
  fill(Dd, "Dd");
  DB d(ND, PH);
  fill(d, "d");
#if ND > 0
  c.setDisturbances(Bd, Dd);
  c.setExogenousInputs(d);
#endif
  double cmd[NU];
  for (int j = 0; j < NU; j++) cmd[j] = 0;
#if MODE == 2
  lp.enable_warm_start = sx_pick(sx_bool("warm"));
  c.setOptimizerParameters(lp);
#endif
  for (call_ = 0; call_ < CALLS; call_++) {
#if MODE == 1
    code_ = sx_pick(sx_int("code", -11, 6));
    out_ = code_ == -3 ? PINF : code_ == -4 ? DINF : code_ == 3 || code_ == 4 ? PINFI : code_ == -7 ? NONCVX : GOOD;
#elif MODE == 2
#ifdef OUTS
    static const int outs[] = OUTS;
    out_ = outs[sx_pick(sx_int(Nm("out", call_), 0, sizeof outs / sizeof *outs - 1))];
#else
    out_ = sx_pick(sx_int(Nm("out", call_), 0, NOUT - 1));
#endif
#else
    static const int outs[3] = {GOOD, SOLVEERR, SETUP0};
    out_ = outs[sx_pick(sx_int(Nm("out", call_), 0, call_ == CALLS - 1 ? 0 : 2))];
    if (sx_pick(sx_bool(Nm("setp", call_)))) {
      LParameters p;
      p.alpha = sd1("alpha", call_); p.rho = sd1("rho", call_);
      p.eps_rel = sd1("er", call_); p.eps_abs = sd1("ea", call_); p.eps_prim_inf = sd1("ep", call_); p.eps_dual_inf = sd1("ed", call_);
      p.time_limit = sd1("tl", call_);
      p.maximum_iteration = sx_int(Nm("mi", call_), -5, 10000);
      int bits = sx_pick(sx_int(Nm("bits", call_), 0, 3));
      p.verbose = bits == 1; p.adaptive_rho = bits != 2; p.polish = bits == 3;
      p.enable_warm_start = sx_pick(sx_bool(Nm("warm", call_)));
      c.setOptimizerParameters(p);
      lp = p;
      sx_cover("settings");
    }
    if (int user = call_ < 2 ? sx_pick(sx_int(Nm("user", call_), 0, call_ == 0 ? 4 : 1)) : 0) {
      // of the size of the problem, or shorter, longer, empty
      hx = user == 2 ? NV - 1 : user == 3 ? NV + 1 : NV;
      hy = user == 2 ? MC : user == 3 ? MC + 1 : user == 4 ? 0 : MC;
      std::vector<double> x(hx), y(hy);
      for (int i = 0; i < hx; i++) lastx[i] = x[i] = sd2("ux", call_, i);
      for (int i = 0; i < hy; i++) lasty[i] = y[i] = sd2("uy", call_, i);
      c.setSolverWarmStart(x, y);
      sx_cover(user == 1 ? "user warm start" : "user warm start of another size");
    }
#endif
    XV x0 = symV<XV>(Nm("x0", call_), NX);
    UV u0 = symV<UV>(Nm("u0", call_), NU);
    int sb = setups;
    auto r = c.optimize(x0, u0);
    sx_check(setups == sb + 1, "one setup per optimisation");
    sx_check(sx_osqp_live == 0, "solver workspace released");
    auto s = c.getOptimalSequence();
    auto l = c.getLastResult();
    sx_check((int)r.cmd.rows() == NU, "command size");
    sx_check((int)s.state.rows() == PH + 1 && (int)s.state.cols() == NX && (int)s.input.rows() == PH + 1 && (int)s.input.cols() == NU &&
                 (int)s.output.rows() == PH + 1 && (int)s.output.cols() == NY, "sequence shape");
    bool solved = out_ != SETUP0 && out_ != SETUPW && out_ != SOLVEERR;
    if (finite_()) {
      sx_check(r.solver_status == code_, "solver code");
      sx_check(r.status == want(code_), "status");
      sx_check_eq(r.cost, obj_, "cost of this solve");
      if (code_ == 1 || code_ == 2 || code_ == -2) sx_check(r.is_feasible, "feasible");
      for (int j = 0; j < NU; j++) sx_check_eq(r.cmd(j), cmd[j] = sol[vu(1, j)], "input applied at step 0");
      for (int k = 0; k <= PH; k++) {
        for (int j = 0; j < NX; j++) sx_check_eq(s.state(k, j), sol[vx(k, j)], "state sequence");
        for (int j = 0; j < NU; j++) sx_check_eq(s.input(k, j), sol[vu(k < PH ? k + 1 : PH, j)], "input sequence");
        for (int j = 0; j < NY; j++) {
          double y = 0;
          for (int i = 0; i < NX; i++) y += C(j, i) * sol[vx(k, i)];
          for (int i = 0; i < ND; i++) y += Dd(j, i) * d(i, k ? k - 1 : 0);
          sx_check_eq(s.output(k, j), y, "output sequence");
        }
      }
      hx = NV;
      hy = MC;
      for (int i = 0; i < NV; i++) lastx[i] = sol[i];
      for (int i = 0; i < MC; i++) lasty[i] = dual[i];
      sx_cover("answer");
    } else {
      sx_check(r.status != ResultStatus::SUCCESS, "no answer is never a success");
      if (solved && (MODE == 1 || (out_ != NULLX && out_ != NANX))) {
        sx_check(r.status == want(code_), "status");
        sx_check(r.solver_status == code_, "solver code");
      }
      sx_check(r.cost == INFINITY, "no answer: infinite cost");
      sx_check(!r.is_feasible, "no answer: infeasible");
      for (int j = 0; j < NU; j++) sx_check_eq(r.cmd(j), cmd[j], "no answer: previous command");
      for (int k = 0; k <= PH; k++) {
        for (int j = 0; j < NX; j++) sx_check(s.state(k, j) == 0, "no answer: zero sequence");
        for (int j = 0; j < NU; j++) sx_check(s.input(k, j) == 0, "no answer: zero sequence");
        for (int j = 0; j < NY; j++) sx_check(s.output(k, j) == 0, "no answer: zero sequence");
      }
      sx_cover(out_ == SETUP0 || out_ == SETUPW ? "setup failure" : out_ == SOLVEERR ? "solve failure" : out_ == NULLX || out_ == NANX ? "unusable" : "no solution");
    }
    // what is remembered
    auto px = c.getSolverWarmStartPrimal(), py = c.getSolverWarmStartDual();
    sx_check((int)px.size() == hx && (int)py.size() == hy, "remembered answer");
    for (int i = 0; i < hx; i++) sx_check_eq(px[i], lastx[i], "remembered primal");
    for (int i = 0; i < hy; i++) sx_check_eq(py[i], lasty[i], "remembered dual");
    sx_check(l.status == r.status && l.solver_status == r.solver_status && l.is_feasible == r.is_feasible, "last result");
    if (finite_()) sx_check_eq(l.cost, r.cost, "last result"); else sx_check(l.cost == r.cost, "last result");
    eqm(l.cmd, r.cmd, "last result");
  }
  delete pc;
  sx_cover("end");
}
