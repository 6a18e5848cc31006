// C01: what the user functions see, and what is reported, for any solver vector.
// The user functions return the number of the call, so that the call whose value
// reached the solver is known; that call must have seen the right trajectory.
#include "nl.hpp"
struct Rec { XM x; YM y; UM u; double e; };
static std::vector<Rec> *recs;
static int push(const XM &x, const YM *y, const UM &u, double e) {
  Rec r;
  r.x = x; r.u = u; r.e = e;
  if (y) r.y = *y;
  recs->push_back(r);
  return (int)recs->size() - 1;
}
static void judge(double v, const double *z, bool y, bool e, const char *who) {
  int i = (int)v;
  sx_check(i >= 0 && i < (int)recs->size(), "a user function is evaluated");
  Rec &r = (*recs)[i];
  Traj<double> t;
  expand(t, z);
  sx_check((int)r.x.rows() == PH + 1 && (int)r.x.cols() == NX && (int)r.u.rows() == PH + 1 && (int)r.u.cols() == NU, "trajectory shape");
  for (int k = 0; k <= PH; k++) {
    for (int j = 0; j < NX; j++) sx_check_eq(r.x(k, j), t.X[k][j], "states given to a user function");
    for (int j = 0; j < NU; j++) sx_check_eq(r.u(k, j), t.U[k][j], "inputs given to a user function");
    if (y) for (int j = 0; j < NY; j++) sx_check_eq(r.y(k, j), t.Y[k][j], "outputs given to a user function");
  }
  if (e) sx_check_eq(r.e, t.e, "slack given to a user function");
  sx_cover(who);
}
static double zans[NZ];
static int round_ = 0;
extern "C" int sx_nlopt_solve(nlopt_opt o, double *x, double *f) {
  sx_check((int)o->n == NZ, "number of solver variables");
  for (int rep = 0; rep < 2; rep++) { // a second, different vector in the same solve
    double z[NZ], r[64];
    symZ(z, rep ? "y" : (round_ ? "w" : "z"));
    recs->clear();
    *f = sx_obj(o, z, nullptr);
    judge(*f, z, true, true, "objective");
    sx_check(o->nineq == 1 && o->neq == 2, "constraints registered");
    for (int i = 0; i < o->nineq; i++) {
      recs->clear();
      sx_con(o, o->ineq[i], r, z, nullptr);
      for (int j = 0; j < NI; j++) judge(r[j], z, true, true, "inequality");
    }
    recs->clear();
    for (int i = 0; i < o->neq; i++)
      if (o->eq[i].m == NE) { // the user constraints (sizes differ from the dynamics)
        sx_con(o, o->eq[i], r, z, nullptr);
        for (int j = 0; j < NE; j++) judge(r[j], z, false, false, "equality");
      }
  }
  symZ(zans, round_ ? "ansB" : "ans");
  for (int i = 0; i < NZ; i++) x[i] = zans[i];
  round_++;
  return 1;
}
extern "C" void sx_main() {
  static_assert(NE != NX * PH, "sizes must differ");
  recs = new std::vector<Rec>();
  unitScale();
  symOut();
  Ctl *pc = newCtl();
  Ctl &c = *pc;
  quiet(c);
#if SCALE == 1
  setScales(c, true, true); // before the functions
#elif SCALE == 2
  decoyScales(c);
#endif
  bindOut(c);
  c.setStateSpaceFunction([](XV &dx, const XV &, const UV &, const unsigned int &) { dx.setZero(); });
  c.setObjectiveFunction([](const XM &x, const YM &y, const UM &u, const double &e) { return (double)push(x, &y, u, e); });
  c.setIneqConFunction([](IV &o, const XM &x, const YM &y, const UM &u, const double &e) { o.setConstant(push(x, &y, u, e)); });
  c.setEqConFunction([](EV &o, const XM &x, const UM &u) { o.setConstant(push(x, nullptr, u, 0)); });
#if SCALE == 2
  setScales(c, true, true); // after the functions
#elif SCALE == 3
  setScales(c, false, true);
#endif
  for (int n = 0; n < 2; n++) {
    XV x0 = symX0(n ? "x0b" : "x0");
    UV u0 = symU0(n ? "u0b" : "u0");
    auto r = c.optimize(x0, u0);
    auto s = c.getOptimalSequence();
    Traj<double> t;
    expand(t, zans);
    sx_check((int)s.state.rows() == PH + 1 && (int)s.state.cols() == NX, "state sequence shape");
    sx_check((int)s.input.rows() == PH + 1 && (int)s.input.cols() == NU, "input sequence shape");
    sx_check((int)s.output.rows() == PH + 1 && (int)s.output.cols() == NY, "output sequence shape");
    for (int k = 0; k <= PH; k++) {
      for (int j = 0; j < NX; j++) sx_check_eq(s.state(k, j), t.X[k][j], "returned state sequence");
      for (int j = 0; j < NU; j++) sx_check_eq(s.input(k, j), t.U[k][j], "returned input sequence");
      for (int j = 0; j < NY; j++) sx_check_eq(s.output(k, j), t.Y[k][j], "returned output sequence");
    }
    sx_check((int)r.cmd.rows() == NU, "command size");
    for (int j = 0; j < NU; j++) sx_check_eq(r.cmd(j), t.U[0][j], "returned command");
  }
  sx_cover("end");
  delete pc;
  delete recs;
}
