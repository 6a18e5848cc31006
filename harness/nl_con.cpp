// C05-C08: constraint and objective values and gradients handed to the solver.
// WHAT: 1 dynamics values, 2 dynamics gradient, 3 user constraints, 4 objective
// TIME: 0 discrete, 1 continuous; SCALE: 0 none, 1 both before, 2 both after, 3 input, 4 state
#include "nl.hpp"
#ifndef WHAT
#define WHAT 1
#endif
#ifndef TIME
#define TIME 0
#endif
#ifndef SCALE
#define SCALE 0
#endif
#ifndef NPOINT
#define NPOINT 2
#endif
static int pt, call_;
static double last[NZ];
static void exact(double a, double b, const char *tag) { sx_check_eq(a, b, tag); }
extern "C" int sx_nlopt_solve(nlopt_opt o, double *x, double *f) {
  sx_check((int)o->n == NZ, "number of solver variables");
  *f = 0;
  for (pt = 0; pt < NPOINT; pt++) {
    static const char *zn[5] = {"z", "y", "w", "v", "t"};
    double z[NZ];
    // the second solve starts with the last vector of the first one (other state)
    bool again = call_ == 1 && pt == 0;
    if (again) for (int i = 0; i < NZ; i++) z[i] = last[i];
    else symZ(z, zn[call_ * 2 + pt]);
    for (int i = 0; i < NZ; i++) last[i] = z[i];
    bool grad = NPOINT == 1 || pt == 1 - call_;
    double *r = new double[NX * PH + NI + NE], *G = grad ? new double[(NX * PH + NI + NE) * NZ] : nullptr;
    Traj<double> t;
    expand(t, z);
#if WHAT == 1 || WHAT == 2
    int found = 0;
    for (int i = 0; i < o->neq; i++) {
      if ((int)o->eq[i].m != NX * PH) continue;
      found++;
      double *want = new double[NX * PH];
      sx_con(o, o->eq[i], r, z, G);
#if WHAT == 1
      specDyn<double>(t, want);
      for (int j = 0; j < NX * PH; j++) exact(r[j], want[j], "dynamics constraint value");
      sx_cover(grad ? "value with gradient" : "value only");
#else
      if (grad) {
        Dual *w = new Dual[NX * PH];
        for (int d = 0; d < NZ; d++) {
          Traj<Dual> td;
          expand(td, z, d);
          specDyn<Dual>(td, w);
          for (int j = 0; j < NX * PH; j++) exact(G[j * NZ + d], w[j].d, d == NZ - 1 ? "dynamics gradient, slack" : d < NX * PH ? "dynamics gradient, state" : "dynamics gradient, input");
        }
        delete[] w;
        sx_cover("gradient");
      }
#endif
      delete[] want;
    }
    sx_check(found == 1 && o->neq == 1, "one dynamics constraint block");
#elif WHAT == 3
    sx_check(o->nineq == (NI > 0) && o->neq == 1 + (NE > 0), "constraint blocks registered");
    for (int k = 0; k < 2; k++) {
      int n = k ? NE : NI;
      const SxCon *cc = nullptr;
      if (!k && o->nineq == 1) cc = &o->ineq[0];
      for (int i = 0; k && i < o->neq; i++)
        if (o->eq[i].mf && (int)o->eq[i].m == NE) cc = &o->eq[i];
      if (!cc) { sx_check(n == 0, "user constraints registered"); continue; }
      sx_check((int)cc->m == n, "one entry per declared constraint");
      double want[NI + NE + 1];
      Dual w[NI + NE + 1];
      sx_con(o, *cc, r, z, G);
      if (k) specEq<double>(t, want); else specIneq<double>(t, want);
      for (int j = 0; j < n; j++) exact(r[j], want[j], k ? "equality value" : "inequality value");
      if (grad) {
        for (int d = 0; d < NZ; d++) {
          Traj<Dual> td;
          expand(td, z, d);
          if (k) specEq<Dual>(td, w); else specIneq<Dual>(td, w);
          for (int j = 0; j < n; j++)
            exact(G[j * NZ + d], w[j].d, k ? (d == NZ - 1 ? "equality gradient, slack" : d < NX * PH ? "equality gradient, state" : "equality gradient, input")
                                           : (d == NZ - 1 ? "inequality gradient, slack" : d < NX * PH ? "inequality gradient, state" : "inequality gradient, input"));
        }
        sx_cover(k ? "equality gradient" : "inequality gradient");
      }
      sx_cover(k ? "equality" : "inequality");
    }
#else
    double v = sx_obj(o, z, G);
    exact(v, specObj<double>(t), "objective value");
    if (grad) {
      for (int d = 0; d < NZ; d++) {
        Traj<Dual> td;
        expand(td, z, d);
        exact(G[d], specObj<Dual>(td).d, d == NZ - 1 ? "objective gradient, slack" : d < NX * PH ? "objective gradient, state" : "objective gradient, input");
      }
      sx_cover("objective gradient");
    }
    sx_cover("objective");
#endif
    delete[] r;
    delete[] G;
  }
  return 1;
}
extern "C" void sx_main() {
  static_assert(NE != NX * PH, "sizes must differ");
  unitScale();
  symDyn();
  Ctl *pc = newCtl();
  Ctl &c = *pc;
  quiet(c);
#if SCALE == 1
  setScales(c, true, true);
#elif SCALE == 2
  decoyScales(c);
#endif
#if WHAT == 3
  symIneq();
  symEq();
#if NI > 0
  bindIneq(c);
#endif
#endif
#if WHAT >= 3 && !defined(NOOUT)
  symOut();
  bindOut(c);
#endif
#if WHAT == 4
  symObj();
  bindObj(c);
#else
  trivialObj(c);
#endif
  bindDyn(c);
#if WHAT == 3 && NE > 0
  bindEq(c);
#endif
#if TIME == 1
  contTime = true;
  sx_check(c.setDiscretizationSamplingTime(sd("Tdecoy", 0.0625, 2)), "sampling time accepted");
  Ts = sd("Ts", 0.0625, 2);
  sx_check(c.setDiscretizationSamplingTime(Ts), "sampling time accepted");
#endif
#if SCALE == 2
  setScales(c, true, true);
#elif SCALE == 3
  setScales(c, false, true);
#elif SCALE == 4
  setScales(c, true, false);
#endif
#ifndef CALLS
#define CALLS 1
#endif
  for (call_ = 0; call_ < CALLS; call_++) c.optimize(symX0(call_ ? "x0b" : "x0"), symU0(call_ ? "u0b" : "u0"));
  sx_cover("end");
  delete pc;
}
