// C22: every integration is a chain of classical fourth order Runge-Kutta
// steps. FIELD 0: an arbitrary vector field (unknown functions of time and
// state); 1: polynomial field; 2: field that ignores time (used concretely).
#include "sx.hpp"
#include <functional>
#include <mpc/Types.hpp>
#include <mpc/Integrator.hpp>
using namespace mpc;
#ifndef NN
#define NN 2
#endif
#ifndef STEPS
#define STEPS 2
#endif
#ifndef FIELD
#define FIELD 0
#endif
static double co[NN][NN + 3];
static void field(double t, const double *x, double *o) {
  for (int i = 0; i < NN; i++) {
#if FIELD == 0
    double a[NN + 1];
    a[0] = t;
    for (int j = 0; j < NN; j++) a[j + 1] = x[j];
    o[i] = sx_uf(Nm("f", i), a, NN + 1);
#else
    double s = co[i][NN] + co[i][NN + 1] * t + co[i][NN + 2] * t * x[i] * (FIELD == 1);
    for (int j = 0; j < NN; j++) s += co[i][j] * x[j];
    if (FIELD == 1) s += co[i][NN] * x[0] * x[NN - 1];
    o[i] = s;
#endif
  }
}
extern "C" void sx_main() {
#if FIELD
  for (int i = 0; i < NN; i++) for (int j = 0; j < NN + 3; j++) co[i][j] = sd2("c", i, j);
#endif
  RK4<NN> rk([](double t, const cvec<NN> &x) {
    double a[NN], o[NN];
    for (int i = 0; i < NN; i++) a[i] = x(i);
    field(t, a, o);
    cvec<NN> r;
    for (int i = 0; i < NN; i++) r(i) = o[i];
    return r;
  });
  for (int round = 0; round < ROUNDS; round++) { // an integrator keeps nothing
    double t = sd1("t", round), h = sd1("h", round);
    int m = sx_pick(sx_int(Nm("steps", round), 0, STEPS));
    cvec<NN> in;
    double x[NN], keep[NN];
    for (int i = 0; i < NN; i++) in(i) = x[i] = keep[i] = sd2("x", round, i);
    cvec<NN> out = m == 1 && sx_pick(sx_bool(Nm("default", round))) ? rk.run(t, in, h) : rk.run(t, in, h, m);
    for (int s = 0; s < m; s++) {
      double k[4][NN], y[NN], ts = t + s * h;
      field(ts, x, k[0]);
      for (int i = 0; i < NN; i++) y[i] = x[i] + h / 2 * k[0][i];
      field(ts + h / 2, y, k[1]);
      for (int i = 0; i < NN; i++) y[i] = x[i] + h / 2 * k[1][i];
      field(ts + h / 2, y, k[2]);
      for (int i = 0; i < NN; i++) y[i] = x[i] + h * k[2][i];
      field(ts + h, y, k[3]);
      for (int i = 0; i < NN; i++) x[i] = x[i] + h / 6 * (k[0][i] + 2 * k[1][i] + 2 * k[2][i] + k[3][i]);
    }
    for (int i = 0; i < NN; i++) sx_check_eq(out(i), x[i], m ? "integrated state" : "no step");
    for (int i = 0; i < NN; i++) sx_check_eq(in(i), keep[i], "initial state untouched");
    sx_cover(m == 0 ? "none" : m == 1 ? "one" : "many");
  }
  sx_cover("end");
}
