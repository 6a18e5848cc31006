// C03: after any sequence of bound, scale and parameter calls the bounds in
// force in the solver are the last ones given for each variable.
#include "nl.hpp"
static nlopt_opt opt_;
static double L[NZ], H[NZ]; // expected, unscaled
static int op_;
extern "C" int sx_nlopt_solve(nlopt_opt o, double *x, double *f) {
  sx_check((int)o->n == NZ, "number of solver variables");
  for (int i = 0; i < NZ - 1; i++) {
    double s = i < PH * NX ? sX[i % NX] : sU[(i - PH * NX) % NU];
    if (L[i] == -INFINITY) sx_check(o->lb[i] == -INFINITY, "lower bound never set");
    else sx_check_eq(o->lb[i] * s, L[i], "lower bound in force");
    if (H[i] == INFINITY) sx_check(o->ub[i] == INFINITY, "upper bound never set");
    else sx_check_eq(o->ub[i] * s, H[i], "upper bound in force");
  }
  sx_cover("solve");
  *f = 0;
  return 1;
}
static double lo(const char *p, int i, int j) { return sx_pick(sx_bool(Nm("unb", op_))) ? -INFINITY : sd3(p, op_, i, j, -RNG, band(i + j + op_)); }
static double up(const char *p, int i, int j) { return sd3(p, op_, i, j, band(i + j + op_), RNG); }
static void put(int i, double l, double h) { L[i] = l; H[i] = h; }
extern "C" void sx_main() {
  unitScale();
  for (int i = 0; i < NZ; i++) L[i] = -INFINITY, H[i] = INFINITY;
  Ctl *pc = newCtl();
  Ctl &c = *pc;
  quiet(c);
  c.setStateSpaceFunction([](XV &dx, const XV &, const UV &, const unsigned int &) { dx.setZero(); });
  trivialObj(c);
#ifndef OPS
#define OPS 2
#endif
  for (op_ = 0; op_ < OPS; op_++) {
    int what = sx_pick(sx_int(Nm("op", op_), 0, 6));
    if (what == 0 || what == 1) { // state matrix / input matrix
      int R = what ? NU : NX, N = what ? CH : PH, off = what ? PH * NX : 0;
      mat<> a(R, N), b(R, N);
      for (int k = 0; k < N; k++)
        for (int j = 0; j < R; j++) {
          a(j, k) = sd3("lo", op_, k, j, -RNG, band(k + j + op_));
          b(j, k) = up("up", k, j);
          put(off + k * R + j, a(j, k), b(j, k));
        }
      sx_check(what ? c.setInputBounds(UB(a), UB(b)) : c.setStateBounds(XB(a), XB(b)), "matrix bounds accepted");
      sx_cover(what ? "input matrix" : "state matrix");
    } else if (what == 2 || what == 3) { // slices
      int R = what == 3 ? NU : NX, N = what == 3 ? CH : PH, off = what == 3 ? PH * NX : 0;
      int s = sx_pick(sx_int(Nm("s", op_), -1, N - 1)), e = s < 0 ? -1 : sx_pick(sx_int(Nm("e", op_), s + 1, N));
      int half = sx_pick(sx_bool(Nm("half", op_)));
      cvec<> a(R), b(R);
      for (int j = 0; j < R; j++) {
        a(j) = half && j == 0 ? -INFINITY : sd3("lo", op_, 0, j, -RNG, band(j + op_));
        b(j) = half && j == R - 1 ? INFINITY : up("up", 0, j);
        for (int k = s < 0 ? 0 : s; k < (s < 0 ? N : e); k++) put(off + k * R + j, a(j), b(j));
      }
      sx_check(what == 3 ? c.setInputBounds(UV(a), UV(b), HorizonSlice{s, e}) : c.setStateBounds(XV(a), XV(b), HorizonSlice{s, e}), "slice bounds accepted");
      sx_cover(what == 3 ? "input slice" : "state slice");
    } else if (what == 4) {
      XV v(NX);
      for (int j = 0; j < NX; j++) v(j) = sX[j] = sd2("sX", op_, j, SLO, SHI);
      c.setStateScale(v);
      sx_cover("state scale");
    } else if (what == 5) {
      UV v(NU);
      for (int j = 0; j < NU; j++) v(j) = sU[j] = sd2("sU", op_, j, SLO, SHI);
      c.setInputScale(v);
      sx_cover("input scale");
    } else {
      NLParameters p;
      p.hard_constraints = sx_pick(sx_bool(Nm("hard", op_)));
      c.setOptimizerParameters(p);
      sx_cover("parameters");
    }
  }
  c.optimize(symX0(), symU0());
  sx_cover("end");
  delete pc;
}
