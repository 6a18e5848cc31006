// C04, nonlinear controller: a horizon slice is accepted exactly when well
// formed, then covers exactly its steps; a rejected call changes nothing.
#include "nl.hpp"
#ifndef OPS
#define OPS 1
#endif
static double L[NZ], H[NZ];
extern "C" int sx_nlopt_solve(nlopt_opt o, double *, double *f) {
  sx_check((int)o->n == NZ, "number of solver variables");
  for (int i = 0; i < NZ - 1; i++) {
    sx_check_eq(o->lb[i], L[i], "lower bound in force");
    sx_check_eq(o->ub[i], H[i], "upper bound in force");
  }
  *f = 0;
  return 1;
}
extern "C" void sx_main() {
  unitScale();
  Ctl *pc = newCtl();
  Ctl &c = *pc;
  quiet(c);
  c.setStateSpaceFunction([](XV &dx, const XV &, const UV &, const unsigned int &) { dx.setZero(); });
  trivialObj(c);
  { // bounds everywhere first, so that any loss shows
    mat<> a(NX, PH), b(NX, PH), d(NU, CH), e(NU, CH);
    fill(a, "xl", -RNG, 0); fill(b, "xu", 0, RNG); fill(d, "ul", -RNG, 0); fill(e, "uu", 0, RNG);
    for (int k = 0; k < PH; k++) for (int j = 0; j < NX; j++) L[k * NX + j] = a(j, k), H[k * NX + j] = b(j, k);
    for (int k = 0; k < CH; k++) for (int j = 0; j < NU; j++) L[PH * NX + k * NU + j] = d(j, k), H[PH * NX + k * NU + j] = e(j, k);
    sx_check(c.setStateBounds(XB(a), XB(b)) && c.setInputBounds(UB(d), UB(e)), "matrix bounds accepted");
  }
  for (int op = 0; op < OPS; op++) {
    int what = sx_pick(sx_bool(Nm("input", op)));
    int N = what ? CH : PH, R = what ? NU : NX, off = what ? PH * NX : 0;
    int s = sx_int(Nm("s", op), -1000000, 1000000), e = sx_int(Nm("e", op), -1000000, 1000000);
    bool all = s == -1 && e == -1, ok = all || (s >= 0 && s < e && e <= N);
    cvec<> a(R), b(R);
    for (int j = 0; j < R; j++) {
      a(j) = sd2("lo", op, j, -RNG, band(j + op + 1)), b(j) = sd2("up", op, j, band(j + op + 1), RNG);
      if (ok) {
        if (!all) s = sx_pick(s), e = sx_pick(e);
        for (int k = all ? 0 : s; k < (all ? N : e); k++) L[off + k * R + j] = a(j), H[off + k * R + j] = b(j);
      }
    }
    bool got = what ? c.setInputBounds(UV(a), UV(b), HorizonSlice{s, e}) : c.setStateBounds(XV(a), XV(b), HorizonSlice{s, e});
    sx_check(got == ok, ok ? "well formed slice accepted" : "malformed slice rejected");
    sx_cover(ok ? (all ? "all" : "accepted") : "rejected");
  }
  c.optimize(symX0(), symU0());
  sx_cover("end");
  delete pc;
}
