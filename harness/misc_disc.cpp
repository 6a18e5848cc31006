// C21: continuous to discrete conversion. The matrix exponential itself (Eigen)
// is an arbitrary function of its argument.
#include "sx.hpp"
#include <mpc/Utils.hpp>
using namespace mpc;
#ifndef NX
#define NX 2
#endif
#ifndef NU
#define NU 1
#endif
#ifndef ND
#define ND 2
#endif
#ifndef NY
#define NY 3
#endif
template <int M> static void expo(const double (&a)[M][M], double (&o)[M][M]) {
  double v[M * M];
  for (int i = 0; i < M; i++) for (int j = 0; j < M; j++) v[i * M + j] = a[i][j];
  for (int i = 0; i < M; i++) for (int j = 0; j < M; j++) o[i][j] = sx_uf(Nm("exp", M, i, j), v, M * M);
}
extern "C" void sx_main() {
  mat<NX, NX> A, Ad; mat<NX, NU> B, Bd; mat<NX, ND> E, Ed; mat<NY, NX> C, Cd; mat<NY, NU> D, Dd;
  fill(A, "A"); fill(B, "B"); fill(E, "E"); fill(C, "C"); fill(D, "D");
  double Ts = sd("Ts");
  int what = sx_pick(sx_int("overload", 0, 2));
  if (what == 1) {
    double a[NX + NU + ND][NX + NU + ND], o[NX + NU + ND][NX + NU + ND];
    for (auto &r : a) for (double &v : r) v = 0;
    for (int i = 0; i < NX; i++) {
      for (int j = 0; j < NX; j++) a[i][j] = Ts * A(i, j);
      for (int j = 0; j < NU; j++) a[i][NX + j] = Ts * B(i, j);
      for (int j = 0; j < ND; j++) a[i][NX + NU + j] = Ts * E(i, j);
    }
    expo(a, o);
    discretization<NX, NU, ND>(A, B, E, Ts, Ad, Bd, Ed);
    for (int i = 0; i < NX; i++) {
      for (int j = 0; j < NX; j++) sx_check_eq(Ad(i, j), o[i][j], "Ad");
      for (int j = 0; j < NU; j++) sx_check_eq(Bd(i, j), o[i][NX + j], "Bd");
      for (int j = 0; j < ND; j++) sx_check_eq(Ed(i, j), o[i][NX + NU + j], "Bed");
    }
    sx_cover("exogenous");
  } else {
    double a[NX + NU][NX + NU], o[NX + NU][NX + NU];
    for (auto &r : a) for (double &v : r) v = 0;
    for (int i = 0; i < NX; i++) {
      for (int j = 0; j < NX; j++) a[i][j] = Ts * A(i, j);
      for (int j = 0; j < NU; j++) a[i][NX + j] = Ts * B(i, j);
    }
    expo(a, o);
    mat<NX, NX> A0 = A; mat<NX, NU> B0 = B; mat<NY, NX> C0 = C; mat<NY, NU> D0 = D;
    if (what == 0) discretization<NX, NU>(A, B, Ts, Ad, Bd);
    else {
      discretization<NX, NU, NY>(A, B, C, D, Ts, Ad, Bd, Cd, Dd);
      eqm(Cd, C0, "Cd");
      eqm(Dd, D0, "Dd");
      sx_cover("outputs");
    }
    eqm(A, A0, "inputs untouched");
    eqm(B, B0, "inputs untouched");
    for (int i = 0; i < NX; i++) {
      for (int j = 0; j < NX; j++) sx_check_eq(Ad(i, j), o[i][j], "Ad");
      for (int j = 0; j < NU; j++) sx_check_eq(Bd(i, j), o[i][NX + j], "Bd");
    }
    sx_cover("plain");
  }
  sx_cover("end");
}
