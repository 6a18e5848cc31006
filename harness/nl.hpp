// Common parts of the nonlinear harnesses.
// Sizes: -DNX -DNU -DNY -DPH -DCH -DNI -DNE, -DDYN=1 for run-time sizes.
#pragma once
#include "nlopt_stub.hpp"
#include <mpc/NLMPC.hpp>
using namespace mpc;
#ifndef NX
#define NX 2
#endif
#ifndef NU
#define NU 1
#endif
#ifndef NY
#define NY 1
#endif
#ifndef PH
#define PH 3
#endif
#ifndef CH
#define CH 2
#endif
#ifndef NI
#define NI 2
#endif
#ifndef NE
#define NE 1
#endif
#ifndef DYN
#define DYN 0
#endif
static const int NZ = PH * NX + CH * NU + 1;
#if DYN
typedef NLMPC<> Ctl;
#define CTL_ARGS (NX, NU, NY, PH, CH, NI, NE)
typedef mat<> XM; typedef mat<> UM; typedef mat<> YM;
typedef cvec<> XV; typedef cvec<> UV; typedef cvec<> YV; typedef cvec<> IV; typedef cvec<> EV;
typedef mat<> XB; typedef mat<> UB; // bound matrices
#else
typedef NLMPC<NX, NU, NY, PH, CH, NI, NE> Ctl;
#define CTL_ARGS
typedef mat<PH + 1, NX> XM; typedef mat<PH + 1, NU> UM; typedef mat<PH + 1, NY> YM;
typedef cvec<NX> XV; typedef cvec<NU> UV; typedef cvec<NY> YV; typedef cvec<NI> IV; typedef cvec<NE> EV;
typedef mat<NX, PH> XB; typedef mat<NU, CH> UB;
#endif
static Ctl *newCtl() { return new Ctl CTL_ARGS; }
static void quiet(Ctl &c) { c.setLoggerLevel(Logger::log_level::NONE); }

// ---- dual numbers: exact derivatives for the reference
struct Dual {
  double v, d;
  Dual(double v = 0, double d = 0) : v(v), d(d) {}
};
static inline Dual operator+(Dual a, Dual b) { return Dual(a.v + b.v, a.d + b.d); }
static inline Dual operator-(Dual a, Dual b) { return Dual(a.v - b.v, a.d - b.d); }
static inline Dual operator*(Dual a, Dual b) { return Dual(a.v * b.v, a.v * b.d + a.d * b.v); }
static inline Dual operator/(Dual a, double b) { return Dual(a.v / b, a.d / b); }

template <class S> struct Traj { // trajectory as the properties describe it
  S X[PH + 1][NX], U[PH + 1][NU], Y[PH + 1][NY > 0 ? NY : 1];
  S e;
};
template <class S> struct Acc {
  const S *p;
  int c;
  const S &operator()(int i, int j) const { return p[i * c + j]; }
};

// ---- user functions with symbolic coefficients. Polynomials chosen so that the
// finite differences of the library are exact over the reals: at most quadratic
// in a perturbation for the central ones (dynamics, constraints), affine in a
// perturbation for the forward ones (objective).
struct Coef {
  double A[NX][NX], B[NX][NU], Q[NX], R[NX], T[NX];
  double C[NY > 0 ? NY : 1][NX], D[NY > 0 ? NY : 1][NU], W[NY > 0 ? NY : 1], V[NY > 0 ? NY : 1];
  double a[PH + 1][NX], b[PH + 1][NU], c[PH + 1], q[8];
  double g[NI > 0 ? NI : 1][8], h[NE > 0 ? NE : 1][8];
};
static Coef K;
static void symDyn() {
  for (int i = 0; i < NX; i++) {
    for (int j = 0; j < NX; j++) K.A[i][j] = sd2("A", i, j);
    for (int j = 0; j < NU; j++) K.B[i][j] = sd2("B", i, j);
    K.Q[i] = sd1("Q", i); K.R[i] = sd1("R", i); K.T[i] = sd1("T", i);
  }
}
static void symOut() {
  for (int i = 0; i < NY; i++) {
    for (int j = 0; j < NX; j++) K.C[i][j] = sd2("C", i, j);
    for (int j = 0; j < NU; j++) K.D[i][j] = sd2("D", i, j);
    K.W[i] = sd1("W", i); K.V[i] = sd1("V", i);
  }
}
static void symObj() {
  for (int k = 0; k <= PH; k++) {
    for (int j = 0; j < NX; j++) K.a[k][j] = sd2("a", k, j);
    for (int j = 0; j < NU; j++) K.b[k][j] = sd2("b", k, j);
    K.c[k] = sd1("c", k);
  }
  for (int i = 0; i < 8; i++) K.q[i] = sd1("q", i);
}
static void symIneq() { for (int i = 0; i < NI; i++) for (int j = 0; j < 8; j++) K.g[i][j] = sd2("g", i, j); }
static void symEq() { for (int i = 0; i < NE; i++) for (int j = 0; j < 8; j++) K.h[i][j] = sd2("h", i, j); }

template <class S, class XA, class UA, class O> static void fDyn(O &o, const XA &x, const UA &u, int k) {
  for (int i = 0; i < NX; i++) {
    S s = S(K.T[i] * k);
    for (int j = 0; j < NX; j++) s = s + S(K.A[i][j]) * x(j);
    for (int j = 0; j < NU; j++) s = s + S(K.B[i][j]) * u(j);
    s = s + S(K.Q[i]) * x(i) * u(0) + S(K.R[i]) * x(0) * x(NX - 1);
    o(i) = s;
  }
}
template <class S, class XA, class UA, class O> static void fOut(O &o, const XA &x, const UA &u, int k) {
  for (int i = 0; i < NY; i++) {
    S s = S(K.V[i] * k);
    for (int j = 0; j < NX; j++) s = s + S(K.C[i][j]) * x(j);
    for (int j = 0; j < NU; j++) s = s + S(K.D[i][j]) * u(j);
    s = s + S(K.W[i]) * x(NX - 1) * u(NU - 1);
    o(i) = s;
  }
}
template <class S, class XA, class YA, class UA> static S fObj(const XA &X, const YA &Y, const UA &U, const S &e) {
  S s = S(0.0);
  for (int k = 0; k <= PH; k++) {
    for (int j = 0; j < NX; j++) s = s + S(K.a[k][j]) * X(k, j);
    for (int j = 0; j < NU; j++) s = s + S(K.b[k][j]) * U(k, j);
    for (int j = 0; j < NY; j++) s = s + S(K.c[k] * (j + 1)) * Y(k, j);
  }
  s = s + S(K.q[0]) * X(0, 0) * X(1, 0) * U(0, 0);
  s = s + S(K.q[1]) * X(PH, NX - 1) * X(1, NX - 1 > 0 ? 0 : 0) * S(PH > 1 ? 1.0 : 0.0);
  s = s + S(K.q[2]) * U(0, NU - 1) * U(PH, 0) * S(PH > 1 ? 1.0 : 0.0);
  s = s + S(K.q[3]) * e * e;
  s = s + S(K.q[4]) * e * X(PH, 0);
  s = s + S(K.q[5]) * e * U(PH - 1, NU - 1);
  if (NY > 0) s = s + S(K.q[6]) * Y(PH, 0) * X(0, NX - 1) + S(K.q[7]) * Y(0, NY - 1) * X(PH, 0);
  return s;
}
template <class S, class O, class XA, class YA, class UA> static void fIneq(O &o, const XA &X, const YA &Y, const UA &U, const S &e) {
  for (int i = 0; i < NI; i++) {
    const double *g = K.g[i];
    S s = S(g[0]) * X(PH, i % NX) * X(PH, i % NX);
    s = s + S(g[1]) * X(1, NX - 1) * U(0, 0);
    s = s + S(g[2]) * U(PH, NU - 1) * X(0, 0);
    s = s + S(g[3]) * U(PH - 1, 0) * U(PH - 1, 0);
    s = s + S(g[4]) * e * e + S(g[5]) * e * X(1, 0);
    if (NY > 0) s = s + S(g[6]) * Y(PH, 0) + S(g[7]) * Y(i % (PH + 1), NY - 1) * Y(i % (PH + 1), NY - 1);
    o(i) = s;
  }
}
template <class S, class O, class XA, class UA> static void fEq(O &o, const XA &X, const UA &U) {
  for (int i = 0; i < NE; i++) {
    const double *h = K.h[i];
    S s = S(h[0]) * X(PH, i % NX) * X(PH, i % NX);
    s = s + S(h[1]) * X(1, NX - 1) * U(0, 0);
    s = s + S(h[2]) * U(PH, NU - 1) * X(0, 0);
    s = s + S(h[3]) * U(PH - 1, 0) * U(PH - 1, 0);
    s = s + S(h[4]) * X(1, 0) + S(h[5]) * U(0, NU - 1) * U(PH, 0);
    s = s + S(h[6]) * U(PH / 2, NU - 1) + S(h[7]);
    o(i) = s;
  }
}
// adaptors: columns of a trajectory as vectors
template <class S> struct RowAcc {
  const S *p;
  const S &operator()(int j) const { return p[j]; }
};
template <class S> struct RowOut {
  S *p;
  S &operator()(int j) const { return p[j]; }
};

// ---- the trajectory the solver's vector stands for (C01), with derivative
// direction `dir` (or -1)
static double sX[NX], sU[NU], X0[NX];
static bool hasOut = false;
static double zv(const double *z, int i, double) { return z[i]; }
template <class S> static S mk(double v, bool one);
template <> double mk<double>(double v, bool) { return v; }
template <> Dual mk<Dual>(double v, bool one) { return Dual(v, one ? 1.0 : 0.0); }
template <class S> static void expand(Traj<S> &t, const double *z, int dir = -1) {
  for (int j = 0; j < NX; j++) t.X[0][j] = S(X0[j]);
  for (int k = 1; k <= PH; k++)
    for (int j = 0; j < NX; j++) {
      int i = (k - 1) * NX + j;
      t.X[k][j] = mk<S>(z[i], i == dir) * S(sX[j]);
    }
  for (int k = 0; k <= PH; k++)
    for (int j = 0; j < NU; j++) {
      int b = k < CH ? k : CH - 1;
      int i = PH * NX + b * NU + j;
      t.U[k][j] = mk<S>(z[i], i == dir) * S(sU[j]);
    }
  t.e = mk<S>(z[NZ - 1], dir == NZ - 1);
  for (int k = 0; k <= PH; k++)
    for (int j = 0; j < NY; j++) t.Y[k][j] = S(0.0);
  if (hasOut)
    for (int k = 0; k <= PH; k++) {
      RowAcc<S> x{t.X[k]}, u{t.U[k]};
      RowOut<S> y{t.Y[k]};
      fOut<S>(y, x, u, k);
    }
}
template <class S> struct TX { const Traj<S> &t; const S &operator()(int i, int j) const { return t.X[i][j]; } };
template <class S> struct TU { const Traj<S> &t; const S &operator()(int i, int j) const { return t.U[i][j]; } };
template <class S> struct TY { const Traj<S> &t; const S &operator()(int i, int j) const { return t.Y[i][j]; } };
template <class S> struct VecOut { S *p; S &operator()(int i) const { return p[i]; } };

// expected dynamics constraint values
static bool contTime = false;
static double Ts = 0;
template <class S> static void specDyn(const Traj<S> &t, S *c) {
  for (int k = 0; k < PH; k++) {
    S f0[NX], f1[NX];
    RowAcc<S> x{t.X[k]}, x1{t.X[k + 1]}, u{t.U[k]};
    RowOut<S> o0{f0}, o1{f1};
    fDyn<S>(o0, x, u, k);
    if (contTime) fDyn<S>(o1, x1, u, k);
    for (int j = 0; j < NX; j++)
      c[k * NX + j] = (contTime ? t.X[k][j] + S(Ts / 2) * (f0[j] + f1[j]) - t.X[k + 1][j] : t.X[k + 1][j] - f0[j]) / sX[j];
  }
}
template <class S> static S specObj(const Traj<S> &t) { return fObj<S>(TX<S>{t}, TY<S>{t}, TU<S>{t}, t.e); }
template <class S> static void specIneq(const Traj<S> &t, S *c) { VecOut<S> o{c}; fIneq<S>(o, TX<S>{t}, TY<S>{t}, TU<S>{t}, t.e); }
template <class S> static void specEq(const Traj<S> &t, S *c) { VecOut<S> o{c}; fEq<S>(o, TX<S>{t}, TU<S>{t}); }

static void unitScale() { for (int j = 0; j < NX; j++) sX[j] = 1; for (int j = 0; j < NU; j++) sU[j] = 1; }
static void setScales(Ctl &c, bool state, bool input) {
  if (state) {
    XV s(NX);
    for (int j = 0; j < NX; j++) s(j) = sX[j] = sd1("sX", j, SLO, SHI);
    c.setStateScale(s);
  }
  if (input) {
    UV s(NU);
    for (int j = 0; j < NU; j++) s(j) = sU[j] = sd1("sU", j, SLO, SHI);
    c.setInputScale(s);
  }
}
// other scales, set earlier and replaced by the real ones
static void decoyScales(Ctl &c, bool state = true, bool input = true) {
  if (state) {
    XV s(NX);
    for (int j = 0; j < NX; j++) s(j) = sd1("dX", j, SLO, SHI);
    c.setStateScale(s);
  }
  if (input) {
    UV s(NU);
    for (int j = 0; j < NU; j++) s(j) = sd1("dU", j, SLO, SHI);
    c.setInputScale(s);
  }
}
static XV symX0(const char *n = "x0") {
  XV v(NX);
  for (int j = 0; j < NX; j++) v(j) = X0[j] = sd1(n, j);
  return v;
}
static UV symU0(const char *n = "u0") {
  UV v(NU);
  for (int j = 0; j < NU; j++) v(j) = sd1(n, j);
  return v;
}
// REREG: another function is registered first and then replaced
#ifdef REREG
#define DECOY(x) x
#else
#define DECOY(x)
#endif
static void bindDyn(Ctl &c) {
  DECOY(c.setStateSpaceFunction([](XV &dx, const XV &x, const UV &u, const unsigned int &k) { for (int i = 0; i < NX; i++) dx(i) = x(0) * u(0) * 5 + k; });)
  c.setStateSpaceFunction([](XV &dx, const XV &x, const UV &u, const unsigned int &k) { fDyn<double>(dx, x, u, (int)k); });
}
static void bindOut(Ctl &c) {
  hasOut = true;
  DECOY(c.setOutputFunction([](YV &y, const XV &x, const UV &u, const unsigned int &k) { for (int i = 0; i < NY; i++) y(i) = x(0) * u(0) * 5 + k; });)
  c.setOutputFunction([](YV &y, const XV &x, const UV &u, const unsigned int &k) { fOut<double>(y, x, u, (int)k); });
}
static void bindObj(Ctl &c) {
  DECOY(c.setObjectiveFunction([](const XM &x, const YM &, const UM &u, const double &e) { return x(1, 0) * u(0, 0) * 5 + e; });)
  c.setObjectiveFunction([](const XM &x, const YM &y, const UM &u, const double &e) { return fObj<double>(x, y, u, e); });
}
static void bindIneq(Ctl &c, float tol = 1e-10f) {
  DECOY(c.setIneqConFunction([](IV &o, const XM &x, const YM &, const UM &u, const double &e) { for (int i = 0; i < NI; i++) o(i) = x(1, 0) * u(0, 0) * 5 + e; }, tol);)
  c.setIneqConFunction([](IV &o, const XM &x, const YM &y, const UM &u, const double &e) { fIneq<double>(o, x, y, u, e); }, tol);
}
static void bindEq(Ctl &c, float tol = 1e-10f) {
  DECOY(c.setEqConFunction([](EV &o, const XM &x, const UM &u) { for (int i = 0; i < NE; i++) o(i) = x(1, 0) * u(0, 0) * 5; }, tol);)
  c.setEqConFunction([](EV &o, const XM &x, const UM &u) { fEq<double>(o, x, u); }, tol);
}
static void trivialObj(Ctl &c) { c.setObjectiveFunction([](const XM &, const YM &, const UM &, const double &) { return 0.0; }); }

// a symbolic solver vector
static void symZ(double *z, const char *n = "z") {
  for (int i = 0; i < NZ; i++) z[i] = sd1(n, i);
}
