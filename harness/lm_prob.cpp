// C12-C17, C04: the quadratic program after any sequence of setter calls.
// PRE: operations done first, in order; OPS: number of operations chosen by
// symbolic choice among MASK; CHK: what is compared (bits below).
// BADSLICE=1: slices are any integers and may be invalid.
#include "lm.hpp"
enum { MODEL, DIST, EXOM, EXOS, WM, WS, REFM, REFS, XM_, XS, UM_, US, YM_, YS, CON, SCS, SCI, NOP };
enum { CDYN = 1, CCOST = 2, CBND = 4, CDEL = 8, CSCA = 16 };
#ifndef CHK
#define CHK 31
#endif
#ifndef MASK
#define MASK ((1 << NOP) - 1)
#endif
#ifndef PRE
#define PRE (1 << MODEL)
#endif
#ifndef OPS
#define OPS 1
#endif
#ifndef BADSLICE
#define BADSLICE 0
#endif
#ifndef BETWEEN
#define BETWEEN 1 // optimise after every operation
#endif
static struct Spec {
  double A[NX][NX], B[NX][NU], C[NY][NX], Bd[NX][ND + 1], Dd[NY][ND + 1];
  double d[PH][ND + 1], wy[PH][NY], wu[PH][NU], wd[PH][NU], ry[PH][NY], ru[PH][NU], rd[PH][NU];
  double xl[PH + 1][NX], xu[PH + 1][NX], ul[PH][NU], uu[PH][NU], yl[PH + 1][NY], yu[PH + 1][NY];
  double sl[PH + 1], su[PH + 1], mx[NX], mu[NU];
  bool sca[PH + 1]; // addressed by the last scalar constraint
} S;
static double x0_[NX], u0_[NU];
static int col(int k) { return k == 0 ? 0 : k - 1; } // the column of a horizon matrix used at step k
static double yoff(int k, int i) { double s = 0; for (int j = 0; j < ND; j++) s += S.Dd[i][j] * S.d[col(k)][j]; return s; }
static void lim(double got, double want, bool lo, const char *tag) {
  if (lo ? want == -INFINITY : want == INFINITY) sx_check(lo ? noLo(got) : noUp(got), tag);
  else sx_check_eq(got, want, tag);
}
static void zero(double v, const char *tag) { sx_check_eq(v, 0.0, tag); }
static void chkDyn() {
  for (int r = 0; r < ME; r++) {
    int k = r / NS, j = r % NS;
    double p = PR.A[r][r];
    sx_check(p == 1 || p == -1, "pivot of a dynamics row");
    double want[NV], rhs = 0;
    for (int i = 0; i < NV; i++) want[i] = 0;
    want[r] = 1;
    if (k == 0) rhs = j < NX ? x0_[j] : u0_[j - NX];
    else if (j >= NX) { want[vu(k - 1, j - NX)] = -1; want[vd(k - 1, j - NX)] = -1; }
    else {
      // x_k - A x_{k-1} - B u_{k-1} - Bd d, plus M (u_{k-1} - u_{k-2} - du) for any M
      for (int i = 0; i < NX; i++) want[vx(k - 1, i)] = -S.A[j][i];
      for (int i = 0; i < NU; i++) {
        double M = -(PR.A[r][vd(k - 1, i)] * p);
        want[vd(k - 1, i)] = -M;
        want[vu(k - 1, i)] = -M;
        want[vu(k, i)] = M - S.B[j][i];
      }
      for (int i = 0; i < ND; i++) rhs += S.Bd[j][i] * S.d[k - 1][i];
    }
    for (int i = 0; i < NV; i++) sx_check_eq(PR.A[r][i] * p, want[i], k == 0 ? "initial condition row" : j < NX ? "state dynamics row" : "input dynamics row");
    sx_check_eq(PR.l[r] * p, rhs, k == 0 ? "initial condition" : j < NX ? "disturbance in the state dynamics" : "input dynamics offset");
    sx_check_eq(PR.u[r] * p, rhs, k == 0 ? "initial condition" : j < NX ? "disturbance in the state dynamics" : "input dynamics offset");
  }
  sx_cover("dynamics");
}
static void chkCost() {
  for (int a = 0; a < NV; a++)
    for (int b = a; b < NV; b++) {
      if (a < NS && b < NS) continue; // step 0 is fixed: a constant
      double h = 0;
      int k = a / NS, i = a % NS, j = b % NS;
      if (b < ME) {
        if (b / NS == k) {
          if (i < NX && j < NX) for (int y = 0; y < NY; y++) h += S.C[y][i] * S.wy[col(k)][y] * S.C[y][j];
          else if (i == j) h = S.wu[col(k)][i - NX];
        }
      } else if (a == b) h = S.wd[(a - ME) / NU][(a - ME) % NU];
      sx_check_eq(PR.P[a][b], h, "quadratic cost term");
    }
  for (int a = NS; a < NV; a++) {
    double g = 0;
    int k = a / NS, i = a % NS;
    if (a < ME) {
      if (i < NX) for (int y = 0; y < NY; y++) g += S.C[y][i] * S.wy[col(k)][y] * (yoff(k, y) - S.ry[col(k)][y]);
      else g = -(S.wu[col(k)][i - NX] * S.ru[col(k)][i - NX]);
    } else g = -(S.wd[(a - ME) / NU][(a - ME) % NU] * S.rd[(a - ME) / NU][(a - ME) % NU]);
    sx_check_eq(PR.q[a], g, a < ME ? (i < NX ? "linear cost term, output reference" : "linear cost term, input reference") : "linear cost term, increment reference");
  }
  sx_cover("cost");
}
static void unitRow(int r, int v, const char *tag) {
  for (int i = 0; i < NV; i++) sx_check_eq(PR.A[r][i], i == v ? 1.0 : 0.0, tag);
}
static void chkBounds() {
  for (int k = 0; k <= PH; k++) {
    for (int j = 0; j < NX; j++) {
      int r = RB + k * NS + j;
      unitRow(r, vx(k, j), "state bound row");
      lim(PR.l[r], S.xl[k][j], true, "lower state bound");
      lim(PR.u[r], S.xu[k][j], false, "upper state bound");
    }
    for (int j = 0; j < NU; j++) {
      int r = RB + k * NS + NX + j;
      unitRow(r, vu(k, j), "input bound row");
      if (k == 0) continue; // the input already applied
      lim(PR.l[r], S.ul[k - 1][j], true, "lower input bound");
      lim(PR.u[r], S.uu[k - 1][j], false, "upper input bound");
    }
    for (int j = 0; j < NY; j++) {
      int r = RY + k * NY + j;
      for (int i = 0; i < NV; i++) sx_check_eq(PR.A[r][i], i >= vx(k, 0) && i < vx(k, 0) + NX ? S.C[j][i - vx(k, 0)] : 0.0, "output bound row");
      // C x + Dd d within the bounds
      lim(PR.l[r] + yoff(k, j), S.yl[k][j], true, "lower output bound");
      lim(PR.u[r] + yoff(k, j), S.yu[k][j], false, "upper output bound");
    }
  }
  sx_cover("bounds");
}
static void chkDelta() {
  for (int k = 0; k < PH; k++)
    for (int j = 0; j < NU; j++) {
      int r = RD + k * NU + j;
      unitRow(r, vd(k, j), "increment row");
      if (k >= CH) {
        zero(PR.l[r], "no increment past the control horizon");
        zero(PR.u[r], "no increment past the control horizon");
        sx_cover("past the control horizon");
      } else sx_check(noLo(PR.l[r]) && noUp(PR.u[r]), "increment free inside the control horizon");
    }
  sx_cover("increments");
}
static void chkScalar() {
  for (int k = 0; k <= PH; k++) {
    int r = RS + k;
    lim(PR.l[r], S.sl[k], true, "lower scalar limit");
    lim(PR.u[r], S.su[k], false, "upper scalar limit");
    if (!S.sca[k]) continue;
    for (int i = 0; i < NV; i++) {
      double w = 0;
      if (i < ME && i / NS == k) w = i % NS < NX ? S.mx[i % NS] : S.mu[i % NS - NX];
      sx_check_eq(PR.A[r][i], w, "scalar constraint row");
    }
    sx_cover("scalar rows");
  }
}
static int cnt;
static Ctl *ctl;
static void solve() {
  char n[2] = {(char)('a' + cnt), 0};
  XV x0(NX);
  UV u0(NU);
  for (int j = 0; j < NX; j++) x0(j) = x0_[j] = sd2("x0", cnt, j);
  for (int j = 0; j < NU; j++) u0(j) = u0_[j] = sd2("u0", cnt, j);
  cnt++;
  int b = solves;
  ctl->optimize(x0, u0);
  sx_check(solves == b + 1, "the problem reaches the solver once");
  if (CHK & CDYN) chkDyn();
  if (CHK & CCOST) chkCost();
  if (CHK & CBND) chkBounds();
  if (CHK & CDEL) chkDelta();
  if (CHK & CSCA) chkScalar();
}
static int tag_;
static void slice(int &s, int &e, int H, bool &ok) {
#if BADSLICE
  s = sx_int(Nm("s", tag_), -1000000, 1000000);
  e = sx_int(Nm("e", tag_), -1000000, 1000000);
#else
  s = sx_pick(sx_int(Nm("s", tag_), -1, H - 1));
  e = s < 0 ? -1 : sx_pick(sx_int(Nm("e", tag_), s + 1, H));
#endif
  bool all = s == -1 && e == -1;
  ok = all || (0 <= s && s < e && e <= H);
  if (all) s = e = -1;
  else if (ok) s = sx_pick(s), e = sx_pick(e);
  if (all) sx_cover("all");
  if (!ok) sx_cover("rejected");
}
static bool in(int k, int s, int e) { return s == -1 ? true : k >= s && k < e; }
static double val(const char *p, int i, int j, double lo = -RNG, double hi = RNG) { return sd3(p, tag_, i, j, lo, hi); }
static double wgt(const char *p, int i, int j) {
#if POS
  return val(p, i, j, TINY, RNG);
#else
  return (i + j + tag_) % 3 == 1 ? 0.0 : val(p, i, j, TINY, RNG);
#endif
}
static double lov(const char *p, int i, int j) { return (i + j + tag_) % 4 == 3 ? -INFINITY : val(p, i, j, -RNG, band(i + j + tag_)); }
static double upv(const char *p, int i, int j) { return (i + j + tag_) % 5 == 2 ? INFINITY : val(p, i, j, band(i + j + tag_), RNG); }
#define EACH(n, m) for (int i = 0; i < (n); i++) for (int j = 0; j < (m); j++)
static void apply(int op) {
  Ctl &c = *ctl;
  int s = -1, e = -1;
  bool ok = true, ret = true;
  switch (op) {
  case MODEL: {
    MA a = symM<MA>(Nm("A", tag_), NX, NX, tag_);
    MB b = symM<MB>(Nm("B", tag_), NX, NU, tag_ + 1);
    MCc cc = symM<MCc>(Nm("C", tag_), NY, NX, tag_ + 2);
    EACH(NX, NX) S.A[i][j] = a(i, j);
    EACH(NX, NU) S.B[i][j] = b(i, j);
    EACH(NY, NX) S.C[i][j] = cc(i, j);
    ret = c.setStateSpaceModel(a, b, cc);
    sx_cover("model");
    break;
  }
  case DIST: {
    MBd b(NX, ND);
    MDd d(NY, ND);
    EACH(NX, ND) S.Bd[i][j] = b(i, j) = val("Bd", i, j);
    EACH(NY, ND) S.Dd[i][j] = d(i, j) = val("Dd", i, j);
    ret = c.setDisturbances(b, d);
    sx_cover("disturbance matrices");
    break;
  }
  case EXOM: {
    DB d(ND, PH);
    EACH(ND, PH) S.d[j][i] = d(i, j) = val("d", j, i);
    ret = c.setExogenousInputs(d);
    sx_cover("exogenous matrix");
    break;
  }
  case EXOS: {
    DV d(ND);
    for (int i = 0; i < ND; i++) d(i) = val("d", 0, i);
    slice(s, e, PH, ok);
    ret = c.setExogenousInputs(d, HorizonSlice{s, e});
    if (ok) EACH(PH, ND) if (in(i, s, e)) S.d[i][j] = d(j);
    sx_cover("exogenous slice");
    break;
  }
  case WM: {
    YB a(NY, PH);
    UP b(NU, PH), d(NU, PH);
    EACH(NY, PH) S.wy[j][i] = a(i, j) = wgt("wy", j, i);
    EACH(NU, PH) S.wu[j][i] = b(i, j) = wgt("wu", j, i);
    EACH(NU, PH) S.wd[j][i] = d(i, j) = wgt("wd", j, i);
    ret = c.setObjectiveWeights(a, b, d);
    sx_cover("weights matrix");
    break;
  }
  case WS: {
    YV a(NY);
    UV b(NU), d(NU);
    for (int i = 0; i < NY; i++) a(i) = wgt("wy", 0, i);
    for (int i = 0; i < NU; i++) b(i) = wgt("wu", 0, i);
    for (int i = 0; i < NU; i++) d(i) = wgt("wd", 0, i);
    slice(s, e, PH, ok);
    ret = c.setObjectiveWeights(a, b, d, HorizonSlice{s, e});
    if (ok) for (int k = 0; k < PH; k++) if (in(k, s, e)) {
      for (int i = 0; i < NY; i++) S.wy[k][i] = a(i);
      for (int i = 0; i < NU; i++) S.wu[k][i] = b(i), S.wd[k][i] = d(i);
    }
    sx_cover("weights slice");
    break;
  }
  case REFM: {
    YB a(NY, PH);
    UP b(NU, PH), d(NU, PH);
    EACH(NY, PH) S.ry[j][i] = a(i, j) = val("ry", j, i);
    EACH(NU, PH) S.ru[j][i] = b(i, j) = val("ru", j, i);
    EACH(NU, PH) S.rd[j][i] = d(i, j) = val("rd", j, i);
    ret = c.setReferences(a, b, d);
    sx_cover("references matrix");
    break;
  }
  case REFS: {
    YV a(NY);
    UV b(NU), d(NU);
    for (int i = 0; i < NY; i++) a(i) = val("ry", 0, i);
    for (int i = 0; i < NU; i++) b(i) = val("ru", 0, i);
    for (int i = 0; i < NU; i++) d(i) = val("rd", 0, i);
    slice(s, e, PH, ok);
    ret = c.setReferences(a, b, d, HorizonSlice{s, e});
    if (ok) for (int k = 0; k < PH; k++) if (in(k, s, e)) {
      for (int i = 0; i < NY; i++) S.ry[k][i] = a(i);
      for (int i = 0; i < NU; i++) S.ru[k][i] = b(i), S.rd[k][i] = d(i);
    }
    sx_cover("references slice");
    break;
  }
  case XM_: {
    XB a(NX, PH), b(NX, PH);
    EACH(NX, PH) { S.xl[j + 1][i] = a(i, j) = lov("xl", j, i); S.xu[j + 1][i] = b(i, j) = upv("xu", j, i); }
    for (int i = 0; i < NX; i++) S.xl[0][i] = a(i, 0), S.xu[0][i] = b(i, 0);
    ret = c.setStateBounds(a, b);
    sx_cover("state bounds matrix");
    break;
  }
  case XS: {
    XV a(NX), b(NX);
    for (int i = 0; i < NX; i++) a(i) = lov("xl", 0, i), b(i) = upv("xu", 0, i);
    slice(s, e, PH, ok);
    ret = c.setStateBounds(a, b, HorizonSlice{s, e});
    if (ok) EACH(PH, NX) if (in(i, s, e)) {
      S.xl[i + 1][j] = a(j), S.xu[i + 1][j] = b(j);
      if (i == 0) S.xl[0][j] = a(j), S.xu[0][j] = b(j);
    }
    sx_cover("state bounds slice");
    break;
  }
  case UM_: {
    UB a(NU, CH), b(NU, CH);
    EACH(NU, CH) { a(i, j) = lov("ul", j, i); b(i, j) = upv("uu", j, i); }
    EACH(PH, NU) { int k = i < CH ? i : CH - 1; S.ul[i][j] = a(j, k); S.uu[i][j] = b(j, k); }
    ret = c.setInputBounds(a, b);
    sx_cover("input bounds matrix");
    break;
  }
  case US: {
    UV a(NU), b(NU);
    for (int i = 0; i < NU; i++) a(i) = lov("ul", 0, i), b(i) = upv("uu", 0, i);
    slice(s, e, CH, ok);
    ret = c.setInputBounds(a, b, HorizonSlice{s, e});
    if (ok) EACH(PH, NU) if (in(i, s, e)) S.ul[i][j] = a(j), S.uu[i][j] = b(j);
    sx_cover("input bounds slice");
    break;
  }
  case YM_: {
    YB a(NY, PH), b(NY, PH);
    EACH(NY, PH) { S.yl[j + 1][i] = a(i, j) = lov("yl", j, i); S.yu[j + 1][i] = b(i, j) = upv("yu", j, i); }
    for (int i = 0; i < NY; i++) S.yl[0][i] = a(i, 0), S.yu[0][i] = b(i, 0);
    ret = c.setOutputBounds(a, b);
    sx_cover("output bounds matrix");
    break;
  }
  case YS: {
    YV a(NY), b(NY);
    for (int i = 0; i < NY; i++) a(i) = lov("yl", 0, i), b(i) = upv("yu", 0, i);
    slice(s, e, PH, ok);
    ret = c.setOutputBounds(a, b, HorizonSlice{s, e});
    if (ok) EACH(PH, NY) if (in(i, s, e)) {
      S.yl[i + 1][j] = a(j), S.yu[i + 1][j] = b(j);
      if (i == 0) S.yl[0][j] = a(j), S.yu[0][j] = b(j);
    }
    sx_cover("output bounds slice");
    break;
  }
  case CON: {
    XV a(NX), b(NX);
    UV f(NU), g(NU);
    YV o(NY), p(NY);
    for (int i = 0; i < NX; i++) a(i) = val("xl", 0, i, -RNG, band(i + tag_)), b(i) = val("xu", 0, i, band(i + tag_), RNG);
    for (int i = 0; i < NU; i++) f(i) = val("ul", 0, i, -RNG, band(i + tag_)), g(i) = val("uu", 0, i, band(i + tag_), RNG);
    for (int i = 0; i < NY; i++) o(i) = val("yl", 0, i, -RNG, band(i + tag_)), p(i) = val("yu", 0, i, band(i + tag_), RNG);
    int k = sx_int(Nm("k", tag_), 0, BADSLICE ? 1000000 : PH - 1);
    ok = k < PH;
    if (ok) k = sx_pick(k);
    ret = c.setConstraints((unsigned)k, a, f, o, b, g, p);
    if (ok) for (int t = k == 0 ? 0 : k + 1; t <= k + 1; t++) {
      for (int i = 0; i < NX; i++) S.xl[t][i] = a(i), S.xu[t][i] = b(i);
      for (int i = 0; i < NY; i++) S.yl[t][i] = o(i), S.yu[t][i] = p(i);
    }
    if (ok) for (int i = 0; i < NU; i++) S.ul[k][i] = f(i), S.uu[k][i] = g(i);
    sx_cover("step constraints");
    break;
  }
  case SCS:
  case SCI: {
    XV a(NX);
    UV b(NU);
    for (int i = 0; i < NX; i++) a(i) = val("mx", 0, i, TINY, 3);
    for (int i = 0; i < NU; i++) b(i) = val("mu", 0, i, -RNG, -TINY);
    double l = lov("sl", 0, 0), u = upv("su", 0, 0);
    if (op == SCS) {
      slice(s, e, PH, ok);
      ret = c.setScalarConstraint(l, u, a, b, HorizonSlice{s, e});
    } else {
      s = sx_int(Nm("k", tag_), 0, 1000000);
      ok = s < PH;
      if (ok) s = sx_pick(s);
      e = s + 1;
      ret = c.setScalarConstraint((unsigned)s, l, u, a, b);
      if (!ok) sx_cover("index rejected");
    }
    if (ok) {
      for (int k = 0; k <= PH; k++) {
        if (in(col(k), s, e)) S.sca[k] = true, S.sl[k] = l, S.su[k] = u;
      }
      for (int i = 0; i < NX; i++) S.mx[i] = a(i);
      for (int i = 0; i < NU; i++) S.mu[i] = b(i);
    }
    sx_cover(op == SCS ? "scalar slice" : "scalar index");
    break;
  }
  }
  sx_check(ret == ok, ok ? "well formed call accepted" : "malformed slice rejected");
}
extern "C" void sx_main() {
  for (int k = 0; k <= PH; k++) {
    for (int j = 0; j < NX; j++) S.xl[k][j] = -INFINITY, S.xu[k][j] = INFINITY;
    for (int j = 0; j < NY; j++) S.yl[k][j] = -INFINITY, S.yu[k][j] = INFINITY;
    for (int j = 0; j < NU && k < PH; j++) S.ul[k][j] = -INFINITY, S.uu[k][j] = INFINITY;
    S.sl[k] = -INFINITY, S.su[k] = INFINITY;
  }
  ctl = newCtl();
  quiet(*ctl);
  for (int op = 0; op < NOP; op++)
    if (PRE >> op & 1) { apply(op); tag_++; }
#if BETWEEN
  solve();
#endif
  for (int n = 0; n < OPS; n++) {
    int list[NOP], m = 0;
    for (int op = 0; op < NOP; op++) if (MASK >> op & 1) list[m++] = op;
    apply(list[m == 1 ? 0 : sx_pick(sx_int(Nm("op", n), 0, m - 1))]);
    tag_++;
    if (BETWEEN || n == OPS - 1) solve();
  }
  sx_cover("end");
  delete ctl;
}
