// Interface between a harness and its two back ends: the symbolic executor
// (/verif/engine) and the native replay runtime (replay_rt.cpp).
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
double sx_double(const char *name, double lo, double hi); // any real in [lo, hi]
int sx_int(const char *name, int lo, int hi);             // any int in [lo, hi]
long sx_long(const char *name, long lo, long hi);
int sx_bool(const char *name);                            // 0 or 1
int sx_pick(int v);                                       // enumerate the values of v
double sx_uf(const char *name, const double *args, int n); // an arbitrary function of its arguments
void sx_assume(int c);
void sx_check(int c, const char *tag);
void sx_check_eq(double a, double b, const char *tag);
void sx_check_near(double a, double b, double tol, const char *tag);
void sx_cover(const char *label);                         // reachability witness
int sx_live_heap();
const char *sx_text(const void *ostream);                 // what was written to a stream
double sx_printed(const void *ostream, int i, int *decimals); // the i-th number written to a string stream, and its decimals (-2: none)
void sx_end();
void sx_main();
}
// name builder: nm("x", 1, 2) -> "x_1_2"
struct Nm {
  char b[48];
  int n = 0;
  void put(char c) { if (n < 47) b[n++] = c; }
  void num(int v) {
    if (v < 0) { put('m'); v = -v; }
    char t[12];
    int k = 0;
    do { t[k++] = '0' + v % 10; v /= 10; } while (v);
    while (k) put(t[--k]);
  }
  Nm(const char *p) { while (*p) put(*p++); b[n] = 0; }
  Nm(const char *p, int i) { while (*p) put(*p++); put('_'); num(i); b[n] = 0; }
  Nm(const char *p, int i, int j) { while (*p) put(*p++); put('_'); num(i); put('_'); num(j); b[n] = 0; }
  Nm(const char *p, int i, int j, int k) { while (*p) put(*p++); put('_'); num(i); put('_'); num(j); put('_'); num(k); b[n] = 0; }
  operator const char *() const { return b; }
};
// the values ordinary data ranges over
#ifndef RNG
#define RNG 3
#define SLO 0.25 // scales
#define SHI 4
#else
#define SLO 1e-3
#define SHI 1e3
#endif
// where the range of a lower bound ends and that of its upper bound starts:
// bounds may lie on either side of zero
static inline double band(int i) { return i % 3 == 0 ? 0 : i % 3 == 1 ? 1 : -1; }
static inline double sd(const char *p, double lo = -RNG, double hi = RNG) { return sx_double(p, lo, hi); }
static inline double sd1(const char *p, int i, double lo = -RNG, double hi = RNG) { return sx_double(Nm(p, i), lo, hi); }
static inline double sd2(const char *p, int i, int j, double lo = -RNG, double hi = RNG) { return sx_double(Nm(p, i, j), lo, hi); }
static inline double sd3(const char *p, int i, int j, int k, double lo = -RNG, double hi = RNG) { return sx_double(Nm(p, i, j, k), lo, hi); }
template <class M> static inline void fill(M &m, const char *p, double lo = -RNG, double hi = RNG) {
  for (int i = 0; i < (int)m.rows(); i++)
    for (int j = 0; j < (int)m.cols(); j++) m(i, j) = sd2(p, i, j, lo, hi);
}
template <class A, class B> static inline void eqm(const A &a, const B &b, const char *tag) {
  sx_check((int)a.rows() == (int)b.rows() && (int)a.cols() == (int)b.cols(), tag);
  if ((int)a.rows() != (int)b.rows() || (int)a.cols() != (int)b.cols()) return;
  for (int i = 0; i < (int)a.rows(); i++)
    for (int j = 0; j < (int)a.cols(); j++) sx_check_eq(a(i, j), b(i, j), tag);
}
