// C25: arithmetic on problem dimensions.
#include "sx.hpp"
#include <mpc/Types.hpp>
#include <mpc/Dim.hpp>
using namespace mpc;
static const int DYNAMIC = -1;
static int want(int op, int a, int b) {
  if (a == DYNAMIC || b == DYNAMIC) return DYNAMIC;
  return op == 0 ? a + b : op == 1 ? a - b : a * b;
}
template <class A, class B> static void ops(const A &x, const B &y, int a, int b, const char *w) {
  Size s = x + y, d = x - y, p = x * y;
  sx_check(int(s) == want(0, a, b) && s.value == int(s), w);
  sx_check(int(d) == want(1, a, b) && d.value == int(d), w);
  sx_check(int(p) == want(2, a, b) && p.value == int(p), w);
#ifdef CHAIN
  // chains: a result is an operand like any other
  if (int(d) >= 0) sx_check(int(d * x) == want(2, want(1, a, b), a), w);
  sx_check(int(s * y) == want(2, want(0, a, b), b), w);
  sx_check(int(p + x) == want(0, want(2, a, b), a), w);
#else
  if (int(d) >= 0) sx_check(int(d - x) == want(1, want(1, a, b), a) && int(d + x) == want(0, want(1, a, b), a), w);
  sx_check(int(s - y) == want(1, want(0, a, b), b) && int(s + y) == want(0, want(0, a, b), b), w);
#endif
}
extern "C" void sx_main() {
  int a = sx_int("a", -1, MAXV), b = sx_int("b", -1, MAXV);
  Size x(a), y(b), z(x);
  sx_check(int(x) == a && x.value == a && int(z) == a, "value");
  ops(x, y, a, b, "dimension and dimension");
  ops(x, b, a, b, "dimension and integer");
  ops(a, y, a, b, "integer and dimension");
  sx_check(Size::is_static(a, b) == (a != DYNAMIC && b != DYNAMIC), "static exactly when both are");
  if (a == DYNAMIC || b == DYNAMIC) sx_cover("dynamic"); else sx_cover("static");
  sx_cover("end");
}
