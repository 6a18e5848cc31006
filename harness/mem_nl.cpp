// C26, nonlinear: controller A is given the same history alone and next to another
// controller B, which is created, configured, used and destroyed at arbitrary
// points of it (inside A's solves too). A behaves the same, nothing leaks, no
// access is out of bounds and no value is indeterminate.
#include "twin_nl.hpp"
#ifndef TWA
#define TWA 0
#endif
#ifndef TWB
#define TWB 1
#endif
#ifndef BSOLVES
#define BSOLVES 1
#endif
#ifndef MAXY
#define MAXY 12 // points at which B may be used
#endif
static Run<TWA> *a;
static Run<TWB> *b;
static int at_, step_, made_, used_, gone_;
static void useB() {
  int y = at_++, code = code_;
  other_ = true;
  if (y == made_) {
    b = new Run<TWB>;
    b->setup();
  }
  if (y == used_) {
    if (b->pc) {
#ifdef FIXED
      b->op((made_ * 7 + used_) % Run<TWB>::NOPS);
#else
      b->op(pick(0, Run<TWB>::NOPS - 1));
#endif
      for (int i = 0; i < BSOLVES; i++) b->solve(i);
    }
  }
  if (y == gone_) {
    delete b->pc;
    delete b;
    b = nullptr;
    sx_cover(y == made_ ? "short life" : "long life");
  }
  other_ = false;
  code_ = code;
}
static void once() {
  a = new Run<TWA>;
  a->whole();
  at_++;
  if (b && second_) { // A goes first
    sx_cover("A destroyed first");
    delete a->pc;
    other_ = true;
    b->look();
    b->solve(1);
    other_ = false;
    delete b->pc;
    delete b;
    b = nullptr;
  } else delete a->pc;
  delete a;
}
extern "C" void sx_main() {
  first();
  once();
  made_ = sx_pick(sx_int("made", 0, MAXY));
  used_ = sx_pick(sx_int("used", made_, MAXY));
  int g = sx_pick(sx_int("gone", 0, 1)); // at the last point, or never
  gone_ = g ? used_ : 100;
  at_ = 0;
  yield_ = useB;
  second();
  once();
  sx_check(at_ > 3, "B could be used");
  // the same calls again: whatever is still allocated after them was allocated before
  int base = sx_live_heap();
  third();
  at_ = 0;
  once();
  sx_check(sx_live_heap() == base, "all memory released");
  done();
  sx_check(sx_nlopt_live == 0, "solver handles released");
  sx_cover("end");
}
