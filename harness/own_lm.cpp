// C26: the controller object itself is moved or copied between calls, wherever the
// language lets a user do that. It behaves as if it had stayed, nothing leaks, and
// nothing is released twice.
#include <type_traits>
#include <utility>
#ifndef TW
#define TW 0
#endif
#include "sx.hpp"
template <class C> static void handover(C *&);
#define MOVED handover(pc)
#include "twin_lm.hpp"
static int at_, when_, kind_;
static bool on_;
template <class C> static void swapIn(C *&p, C *n) {
  delete p;
  p = n;
  sx_cover("handed over");
}
template <class C> static void handover(C *&p) {
  if (!on_ || at_++ != when_) return;
  if constexpr (std::is_move_constructible_v<C>) {
    if (kind_ == 0) swapIn(p, new C(std::move(*p)));
    if (kind_ == 1) { // and back
      C n(std::move(*p));
      delete p;
      p = new C(std::move(n));
    }
  }
  if constexpr (std::is_copy_constructible_v<C>) {
    if (kind_ == 2) swapIn(p, new C(*p));
    if (kind_ == 3) C n(*p);
  }
  if constexpr (std::is_move_assignable_v<C>) {
    if (kind_ == 4) { C *n = Ty<TW>::make(); *n = std::move(*p); swapIn(p, n); }
  }
  if constexpr (std::is_copy_assignable_v<C>) {
    if (kind_ == 5) { C *n = Ty<TW>::make(); *n = *p; swapIn(p, n); }
    if (kind_ == 6) { C *n = Ty<TW>::make(); *n = *p; delete n; }
  }
}
static void once() {
  auto a = new Run<TW>;
  a->whole();
  delete a->pc;
  delete a;
}
extern "C" void sx_main() {
  first();
  once();
  when_ = sx_pick(sx_int("when", 0, 1 + SOLVES));
  kind_ = sx_pick(sx_int("kind", 0, 6));
  on_ = true;
  at_ = 0;
  second();
  once();
  int base = sx_live_heap();
  third();
  at_ = 0;
  once();
  sx_check(sx_live_heap() == base, "all memory released");
  done();
  sx_cover("end");
}
