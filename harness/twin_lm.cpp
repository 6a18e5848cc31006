// C20, linear: a controller sized by template arguments and one sized by
// constructor arguments, given the same calls, are indistinguishable.
#include "twin_lm.hpp"
extern "C" void sx_main() {
  Run<false> a;
  Run<true> b;
  first();
  a.whole();
  second();
  b.whole();
  done();
  delete a.pc;
  delete b.pc;
  sx_check(sx_osqp_live == 0, "solver workspaces released");
  sx_cover("end");
}
