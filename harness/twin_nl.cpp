// C20, nonlinear: a controller sized by template arguments and one sized by
// constructor arguments, given the same calls, are indistinguishable. Every
// user function is an unknown function of all its arguments.
#include "twin_nl.hpp"
extern "C" void sx_main() {
  Run<false> a;
  Run<true> b;
  first();
  a.whole();
  second();
  b.whole();
  done();
  delete a.pc;
  delete b.pc;
  sx_check(sx_nlopt_live == 0, "solver handles released");
  sx_cover("end");
}
