// C30: a user function throws somewhere inside an optimisation. That optimisation
// fails the way it does when the solver itself fails, and nothing else is affected:
// the history is compared with one where the solver failed there.
#include <new>
#include <stdexcept>
#include "twin_nl.hpp"
#ifndef TW
#define TW 0
#endif
#ifndef KINDS // of exceptions
#define KINDS 5
#endif
#ifndef EVERY // only every n-th call of a user function throws
#define EVERY 1
#endif
#ifndef MAXT
#define MAXT 30 // calls of user functions after the solve
#endif
static int count_, total_, throwAt_, kind_, segEnd_;
static bool armed_, thrown_, after_;
static void boom() {
  if (!armed_ || solving_ == after_) return;
  if (!second_) { total_++; return; }
  if (count_++ != throwAt_) return;
  thrown_ = true;
  if (kind_ == 1) throw std::invalid_argument("user function");
  if (kind_ == 2) throw std::bad_alloc();
  if (kind_ == 3) throw nlopt::forced_stop();
  if (kind_ == 4) throw 5;
  throw std::runtime_error("user function");
}
// a solve that fails: by itself in the first history, because of the exception in the second
static void failing(Run<TW> &r) {
  typedef typename Ty<TW>::XV XV;
  typedef typename Ty<TW>::UV UV;
  auto &c = *r.pc;
  code_ = second_ && after_ ? 1 : -1;
  calls_ = 0;
  XV x0 = Run<TW>::vec(XV(), NX, -0.25, 0.25);
  UV u0 = Run<TW>::vec(UV(), NU, -0.25, 0.25);
  bool escaped = false;
  armed_ = true;
  mute_ = true;
  try {
    auto res = c.optimize(x0, u0);
    armed_ = false;
    mute_ = false;
    if (second_) sx_assume(thrown_);
    put(res.solver_status, "solver code"); put((int)res.status, "status"); put(res.cost, "cost");
    putM(res.cmd, "command");
    auto last = c.getLastResult();
    put(last.solver_status, "solver code"); put((int)last.status, "status"); put(last.cost, "cost");
    putM(last.cmd, "command");
    auto q = c.getOptimalSequence();
    putM(q.state, "state sequence"); putM(q.input, "input sequence"); putM(q.output, "output sequence");
    if (second_) sx_check(res.status == ResultStatus::ERROR, "status of a failed optimisation");
  } catch (...) {
    escaped = true;
  }
  armed_ = false;
  mute_ = false;
  if (!second_) segEnd_ = nobs_;
  else if (escaped) {
    // only what happens after a successful answer of the solver may reach the caller
    sx_check(after_, "exceptions of user functions during the solve do not reach the caller");
    iobs_ = segEnd_;
    sx_cover("escaped");
  }
}
static void once() {
  auto r = new Run<TW>;
  r->setup();
  r->op(4); r->op(5); r->op(7);
  if (NI) r->op(8);
  if (NE) r->op(9);
  NLParameters p;
  p.enable_warm_start = pick(0, 1);
  p.hard_constraints = !p.enable_warm_start;
  if (second_ && after_ && p.enable_warm_start) sx_assume(0); // the solver's answer is the next starting point
  r->pc->setOptimizerParameters(p);
#ifdef ALWAYS
  forced_ = 1;
  r->solve(0);
#else
  if (pick(0, 1)) r->solve(0);
#endif
  failing(*r);
  r->solve(1);
  delete r->pc;
  delete r;
}
extern "C" void sx_main() {
  called_ = boom;
  first();
  once();
  after_ = sx_pick(sx_int("after", 0, 1));
  if (!after_) sx_check(total_ > 0, "user functions called");
  throwAt_ = EVERY * sx_pick(sx_int("at", 0, after_ ? MAXT - 1 : (total_ - 1) / EVERY));
  if (!after_) kind_ = sx_pick(sx_int("kind", 5 - KINDS, 4));
    second();
  once();
  sx_cover(after_ ? "after the solve" : "inside the solve");
  sx_check(sx_nlopt_live == 0, "solvers released");
  done();
  sx_cover("end");
}
