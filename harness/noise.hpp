// C29: the same history twice, the second time with calls in between that ask,
// report or are refused. Nothing else may change.
#include <sstream>
#ifndef MAXY
#define MAXY 8
#endif
static Run<TW> *a;
static int at_, when_, kind_, arg_;
static bool inside_;
static std::ostringstream *sink_;
static const int KINDS = 8 + REFUSED;
static void noise() {
  int y = at_++;
  if (y != when_ || !a->pc) return;
  auto &c = *a->pc;
  auto &l = Logger::instance();
  int code = code_;
  switch (kind_) {
  case 0: c.setLoggerLevel((Logger::log_level)arg_); sx_cover("logging"); break;
  case 1: l.setLevel(Logger::log_level::DEEP); l.setStream(sink_); break;
  case 2: c.setLoggerPrefix("prefix"); l.setLevel(Logger::log_level::NORMAL); break;
  case 3: l.reset(); break;
  case 4: { auto r = c.getLastResult(); r.cmd.setConstant(7); r.cost = 7; r.solver_status_msg = "changed copy"; sx_cover("queries"); break; }
  case 5: { auto q = c.getOptimalSequence(); q.state.setConstant(7); q.input.setConstant(7); q.output.setConstant(7); break; }
  case 6: { auto s = c.getExecutionStats(); s.clear(); c.resetStats(); break; }
  case 7: { std::ostringstream o; o << c.getExecutionStats(); break; }
  default: {
    bool thrown = false;
    try { refused(c, kind_ - 8); } catch (const std::exception &) { thrown = true; }
    sx_check(thrown, "an unsupported request is refused");
    sx_cover("refused");
  }
  }
  code_ = code;
}
extern "C" void sx_main() {
  sink_ = new std::ostringstream;
  first();
  a = new Run<TW>;
  a->whole();
  delete a->pc;
  delete a;
  when_ = sx_pick(sx_int("when", 1, MAXY));
  kind_ = sx_pick(sx_int("kind", 0, KINDS - 1));
  if (kind_ == 0) arg_ = sx_pick(sx_int("level", 0, 2));
  at_ = 0;
  yield_ = noise;
  second();
  a = new Run<TW>;
  a->whole();
  delete a->pc;
  delete a;
  done();
  sx_cover("end");
}
