// C24: which messages are written, with what text, after any sequence of
// configuration calls.
#include "nl.hpp"
#include <sstream>
#include <string>
#ifndef OPS
#define OPS 2
#endif
extern "C" int sx_nlopt_solve(nlopt_opt, double *, double *) { return 1; }
static std::ostringstream *st[3]; // st[0] stands for std::cout
static std::string want[3];
static int level = 1, cur = 0;
static std::string prefix;
static const char *text(int i) { return i ? sx_text(static_cast<std::ostream *>(st[i])) : sx_text(static_cast<std::ostream *>(&std::cout)); }
static bool same(const char *a, const std::string &b) {
  size_t i = 0;
  for (; a[i]; i++) if (i >= b.size() || a[i] != b[i]) return false;
  return i == b.size();
}
static void message(int type, int form) {
  Logger &l = Logger::instance();
  std::string m = prefix.empty() ? "[MPC++] " : "[MPC++ " + prefix + "] ";
  Logger::log_type t = (Logger::log_type)type;
  if (form == 0) { l.log(t) << "text" << std::endl; m += "text\n"; }
  else if (form == 1) { l.log(t) << 12 << std::string(" and ") << 0.5 << std::endl; m += "12 and 0.5\n"; }
  else if (form == 2) { l.log(t); }
  else { l.log(t) << "a" << std::endl << 'b' << 3u << "c"; m += "a\nb3c"; }
  bool written = type >= level;
  if (written) want[cur] += m;
  sx_cover(written ? "written" : "silent");
  if (written && !prefix.empty()) sx_cover("prefix");
}
static const char *names[] = {"", "p", "a b"};
extern "C" void sx_main() {
  for (int i = 1; i < 3; i++) st[i] = new std::ostringstream;
  Logger &l = Logger::instance();
  Ctl *c = newCtl();
  want[0] = text(0); // whatever creating a controller prints
  Logger::log_level lv = (Logger::log_level)0;
  bool first = true;
  for (int op = 0; op < OPS; op++) {
    int what = sx_pick(sx_int(Nm("op", op), 0, 6));
    switch (what) {
    case 0: case 1: {
      level = sx_int(Nm("level", op), 0, 3);
      lv = (Logger::log_level)level;
      if (what) l.setLevel(lv); else c->setLoggerLevel(lv);
      sx_cover("level");
      break;
    }
    case 2: case 3:
      prefix = names[sx_pick(sx_int(Nm("prefix", op), 0, 2))];
      if (what == 2) l.setPrefix(prefix); else c->setLoggerPrefix(prefix);
      break;
    case 4:
      cur = sx_pick(sx_int(Nm("stream", op), 0, 2));
      l.setStream(cur ? static_cast<std::ostream *>(st[cur]) : static_cast<std::ostream *>(&std::cout));
      sx_cover("stream");
      break;
    case 5:
      l.reset();
      level = 1;
      prefix = "";
      sx_cover("reset");
      break;
    case 6:
      message(sx_int(Nm("type", op), 0, 2), sx_pick(sx_int(Nm("form", op), 0, 3)));
      break;
    }
  }
  int t = sx_int("type", 0, 2);
  message(t, 1);
  for (int i = 0; i < 3; i++) sx_check(same(text(i), want[i]), i == cur ? "text on the current stream" : "nothing on another stream");
  message(sx_int("type_b", 0, 2), 3);
  for (int i = 0; i < 3; i++) sx_check(same(text(i), want[i]), i == cur ? "text on the current stream" : "nothing on another stream");
  sx_cover("end");
}
