// C31: what printing the execution statistics shows, after histories of solves (each
// of symbolic duration, with any of CODES outcomes) and resets.
#include <iomanip>
#include <ostream>
#include <sstream>
#include <string>
#include "nl.hpp"
#ifndef OPS
#define OPS 2
#endif
#ifndef CODES
#define CODES 3
#endif
static long now_ = 5000, dur_;
static int code_;
extern "C" long sx_clock_ns() { return now_; }
extern "C" int sx_nlopt_solve(nlopt_opt, double *, double *f) {
  now_ += dur_;
  *f = 0;
  return code_;
}
static int n_, per[8];
static double t_[OPS];
static void empty() { n_ = 0; for (int &p : per) p = 0; }
static bool skeleton(const char *a, const std::string &b) { // numbers are #
  size_t i = 0;
  for (; *a; a++) {
    if (i >= b.size()) return false;
    if (b[i] == '#') {
      while (*a && *a != ' ' && *a != '%' && *a != '\n') a++;
      if (++i >= b.size()) return false;
    }
    if (*a != b[i++]) return false;
  }
  return i == b.size();
}
static const char *names[] = {"SUCCESS", "MAX_ITERATION", "INFEASIBLE", "ERROR", "UNKNOWN"};
static std::ostringstream *os;
static int at_;
static void shows(double v, int decimals, const char *what) {
  int dec = 0;
  double got = sx_printed(static_cast<std::ostream *>(os), at_++, &dec);
  sx_check(dec == decimals, "decimals");
  sx_check_near(got, v, decimals == 6 ? 1e-6 : decimals == 2 ? 1e-2 : 1e-9, what);
}
static void print(const SolutionStats &s) {
  static std::ostringstream out;
  os = &out;
  if (sx_pick(sx_int("format", 0, 1))) *os << std::setprecision(3) << std::scientific;
  int fl = (int)os->flags(), prec = (int)os->precision();
  *os << s;
  sx_check((int)os->flags() == fl && (int)os->precision() == prec, "format of the stream left alone");
  std::string want = "Solution stats:\n  - min: # s\n  - max: # s\n  - avg: # s\n  - std: # s\n";
  if (n_) {
    want += "Solution status percentages:\n";
    for (int i = 0; i < 5; i++) if (per[i]) want += std::string("  - ") + names[i] + ": #%\n";
  }
  want += "Total time and number of solutions:\n  - tot: # s\n  - num: #\n";
  sx_check(skeleton(sx_text(static_cast<std::ostream *>(os)), want), "text");
}
static void shares() {
  for (int i = 0; i < 5; i++) if (per[i]) shows(100.0 * per[i] / n_, 2, "percentage");
}
#ifdef RAW
extern "C" void sx_main() { // statistics of any content
  empty();
  SolutionStats s;
  double v[5];
  for (int i = 0; i < 5; i++) {
    v[i] = sx_double(Nm("t", i), 0, 1000);
    per[i] = sx_pick(sx_int(Nm("n", i), 0, RAW));
    if (per[i]) s.solutionsStates[(ResultStatus)i] = per[i];
    n_ += per[i];
  }
  s.minSolutionTime = std::chrono::duration<double>(v[0]);
  s.maxSolutionTime = std::chrono::duration<double>(v[1]);
  s.averageSolutionTime = std::chrono::duration<double>(v[2]);
  s.standardDeviation = v[3];
  s.totalSolutionTime = std::chrono::duration<double>(v[4]);
  s.numberOfSolutions = n_;
  print(s);
  shows(v[0], 6, "minimum"); shows(v[1], 6, "maximum"); shows(v[2], 6, "average"); shows(v[3], 6, "deviation");
  shares();
  shows(v[4], 6, "total"); shows(n_, 0, "number");
  sx_cover("end");
}
#else
extern "C" void sx_main() {
  unitScale();
  Ctl *pc = newCtl();
  Ctl &c = *pc;
  quiet(c);
  c.setStateSpaceFunction([](XV &dx, const XV &, const UV &, const unsigned int &) { dx.setZero(); });
  trivialObj(c);
  empty();
  for (int op = 0; op < OPS; op++) {
    if (sx_pick(sx_int(Nm("op", op), 0, 1)) == 0) {
      long d = sx_long(Nm("d", op), 1, 3000000000l); // nanoseconds
      dur_ = d;
      static const int codes[] = {1, -1, 5};
      code_ = codes[sx_pick(sx_int(Nm("code", op), 0, CODES - 1))];
      long start = now_;
      auto r = c.optimize(symX0(Nm("x0", op)), symU0(Nm("u0", op)));
      now_ = start + 5000000000l;
      per[(int)r.status]++;
      t_[n_++] = std::chrono::duration<double>(std::chrono::nanoseconds(d)).count();
    } else c.resetStats(), empty();
  }
  print(c.getExecutionStats());
  if (n_) {
    const SolutionStats &s = c.getExecutionStats(); // C23 decides whether these are right
    double tot = 0, mn = t_[0], mx = t_[0];
    for (int i = 0; i < n_; i++) {
      tot += t_[i];
      mn = t_[i] < mn ? t_[i] : mn;
      mx = t_[i] > mx ? t_[i] : mx;
    }
    shows(mn, 6, "minimum"); shows(mx, 6, "maximum"); shows(tot / n_, 6, "average"); shows(s.standardDeviation, 6, "deviation");
    shares();
    shows(tot, 6, "total"); shows(n_, 0, "number");
    sx_cover(n_ == 1 ? "one" : "many");
  } else sx_cover("empty");
  delete pc;
  sx_cover("end");
}
#endif
