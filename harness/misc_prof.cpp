// C23: execution statistics over histories of solves (each of symbolic duration,
// with any of CODES outcomes) and resets.
#include "nl.hpp"
#ifndef OPS
#define OPS 3
#endif
#ifndef CODES
#define CODES 3
#endif
#ifndef DMIN
#define DMIN 1
#endif
static long now_ = 5000, dur_;
static int code_;
static bool broken_; // the answer misses the constraints
extern "C" long sx_clock_ns() { return now_; }
extern "C" int sx_nlopt_solve(nlopt_opt, double *, double *f) {
  now_ += dur_;
  *f = 0;
  return code_;
}
static long D[OPS];
static int n_, per[8];
static void empty() { n_ = 0; for (int &p : per) p = 0; }
static void look(Ctl &c) {
  const SolutionStats &s = c.getExecutionStats();
  sx_check(s.numberOfSolutions == n_, "number of solves");
  int sum = 0;
  for (auto &p : s.solutionsStates) {
    sum += p.second;
    sx_check((int)p.first >= 0 && (int)p.first < 8, "known status");
    sx_check(p.second == per[(int)p.first], "count per status");
  }
  sx_check(sum == n_, "counts add up");
  if (!n_) {
    sx_check(s.minSolutionTime == std::chrono::duration<double>::max(), "empty minimum");
    sx_check(s.maxSolutionTime == std::chrono::duration<double>::min(), "empty maximum");
    sx_check(s.averageSolutionTime.count() == 0 && s.totalSolutionTime.count() == 0 && s.standardDeviation == 0, "empty average, total and deviation");
    sx_check(s.solutionsStates.empty(), "empty counts");
    sx_cover("empty");
    return;
  }
  double t[OPS], tot = 0, mn, mx;
  for (int i = 0; i < n_; i++) t[i] = std::chrono::duration<double>(std::chrono::nanoseconds(D[i])).count();
  mn = mx = t[0];
  for (int i = 0; i < n_; i++) {
    tot += t[i];
    mn = t[i] < mn ? t[i] : mn;
    mx = t[i] > mx ? t[i] : mx;
  }
  double avg = tot / n_, var = 0;
  for (int i = 0; i < n_; i++) var += (t[i] - avg) * (t[i] - avg);
  sx_check_eq(s.totalSolutionTime.count(), tot, "total");
  sx_check_eq(s.averageSolutionTime.count(), avg, "average");
  sx_check_eq(s.minSolutionTime.count(), mn, "minimum");
  sx_check_eq(s.maxSolutionTime.count(), mx, "maximum");
  sx_check(s.standardDeviation >= 0, "deviation not negative");
  sx_check_eq(s.standardDeviation * s.standardDeviation, var / n_, "variance");
  sx_cover(n_ == 1 ? "one" : "many");
}
extern "C" void sx_main() {
  unitScale();
  Ctl *pc = newCtl();
  Ctl &c = *pc;
  quiet(c);
  c.setStateSpaceFunction([](XV &dx, const XV &, const UV &, const unsigned int &) { dx.setZero(); });
  trivialObj(c);
  c.setIneqConFunction([](IV &o, const XM &, const YM &, const UM &, const double &) { for (int i = 0; i < NI; i++) o(i) = broken_ ? 1 : -1; });
  empty();
  look(c);
  for (int op = 0; op < OPS; op++) {
    int what = sx_pick(sx_int(Nm("op", op), 0, 1));
    if (what == 0) {
      dur_ = D[n_] = sx_long(Nm("d", op), DMIN, 3000000000l); // nanoseconds
      static const int codes[] = {1, -1, 5, 5, 1};
      int o = sx_pick(sx_int(Nm("code", op), 0, CODES - 1));
      code_ = codes[o];
      broken_ = o == 2 || o == 4;
      long start = now_;
      auto r = c.optimize(symX0(Nm("x0", op)), symU0(Nm("u0", op)));
      now_ = start + 5000000000l; // idle time does not count
      per[(int)r.status]++;
      if (code_ > 0) sx_check(r.is_feasible == !broken_, "feasibility");
      n_++;
    } else {
      c.resetStats();
      empty();
      sx_cover("reset");
    }
    look(c);
  }
  sx_cover("end");
  delete pc;
}
