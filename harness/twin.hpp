// A run is a sequence of inputs (the same for both runs) and observations
// (compared one by one in the second run).
#pragma once
struct Obs { double v; const char *what; };
static double *tin_;
static int *tpick_;
static Obs *obs_;
static int nin_, npick_, nobs_, iin_, ipick_, iobs_;
static bool second_, other_; // other_: calls on the unrelated controller
static void first() { tin_ = new double[4096]; tpick_ = new int[256]; obs_ = new Obs[60000]; }
static void second() { second_ = true; }
// a third run repeats the second one, with the same calls on the other controller
static double bin_[4096];
static int bpick_[256], ibin_, ibpick_;
static bool third_;
static void third() { third_ = true; iin_ = ipick_ = iobs_ = ibin_ = ibpick_ = 0; }
static double in(double lo = -3, double hi = 3) {
  if (other_) { if (!third_) bin_[ibin_] = sx_double(Nm("b", ibin_), lo, hi); return bin_[ibin_++]; }
  if (!second_) { tin_[nin_] = sx_double(Nm("t", nin_), lo, hi); return tin_[nin_++]; }
  sx_check(iin_ < nin_, "same number of inputs read");
  return tin_[iin_++];
}
static int pick(int lo, int hi) {
  if (other_) { if (!third_) bpick_[ibpick_] = sx_pick(sx_int(Nm("bp", ibpick_), lo, hi)); return bpick_[ibpick_++]; }
  if (!second_) { tpick_[npick_] = sx_pick(sx_int(Nm("p", npick_), lo, hi)); return tpick_[npick_++]; }
  return tpick_[ipick_++];
}
static int any(int lo = -1000000) { // any integer
  if (other_) { if (!third_) bpick_[ibpick_] = sx_int(Nm("bi", ibpick_), lo, 1000000); return bpick_[ibpick_++]; }
  if (!second_) { tpick_[npick_] = sx_int(Nm("p", npick_), lo, 1000000); return tpick_[npick_++]; }
  return tpick_[ipick_++];
}
static bool mute_; // observations that are not compared
static void put(double v, const char *what) {
  if (mute_) return;
  if (other_) { sx_check_eq(v, v, "defined value"); return; }
  if (!second_) { obs_[nobs_].v = v; obs_[nobs_++].what = what; return; }
  if (iobs_ >= nobs_) { sx_check(0, "more observations in the second run"); return; }
  sx_check_eq(v, obs_[iobs_++].v, what);
}
template <class M> static void putM(const M &m, const char *what) {
  put(m.rows(), what);
  put(m.cols(), what);
  for (int i = 0; i < (int)m.rows(); i++) for (int j = 0; j < (int)m.cols(); j++) put(m(i, j), what);
}
template <class R> static void putR(const R &r) {
  put(r.solver_status, "solver code"); put((int)r.status, "status"); put(r.cost, "cost"); put(r.is_feasible, "feasibility");
  putM(r.cmd, "command");
  for (char ch : r.solver_status_msg) put(ch, "message");
}
static void done() {
  sx_check(iobs_ == nobs_, "same number of observations");
  delete[] tin_; delete[] tpick_; delete[] obs_;
}
