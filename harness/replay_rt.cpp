// Native back end of the harness interface: runs a harness, compiled with an
// ordinary compiler and the real run-time library, on one set of input values.
//   replay VALUES [TOLERANCE]
// Prints "FAIL <check>" per failed check and "DONE checks=N fails=M" at the end.
#include "sx.hpp"
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <regex>
#include <set>
#include <sstream>
#include <string>
#if defined(__SANITIZE_ADDRESS__) || (defined(__has_feature) && __has_feature(address_sanitizer))
#include <sanitizer/allocator_interface.h>
#define HAVE_ASAN 1
#endif
static std::map<std::string, std::string> *vals;
static std::set<std::string> *names;
static double tol = 1e-7;
static long nchecks, nfails;
static long live;
static int quietHooks;
struct Sink : std::streambuf { // what goes to the console
  char b[1 << 20];
  Sink() { setp(b, b + sizeof b); }
  std::string str() { return std::string(b, pptr() - b); }
};
static Sink *coutText;

static std::string uniq(const char *n) {
  std::string b = n, s = b;
  for (int i = 2; names->count(s); i++) s = b + "#" + std::to_string(i);
  names->insert(s);
  return s;
}
// the executor's default for inputs the solver left open
static double dflt(const std::string &n, double lo, double hi) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : n) h = (h ^ c) * 1099511628211ull;
  h ^= h >> 29;
  h *= 0xbf58476d1ce4e5b9ull;
  h ^= h >> 32;
  double t = (double)(h % 61 + 2) / 64.0, v = lo + (hi - lo) * t;
  if (hi - lo > 1e-3) v = std::round(v * 1024) / 1024;
  return v < lo ? lo : v > hi ? hi : v;
}
struct Quiet { Quiet() { quietHooks++; } ~Quiet() { quietHooks--; } };
static bool skipTag(const char *tag) {
  Quiet q;
  static const char *re = getenv("SX_TAGS");
  return re && *re && !std::regex_search(tag, std::regex(re));
}
static void result(bool ok, const char *tag) {
  nchecks++;
  if (!ok) { nfails++; if (nfails < 20) fprintf(stderr, "FAIL %s\n", tag); }
}
extern "C" {
double sx_double(const char *name, double lo, double hi) {
  Quiet q;
  std::string n = uniq(name);
  auto i = vals->find(n);
  return i != vals->end() ? strtod(i->second.c_str(), nullptr) : dflt(n, lo, hi);
}
long sx_long(const char *name, long lo, long) {
  Quiet q;
  auto i = vals->find(uniq(name));
  return i != vals->end() ? strtol(i->second.c_str(), nullptr, 10) : lo;
}
int sx_int(const char *name, int lo, int hi) { return (int)sx_long(name, lo, hi); }
int sx_bool(const char *name) { return sx_long(name, 0, 1) != 0; }
int sx_pick(int v) { return v; }
double sx_uf(const char *name, const double *a, int n) { // some function that tells nearby arguments apart
  double s = 0.1 * name[0] + (name[0] ? 0.3 * name[1] : 0), f = 0.9;
  for (const char *p = name; *p; p++) s += 0.37 * *p;
  for (int i = 0; i < n; i++) { s += f * a[i]; f = f * 0.83 + 0.07; }
  return 2 * std::sin(s) + 0.5;
}
void sx_assume(int c) { if (!c) { fprintf(stderr, "ASSUME\n"); _Exit(77); } }
void sx_check(int c, const char *tag) { if (!skipTag(tag)) result(c != 0, tag); }
void sx_check_eq(double a, double b, const char *tag) {
  if (skipTag(tag)) return;
  bool ok = a == b || (std::isnan(a) && std::isnan(b));
  if (!ok && std::isfinite(a) && std::isfinite(b)) ok = std::fabs(a - b) <= tol * (1 + (tol > 1e-8 ? std::fmin(std::fabs(a), std::fabs(b)) : 0));
  if (!ok && nfails < 20) fprintf(stderr, "  %.17g != %.17g\n", a, b);
  result(ok, tag);
}
void sx_check_near(double a, double b, double t, const char *tag) { if (!skipTag(tag)) result(std::fabs(a - b) <= t + 1e-12, tag); }
void sx_cover(const char *) {}
int sx_live_heap() { return (int)live; }
const char *sx_text(const void *os) {
  Quiet q;
  std::string t;
  if (os == (const void *)static_cast<std::ostream *>(&std::cout)) t = coutText->str();
  else t = static_cast<const std::ostringstream *>(static_cast<const std::ostream *>(os))->str();
  return strdup(t.c_str());
}
double sx_printed(const void *os, int i, int *decimals) { // numbers follow ": "
  Quiet q;
  std::string t = static_cast<const std::ostringstream *>(static_cast<const std::ostream *>(os))->str();
  size_t at = 0;
  *decimals = -2;
  while ((at = t.find(": ", at)) != std::string::npos) {
    at += 2;
    if (i-- > 0) continue;
    size_t e = at;
    while (e < t.size() && (isdigit((unsigned char)t[e]) || strchr("+-.e", t[e]))) e++;
    size_t p = t.find('.', at);
    *decimals = p < e ? (int)(e - p - 1) : 0;
    return atof(t.c_str() + at);
  }
  return 0;
}
void sx_end() { printf("DONE checks=%ld fails=%ld\n", nchecks, nfails); fflush(stdout); _Exit(nfails ? 1 : 0); }
long __attribute__((weak)) sx_clock_ns() {
  static long t = 1000000;
  return t += 1000000;
}
}
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(sx_clock_ns())); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(sx_clock_ns())); }
} } }
#ifdef HAVE_ASAN
static void onMalloc(const volatile void *, size_t) { if (!quietHooks) live++; }
static void onFree(const volatile void *p) { if (p && !quietHooks) live--; }
#endif
static void report() {
  fflush(stderr);
  printf("DONE checks=%ld fails=%ld\n", nchecks, nfails);
  fflush(stdout);
}
int main(int argc, char **argv) {
  vals = new std::map<std::string, std::string>;
  names = new std::set<std::string>;
  coutText = new Sink;
  if (argc > 2) tol = atof(argv[2]);
  std::ifstream f(argv[1]);
  std::string l;
  while (std::getline(f, l)) {
    auto p = l.rfind('=');
    if (p != std::string::npos) (*vals)[l.substr(0, p)] = l.substr(p + 1);
  }
  static std::streambuf *old = std::cout.rdbuf(coutText);
  (void)old;
#ifdef HAVE_ASAN
  __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
#endif
  sx_main();
  quietHooks++;
  report();
  std::cout.rdbuf(old);
  return nfails ? 1 : 0;
}
