// Runtime library executed symbolically together with the harness: the parts
// of libstdc++ that live in the shared object.
#include <chrono>
#include <exception>
#include <functional>
#include <new>
#include <stdexcept>
#include <typeinfo>
#include <cstring>
#include <cstdlib>
#include <bits/stl_tree.h>

extern "C" __attribute__((weak)) long sx_clock_ns() {
  static long t = 1000000;
  t += 1000000;
  return t;
}

namespace std {
namespace chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(sx_clock_ns())); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(sx_clock_ns())); }
} // namespace _V2
} // namespace chrono

// ---- exceptions
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "bad_cast"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }

#define SX_STR(obj) (*(char **)((char *)(obj) + sizeof(void *)))
static char *sx_dup(const char *c) {
  size_t n = strlen(c) + 1;
  char *p = (char *)malloc(n);
  memcpy(p, c, n);
  return p;
}
} // namespace std
// The message members (__cow_string) are handled as plain C strings.
extern "C" {
static char *dupc(const char *c) { return std::sx_dup(c); }
void sxrt_str_ctor(void *o, const char *c) { SX_STR(o) = dupc(c); }
}
namespace std {
__cow_string::__cow_string() { *(char **)this = sx_dup(""); }
__cow_string::__cow_string(const std::string &s) { *(char **)this = sx_dup(s.c_str()); }
__cow_string::__cow_string(const char *c, size_t) { *(char **)this = sx_dup(c); }
__cow_string::__cow_string(const __cow_string &o) noexcept { *(char **)this = sx_dup(*(char **)&o); }
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept {
  char *n = sx_dup(*(char **)&o);
  free(*(char **)this);
  *(char **)this = n;
  return *this;
}
__cow_string::~__cow_string() { free(*(char **)this); }
__cow_string::__cow_string(__cow_string &&o) noexcept { *(char **)this = sx_dup(*(char **)&o); }
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { return *this = (const __cow_string &)o; }

logic_error::logic_error(const string &s) : _M_msg(s) {}
logic_error::logic_error(const char *s) : _M_msg(s, 0) {}
logic_error::logic_error(const logic_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error::logic_error(logic_error &&o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return *(char *const *)&_M_msg; }
domain_error::domain_error(const char *s) : logic_error(s) {}
domain_error::~domain_error() noexcept {}
invalid_argument::invalid_argument(const char *s) : logic_error(s) {}
invalid_argument::invalid_argument(const string &s) : logic_error(s) {}
invalid_argument::~invalid_argument() noexcept {}
length_error::length_error(const char *s) : logic_error(s) {}
length_error::length_error(const string &s) : logic_error(s) {}
length_error::~length_error() noexcept {}
out_of_range::out_of_range(const char *s) : logic_error(s) {}
out_of_range::out_of_range(const string &s) : logic_error(s) {}
out_of_range::~out_of_range() noexcept {}
runtime_error::runtime_error(const string &s) : _M_msg(s) {}
runtime_error::runtime_error(const char *s) : _M_msg(s, 0) {}
runtime_error::runtime_error(const runtime_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::runtime_error(runtime_error &&o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return *(char *const *)&_M_msg; }
range_error::range_error(const char *s) : runtime_error(s) {}
range_error::~range_error() noexcept {}
overflow_error::overflow_error(const char *s) : runtime_error(s) {}
overflow_error::~overflow_error() noexcept {}
underflow_error::underflow_error(const char *s) : runtime_error(s) {}
underflow_error::~underflow_error() noexcept {}

void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }

// ---- red-black tree: an unbalanced search tree with the same interface
typedef _Rb_tree_node_base *NP;
typedef const _Rb_tree_node_base *CNP;
static NP inc(NP x) {
  if (x->_M_right) {
    x = x->_M_right;
    while (x->_M_left) x = x->_M_left;
  } else {
    NP y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
  }
  return x;
}
static NP dec(NP x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) {
    NP y = x->_M_left;
    while (y->_M_right) y = y->_M_right;
    x = y;
  } else {
    NP y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    x = y;
  }
  return x;
}
NP _Rb_tree_increment(NP x) throw() { return inc(x); }
CNP _Rb_tree_increment(CNP x) throw() { return inc(const_cast<NP>(x)); }
NP _Rb_tree_decrement(NP x) throw() { return dec(x); }
CNP _Rb_tree_decrement(CNP x) throw() { return dec(const_cast<NP>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, NP x, NP p, _Rb_tree_node_base &h) throw() {
  x->_M_parent = p;
  x->_M_left = x->_M_right = 0;
  x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
NP _Rb_tree_rebalance_for_erase(NP const z, _Rb_tree_node_base &h) throw() {
  // plain binary-search-tree deletion of z; z is returned unlinked
  auto replace = [&](NP u, NP v) {
    if (h._M_parent == u) h._M_parent = v;
    else if (u->_M_parent->_M_left == u) u->_M_parent->_M_left = v;
    else u->_M_parent->_M_right = v;
    if (v) v->_M_parent = u->_M_parent;
  };
  NP lm = h._M_left, rm = h._M_right;
  NP nlm = lm == z ? inc(z) : lm, nrm = rm;
  if (rm == z) nrm = lm == z ? &h : dec(z);
  if (lm == z && rm == z) nlm = &h;
  if (!z->_M_left) replace(z, z->_M_right);
  else if (!z->_M_right) replace(z, z->_M_left);
  else {
    NP y = z->_M_right;
    while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) {
      replace(y, y->_M_right);
      y->_M_right = z->_M_right;
      y->_M_right->_M_parent = y;
    }
    replace(z, y);
    y->_M_left = z->_M_left;
    y->_M_left->_M_parent = y;
  }
  h._M_left = nlm;
  h._M_right = nrm;
  return z;
}
} // namespace std
