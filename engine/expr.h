// Hash-consed terms and the Z3 back end of the symbolic executor.
#pragma once
#include <gmpxx.h>
#include <z3++.h>
#include <cassert>
#include <cmath>
#include <chrono>
#include <cstdint>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

enum class Op : uint8_t {
  VAR, CONST,
  // bool
  NOT, AND, OR, EQ, ITE,
  // bit vectors
  ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, SHL, LSHR, ASHR, BAND, BOR, BXOR,
  ULT, ULE, SLT, SLE, ZEXT, SEXT, EXTRACT, CONCAT,
  // reals
  RADD, RSUB, RMUL, RDIV, RNEG, RLT, RLE, SITOFP, UITOFP, SQRT, UF
};
enum class Sort : uint8_t { B, V, R };

struct Expr {
  Op op;
  Sort s;
  uint16_t w;       // width for V
  uint32_t id;
  uint64_t u;       // BV/bool constant, EXTRACT low bit
  mpq_class *q;     // real constant
  std::string *name;
  std::vector<const Expr *> ch;
  std::vector<uint32_t> vars; // ids of VAR/SQRT atoms below, sorted
};
using E = const Expr *;

inline uint64_t maskw(uint64_t v, unsigned w) { return w >= 64 ? v : (v & ((1ull << w) - 1)); }
inline int64_t sextw(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ull << (w - 1);
  v = maskw(v, w);
  return (int64_t)((v ^ m) - m);
}
// exact double -> rational
inline mpq_class d2q(double d) { return mpq_class(d); }
// rational -> double if exactly representable
inline bool q2d(const mpq_class &q, double &out) {
  double d = q.get_d(); // truncates
  if (!std::isfinite(d)) return false;
  if (mpq_class(d) == q) { out = d; return true; }
  return false;
}

struct ExprPool {
  struct H {
    size_t operator()(E e) const {
      size_t h = (size_t)e->op * 1000003u + (size_t)e->s * 31 + e->w;
      h = h * 1000003u + std::hash<uint64_t>()(e->u);
      if (e->name) h = h * 31 + std::hash<std::string>()(*e->name);
      if (e->q) h = h * 31 + std::hash<double>()(e->q->get_d());
      for (auto c : e->ch) h = h * 1000003u + c->id;
      return h;
    }
  };
  struct EQ {
    bool operator()(E a, E b) const {
      if (a->op != b->op || a->s != b->s || a->w != b->w || a->u != b->u) return false;
      if ((a->name == nullptr) != (b->name == nullptr)) return false;
      if (a->name && *a->name != *b->name) return false;
      if ((a->q == nullptr) != (b->q == nullptr)) return false;
      if (a->q && *a->q != *b->q) return false;
      return a->ch == b->ch;
    }
  };
  std::unordered_set<E, H, EQ> pool;
  std::vector<E> byId;

  E intern(Expr &&t) {
    auto it = pool.find(&t);
    if (it != pool.end()) {
      if (t.q) delete t.q;
      if (t.name) delete t.name;
      return *it;
    }
    Expr *n = new Expr(std::move(t));
    n->id = byId.size();
    std::set<uint32_t> vs;
    for (auto c : n->ch) vs.insert(c->vars.begin(), c->vars.end());
    if (n->op == Op::VAR) vs.insert(n->id);
    n->vars.assign(vs.begin(), vs.end());
    byId.push_back(n);
    pool.insert(n);
    return n;
  }
  E mk(Op op, Sort s, unsigned w, std::vector<E> ch, uint64_t u = 0) {
    return intern(Expr{op, s, (uint16_t)w, 0, u, nullptr, nullptr, std::move(ch), {}});
  }
  E var(const std::string &n, Sort s, unsigned w) {
    return intern(Expr{Op::VAR, s, (uint16_t)w, 0, 0, nullptr, new std::string(n), {}, {}});
  }
  E cbv(uint64_t v, unsigned w) { return intern(Expr{Op::CONST, Sort::V, (uint16_t)w, 0, maskw(v, w), nullptr, nullptr, {}, {}}); }
  E cb(bool v) { return intern(Expr{Op::CONST, Sort::B, 1, 0, (uint64_t)v, nullptr, nullptr, {}, {}}); }
  E cr(const mpq_class &q) { return intern(Expr{Op::CONST, Sort::R, 0, 0, 0, new mpq_class(q), nullptr, {}, {}}); }
  E uf(const std::string &n, std::vector<E> args) {
    return intern(Expr{Op::UF, Sort::R, 0, 0, 0, nullptr, new std::string(n), std::move(args), {}});
  }
};
extern ExprPool P;
// integer inputs: declared range, and the path conditions that only restate it
extern std::unordered_map<uint32_t, std::pair<int64_t, int64_t>> varRange;
extern std::unordered_map<uint32_t, uint32_t> rangeFact; // condition -> input

inline bool isC(E e) { return e->op == Op::CONST; }
inline bool isT(E e) { return e->op == Op::CONST && e->s == Sort::B && e->u; }
inline bool isF(E e) { return e->op == Op::CONST && e->s == Sort::B && !e->u; }

E bNot(E a);
E bAnd(E a, E b);
E bOr(E a, E b);
E mkEq(E a, E b);
E mkIte(E c, E a, E b);
E vBin(Op op, E a, E b);
E vCmp(Op op, E a, E b);
E vZext(E a, unsigned w);
E vSext(E a, unsigned w);
E vExtract(E a, unsigned lo, unsigned w);
E vConcat(E hi, E lo);
E rAdd(E a, E b);
E rSub(E a, E b);
E rMul(E a, E b);
E rDiv(E a, E b);
E rNeg(E a);
E rLt(E a, E b);
E rLe(E a, E b);
E rSqrt(E a);
E i2r(E a, bool sgn);

// ---------------------------------------------------------------- models
struct MVal { uint64_t u = 0; mpq_class q; };
struct Model { std::map<uint32_t, MVal> v; };
struct EvalFail {};
struct Evaluator {
  const Model &m;
  std::unordered_map<uint32_t, MVal> memo;
  explicit Evaluator(const Model &mm) : m(mm) {}
  const MVal &ev(E e);
};

enum class Res { SAT, UNSAT, UNKNOWN };

struct SolverStats {
  uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0;
  double secs = 0, maxSecs = 0;
};

struct Solver {
  z3::context ctx;
  std::unordered_map<uint32_t, z3::expr> cache;
  std::map<std::string, z3::func_decl> ufs;
  SolverStats st;
  unsigned timeoutMs = 8000;
  std::string dumpDir;
  int dumpMax = 0, dumped = 0;
  z3::expr tr(E e);
  Res check(const std::vector<E> &asserts, Model *out, unsigned tmo = 0);
  // is the term different from zero for some values of its variables?
  Res checkZero(E n, unsigned tmo);
  // can any of the pairs differ under the assumptions?
  Res checkDiffer(const std::vector<E> &as, const std::vector<std::pair<E, E>> &eqs, unsigned tmo);
};
