#include "expr.h"
ExprPool P;

E bNot(E a) {
  if (isC(a)) return P.cb(!a->u);
  if (a->op == Op::NOT) return a->ch[0];
  return P.mk(Op::NOT, Sort::B, 1, {a});
}
E bAnd(E a, E b) {
  if (isC(a)) return a->u ? b : a;
  if (isC(b)) return b->u ? a : b;
  if (a == b) return a;
  if (a->id > b->id) std::swap(a, b);
  return P.mk(Op::AND, Sort::B, 1, {a, b});
}
E bOr(E a, E b) {
  if (isC(a)) return a->u ? a : b;
  if (isC(b)) return b->u ? b : a;
  if (a == b) return a;
  if (a->id > b->id) std::swap(a, b);
  return P.mk(Op::OR, Sort::B, 1, {a, b});
}
E mkEq(E a, E b) {
  if (a == b) return P.cb(true);
  if (isC(a) && isC(b)) {
    if (a->s == Sort::R) return P.cb(*a->q == *b->q);
    return P.cb(a->u == b->u);
  }
  if (a->s == Sort::B) {
    if (isC(a)) return a->u ? b : bNot(b);
    if (isC(b)) return b->u ? a : bNot(a);
  }
  if (isC(a)) std::swap(a, b);
  if (isC(b) && a->s == Sort::V) {
    if (a->op == Op::ITE && isC(a->ch[1]) && isC(a->ch[2])) {
      bool x = a->ch[1]->u == b->u, y = a->ch[2]->u == b->u;
      if (x && y) return P.cb(true);
      if (!x && !y) return P.cb(false);
      return x ? a->ch[0] : bNot(a->ch[0]);
    }
    if (a->op == Op::ZEXT) {
      E in = a->ch[0];
      if (maskw(b->u, in->w) != b->u) return P.cb(false);
      return mkEq(in, P.cbv(b->u, in->w));
    }
    if (a->op == Op::SEXT) {
      E in = a->ch[0];
      if (maskw((uint64_t)sextw(b->u, in->w), a->w) != b->u) return P.cb(false);
      return mkEq(in, P.cbv(b->u, in->w));
    }
    if (a->op == Op::ADD && isC(a->ch[1])) return mkEq(a->ch[0], P.cbv(b->u - a->ch[1]->u, a->w));
  }
  if (!isC(b) && a->id > b->id) std::swap(a, b);
  return P.mk(Op::EQ, Sort::B, 1, {a, b});
}
E mkIte(E c, E a, E b) {
  if (isC(c)) return c->u ? a : b;
  if (a == b) return a;
  if (c->op == Op::NOT) return mkIte(c->ch[0], b, a);
  if (a->s == Sort::B) {
    if (isT(a) && isF(b)) return c;
    if (isF(a) && isT(b)) return bNot(c);
    if (isT(a)) return bOr(c, b);
    if (isF(a)) return bAnd(bNot(c), b);
    if (isT(b)) return bOr(bNot(c), a);
    if (isF(b)) return bAnd(c, a);
  }
  return P.mk(Op::ITE, a->s, a->w, {c, a, b});
}
E vBin(Op op, E a, E b) {
  unsigned w = a->w;
  if (isC(a) && isC(b)) {
    uint64_t x = a->u, y = b->u, r = 0;
    int64_t sx = sextw(x, w), sy = sextw(y, w);
    bool ok = true;
    switch (op) {
    case Op::ADD: r = x + y; break;
    case Op::SUB: r = x - y; break;
    case Op::MUL: r = x * y; break;
    case Op::UDIV: if (y) r = x / y; else ok = false; break;
    case Op::SDIV: if (y && !(sy == -1 && sx == INT64_MIN)) r = sx / sy; else ok = false; break;
    case Op::UREM: if (y) r = x % y; else ok = false; break;
    case Op::SREM: if (y && sy != -1) r = sx % sy; else if (sy == -1) r = 0; else ok = false; break;
    case Op::SHL: r = y >= w ? 0 : x << y; break;
    case Op::LSHR: r = y >= w ? 0 : x >> y; break;
    case Op::ASHR: r = y >= w ? (sx < 0 ? ~0ull : 0) : (uint64_t)(sx >> y); break;
    case Op::BAND: r = x & y; break;
    case Op::BOR: r = x | y; break;
    case Op::BXOR: r = x ^ y; break;
    default: ok = false;
    }
    if (ok) return P.cbv(r, w);
  }
  switch (op) {
  case Op::ADD:
    if (isC(a)) std::swap(a, b);
    if (isC(b) && !b->u) return a;
    if (isC(b) && a->op == Op::ADD && isC(a->ch[1])) return vBin(Op::ADD, a->ch[0], P.cbv(a->ch[1]->u + b->u, w));
    if (!isC(b) && a->op == Op::ADD && isC(a->ch[1])) return vBin(Op::ADD, vBin(Op::ADD, a->ch[0], b), a->ch[1]);
    if (!isC(b) && b->op == Op::ADD && isC(b->ch[1])) return vBin(Op::ADD, vBin(Op::ADD, a, b->ch[0]), b->ch[1]);
    break;
  case Op::SUB:
    if (isC(b)) return vBin(Op::ADD, a, P.cbv(0 - b->u, w));
    if (a == b) return P.cbv(0, w);
    if (a->op == Op::ADD && a->ch[0] == b) return a->ch[1];
    if (a->op == Op::ADD && a->ch[1] == b) return a->ch[0];
    break;
  case Op::MUL:
    if (isC(a)) std::swap(a, b);
    if (isC(b) && b->u == 0) return b;
    if (isC(b) && b->u == 1) return a;
    break;
  case Op::BAND:
    if (isC(a)) std::swap(a, b);
    if (isC(b) && b->u == 0) return b;
    if (isC(b) && b->u == maskw(~0ull, w)) return a;
    if (a == b) return a;
    break;
  case Op::BOR:
    if (isC(a)) std::swap(a, b);
    if (isC(b) && b->u == 0) return a;
    if (a == b) return a;
    break;
  case Op::BXOR:
    if (isC(a)) std::swap(a, b);
    if (isC(b) && b->u == 0) return a;
    if (a == b) return P.cbv(0, w);
    break;
  case Op::SHL: case Op::LSHR: case Op::ASHR:
    if (isC(b) && b->u == 0) return a;
    break;
  default: break;
  }
  return P.mk(op, Sort::V, w, {a, b});
}
E vCmp(Op op, E a, E b) {
  unsigned w = a->w;
  if (isC(a) && isC(b)) {
    int64_t sx = sextw(a->u, w), sy = sextw(b->u, w);
    switch (op) {
    case Op::ULT: return P.cb(a->u < b->u);
    case Op::ULE: return P.cb(a->u <= b->u);
    case Op::SLT: return P.cb(sx < sy);
    case Op::SLE: return P.cb(sx <= sy);
    default: break;
    }
  }
  if (a == b) return P.cb(op == Op::ULE || op == Op::SLE);
  if (op == Op::ULE) return bNot(vCmp(Op::ULT, b, a));
  if (op == Op::SLE) return bNot(vCmp(Op::SLT, b, a));
  return P.mk(op, Sort::B, 1, {a, b});
}
E vZext(E a, unsigned w) {
  if (a->s == Sort::B) return mkIte(a, P.cbv(1, w), P.cbv(0, w));
  if (a->w == w) return a;
  if (isC(a)) return P.cbv(a->u, w);
  return P.mk(Op::ZEXT, Sort::V, w, {a});
}
E vSext(E a, unsigned w) {
  if (a->s == Sort::B) return mkIte(a, P.cbv(~0ull, w), P.cbv(0, w));
  if (a->w == w) return a;
  if (isC(a)) return P.cbv((uint64_t)sextw(a->u, a->w), w);
  return P.mk(Op::SEXT, Sort::V, w, {a});
}
E vExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (isC(a)) return P.cbv(a->u >> lo, w);
  if (a->op == Op::EXTRACT) return vExtract(a->ch[0], lo + a->u, w);
  if (a->op == Op::CONCAT) {
    unsigned lw = a->ch[1]->w;
    if (lo + w <= lw) return vExtract(a->ch[1], lo, w);
    if (lo >= lw) return vExtract(a->ch[0], lo - lw, w);
  }
  if (a->op == Op::ZEXT || a->op == Op::SEXT) {
    E in = a->ch[0];
    if (lo + w <= in->w) return vExtract(in, lo, w);
    if (a->op == Op::ZEXT && lo >= in->w) return P.cbv(0, w);
    if (lo == 0) return a->op == Op::ZEXT ? vZext(in, w) : vSext(in, w);
  }
  if (a->op == Op::ITE && isC(a->ch[1]) && isC(a->ch[2]))
    return mkIte(a->ch[0], vExtract(a->ch[1], lo, w), vExtract(a->ch[2], lo, w));
  if (lo == 0 && (a->op == Op::ADD || a->op == Op::BAND || a->op == Op::BOR || a->op == Op::BXOR || a->op == Op::MUL || a->op == Op::SUB))
    return vBin(a->op, vExtract(a->ch[0], 0, w), vExtract(a->ch[1], 0, w));
  return P.mk(Op::EXTRACT, Sort::V, w, {a}, lo);
}
E vConcat(E hi, E lo) {
  if (isC(hi) && isC(lo) && hi->w + lo->w <= 64) return P.cbv((hi->u << lo->w) | lo->u, hi->w + lo->w);
  if (hi->op == Op::EXTRACT && lo->op == Op::EXTRACT && hi->ch[0] == lo->ch[0] && hi->u == lo->u + lo->w)
    return vExtract(hi->ch[0], lo->u, hi->w + lo->w);
  if (isC(hi) && hi->u == 0) return vZext(lo, hi->w + lo->w);
  return P.mk(Op::CONCAT, Sort::V, hi->w + lo->w, {hi, lo});
}
E rAdd(E a, E b) {
  if (isC(a) && isC(b)) return P.cr(*a->q + *b->q);
  if (isC(a) && *a->q == 0) return b;
  if (isC(b) && *b->q == 0) return a;
  if (isC(a)) std::swap(a, b);
  if (isC(b) && a->op == Op::RADD && isC(a->ch[1])) return rAdd(a->ch[0], P.cr(*a->ch[1]->q + *b->q));
  if (!isC(b) && a->id > b->id) std::swap(a, b);
  return P.mk(Op::RADD, Sort::R, 0, {a, b});
}
E rNeg(E a) {
  if (isC(a)) return P.cr(-*a->q);
  if (a->op == Op::RNEG) return a->ch[0];
  return P.mk(Op::RNEG, Sort::R, 0, {a});
}
E rSub(E a, E b) {
  if (isC(a) && isC(b)) return P.cr(*a->q - *b->q);
  if (isC(b) && *b->q == 0) return a;
  if (isC(a) && *a->q == 0) return rNeg(b);
  if (isC(b)) return rAdd(a, P.cr(-*b->q));
  return P.mk(Op::RSUB, Sort::R, 0, {a, b});
}
E rMul(E a, E b) {
  if (isC(a) && isC(b)) return P.cr(*a->q * *b->q);
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (*b->q == 0) return b;
    if (*b->q == 1) return a;
    if (*b->q == -1) return rNeg(a);
    if (a->op == Op::RMUL && isC(a->ch[1])) return rMul(a->ch[0], P.cr(*a->ch[1]->q * *b->q));
  }
  if (a == b && a->op == Op::SQRT) return a->ch[0];
  if (!isC(b) && a->id > b->id) std::swap(a, b);
  return P.mk(Op::RMUL, Sort::R, 0, {a, b});
}
E rDiv(E a, E b) {
  if (isC(b) && *b->q != 0) {
    if (isC(a)) return P.cr(*a->q / *b->q);
    return rMul(a, P.cr(1 / *b->q));
  }
  if (isC(a) && *a->q == 0) return a;
  return P.mk(Op::RDIV, Sort::R, 0, {a, b});
}
std::unordered_map<uint32_t, std::pair<int64_t, int64_t>> varRange;
std::unordered_map<uint32_t, uint32_t> rangeFact;
// >= 0 by its shape alone (sums and products of squares and the like)
static bool nonNeg(E e, int depth = 0) {
  if (isC(e)) return *e->q >= 0;
  if (depth > 40) return false;
  switch (e->op) {
  case Op::RADD: return nonNeg(e->ch[0], depth + 1) && nonNeg(e->ch[1], depth + 1);
  case Op::RMUL:
    if (e->ch[0] == e->ch[1]) return true;
    if (e->ch[0]->op == Op::RMUL) { // (c * x) * x
      E l = e->ch[0];
      if (l->ch[0] == e->ch[1] && nonNeg(l->ch[1], depth + 1)) return true;
      if (l->ch[1] == e->ch[1] && nonNeg(l->ch[0], depth + 1)) return true;
    }
    return nonNeg(e->ch[0], depth + 1) && nonNeg(e->ch[1], depth + 1);
  case Op::RDIV: return isC(e->ch[1]) && *e->ch[1]->q > 0 && nonNeg(e->ch[0], depth + 1);
  case Op::ITE: return nonNeg(e->ch[1], depth + 1) && nonNeg(e->ch[2], depth + 1);
  case Op::SQRT: return true;
  default: return false;
  }
}
E rLt(E a, E b) {
  if (isC(b) && *b->q <= 0 && !isC(a) && nonNeg(a)) return P.cb(false);
  if (isC(a) && isC(b)) return P.cb(*a->q < *b->q);
  if (a == b) return P.cb(false);
  return P.mk(Op::RLT, Sort::B, 1, {a, b});
}
E rLe(E a, E b) {
  if (isC(a) && isC(b)) return P.cb(*a->q <= *b->q);
  return bNot(rLt(b, a));
}
E rSqrt(E a) { return P.mk(Op::SQRT, Sort::R, 0, {a}); }
E i2r(E a, bool sgn) {
  if (a->s == Sort::B) return mkIte(a, P.cr(sgn ? -1 : 1), P.cr(0));
  if (isC(a)) {
    if (sgn) { mpz_class z; mpz_set_si(z.get_mpz_t(), sextw(a->u, a->w)); return P.cr(mpq_class(z)); }
    mpz_class z; mpz_set_ui(z.get_mpz_t(), a->u); return P.cr(mpq_class(z));
  }
  if (a->op == Op::ITE) return mkIte(a->ch[0], i2r(a->ch[1], sgn), i2r(a->ch[2], sgn));
  if (a->op == Op::ZEXT) return i2r(a->ch[0], false);
  if (a->op == Op::SEXT && sgn) return i2r(a->ch[0], true);
  return P.mk(sgn ? Op::SITOFP : Op::UITOFP, Sort::R, 0, {a});
}

const MVal &Evaluator::ev(E e) {
  auto it = memo.find(e->id);
  if (it != memo.end()) return it->second;
  MVal r;
  auto U = [&](int i) { return ev(e->ch[i]).u; };
  auto Q = [&](int i) -> mpq_class { return ev(e->ch[i]).q; };
  switch (e->op) {
  case Op::VAR: {
    auto f = m.v.find(e->id);
    if (f == m.v.end()) throw EvalFail();
    r = f->second;
    break;
  }
  case Op::CONST: r.u = e->u; if (e->q) r.q = *e->q; break;
  case Op::NOT: r.u = !U(0); break;
  case Op::AND: r.u = U(0) && U(1); break;
  case Op::OR: r.u = U(0) || U(1); break;
  case Op::EQ: if (e->ch[0]->s == Sort::R) r.u = Q(0) == Q(1); else r.u = U(0) == U(1); break;
  case Op::ITE: r = U(0) ? ev(e->ch[1]) : ev(e->ch[2]); break;
  case Op::ADD: case Op::SUB: case Op::MUL: case Op::UDIV: case Op::SDIV: case Op::UREM: case Op::SREM:
  case Op::SHL: case Op::LSHR: case Op::ASHR: case Op::BAND: case Op::BOR: case Op::BXOR: {
    E x = vBin(e->op, P.cbv(U(0), e->w), P.cbv(U(1), e->w));
    if (!isC(x)) throw EvalFail();
    r.u = x->u;
    break;
  }
  case Op::ULT: case Op::ULE: case Op::SLT: case Op::SLE:
    r.u = vCmp(e->op, P.cbv(U(0), e->ch[0]->w), P.cbv(U(1), e->ch[0]->w))->u; break;
  case Op::ZEXT: r.u = U(0); break;
  case Op::SEXT: r.u = maskw((uint64_t)sextw(U(0), e->ch[0]->w), e->w); break;
  case Op::EXTRACT: r.u = maskw(U(0) >> e->u, e->w); break;
  case Op::CONCAT: if (e->w > 64) throw EvalFail(); r.u = (U(0) << e->ch[1]->w) | U(1); break;
  case Op::RADD: r.q = Q(0) + Q(1); break;
  case Op::RSUB: r.q = Q(0) - Q(1); break;
  case Op::RMUL: r.q = Q(0) * Q(1); break;
  case Op::RDIV: { mpq_class d = Q(1); if (d == 0) throw EvalFail(); r.q = Q(0) / d; break; }
  case Op::RNEG: r.q = -Q(0); break;
  case Op::RLT: r.u = Q(0) < Q(1); break;
  case Op::RLE: r.u = Q(0) <= Q(1); break;
  case Op::SITOFP: { mpz_class z; mpz_set_si(z.get_mpz_t(), sextw(U(0), e->ch[0]->w)); r.q = mpq_class(z); break; }
  case Op::UITOFP: { mpz_class z; mpz_set_ui(z.get_mpz_t(), U(0)); r.q = mpq_class(z); break; }
  case Op::SQRT: {
    mpq_class x = Q(0);
    if (x < 0) throw EvalFail();
    mpz_class n, d;
    mpz_sqrt(n.get_mpz_t(), x.get_num().get_mpz_t());
    mpz_sqrt(d.get_mpz_t(), x.get_den().get_mpz_t());
    if (n * n != x.get_num() || d * d != x.get_den()) throw EvalFail();
    r.q = mpq_class(n) / mpq_class(d);
    break;
  }
  default: throw EvalFail();
  }
  return memo[e->id] = r;
}

z3::expr Solver::tr(E e) {
  auto it = cache.find(e->id);
  if (it != cache.end()) return it->second;
  // children first without deep recursion on long chains
  for (auto c : e->ch)
    if (!cache.count(c->id)) tr(c);
  auto A = [&](int i) { return cache.find(e->ch[i]->id)->second; };
  z3::expr r(ctx);
  switch (e->op) {
  case Op::VAR:
    if (e->s == Sort::B) r = ctx.bool_const(e->name->c_str());
    else if (e->s == Sort::V) r = ctx.bv_const(e->name->c_str(), e->w);
    else r = ctx.real_const(e->name->c_str());
    break;
  case Op::CONST:
    if (e->s == Sort::B) r = ctx.bool_val((bool)e->u);
    else if (e->s == Sort::V) r = ctx.bv_val((uint64_t)e->u, e->w);
    else r = ctx.real_val(e->q->get_str().c_str());
    break;
  case Op::NOT: r = !A(0); break;
  case Op::AND: r = A(0) && A(1); break;
  case Op::OR: r = A(0) || A(1); break;
  case Op::EQ: r = A(0) == A(1); break;
  case Op::ITE: r = z3::ite(A(0), A(1), A(2)); break;
  case Op::ADD: case Op::RADD: r = A(0) + A(1); break;
  case Op::SUB: case Op::RSUB: r = A(0) - A(1); break;
  case Op::MUL: case Op::RMUL: r = A(0) * A(1); break;
  case Op::UDIV: r = z3::udiv(A(0), A(1)); break;
  case Op::SDIV: r = A(0) / A(1); break;
  case Op::UREM: r = z3::urem(A(0), A(1)); break;
  case Op::SREM: r = z3::srem(A(0), A(1)); break;
  case Op::SHL: r = z3::shl(A(0), A(1)); break;
  case Op::LSHR: r = z3::lshr(A(0), A(1)); break;
  case Op::ASHR: r = z3::ashr(A(0), A(1)); break;
  case Op::BAND: r = A(0) & A(1); break;
  case Op::BOR: r = A(0) | A(1); break;
  case Op::BXOR: r = A(0) ^ A(1); break;
  case Op::ULT: r = z3::ult(A(0), A(1)); break;
  case Op::ULE: r = z3::ule(A(0), A(1)); break;
  case Op::SLT: r = z3::slt(A(0), A(1)); break;
  case Op::SLE: r = z3::sle(A(0), A(1)); break;
  case Op::ZEXT: r = z3::zext(A(0), e->w - e->ch[0]->w); break;
  case Op::SEXT: r = z3::sext(A(0), e->w - e->ch[0]->w); break;
  case Op::EXTRACT: r = A(0).extract(e->u + e->w - 1, e->u); break;
  case Op::CONCAT: r = z3::concat(A(0), A(1)); break;
  case Op::RDIV: r = A(0) / A(1); break;
  case Op::RNEG: r = -A(0); break;
  case Op::RLT: r = A(0) < A(1); break;
  case Op::RLE: r = A(0) <= A(1); break;
  case Op::SQRT: r = ctx.real_const(("sqrt!" + std::to_string(e->id)).c_str()); break;
  case Op::SITOFP: case Op::UITOFP: r = ctx.real_const(("i2r!" + std::to_string(e->id)).c_str()); break;
  case Op::UF: {
    auto f = ufs.find(*e->name);
    if (f == ufs.end()) {
      z3::sort_vector sv(ctx);
      for (size_t i = 0; i < e->ch.size(); i++) sv.push_back(ctx.real_sort());
      f = ufs.emplace(*e->name, ctx.function(e->name->c_str(), sv, ctx.real_sort())).first;
    }
    z3::expr_vector av(ctx);
    for (size_t i = 0; i < e->ch.size(); i++) av.push_back(A(i));
    r = f->second(av);
    break;
  }
  }
  cache.emplace(e->id, r);
  return r;
}

// range of an integer expression, from the ranges of the inputs
static bool interval(E e, mpz_class &lo, mpz_class &hi) {
  if (e->s != Sort::V) return false;
  auto full = [&]() { hi = (mpz_class(1) << (e->w - 1)) - 1; lo = -hi - 1; };
  full();
  if (isC(e)) { mpz_set_si(lo.get_mpz_t(), sextw(e->u, e->w)); hi = lo; return true; }
  mpz_class a, b, c, d, fl = lo, fh = hi;
  switch (e->op) {
  case Op::VAR: {
    auto r = varRange.find(e->id);
    if (r != varRange.end()) { mpz_set_si(lo.get_mpz_t(), r->second.first); mpz_set_si(hi.get_mpz_t(), r->second.second); }
    return true;
  }
  case Op::ADD: case Op::SUB: case Op::MUL:
    interval(e->ch[0], a, b);
    interval(e->ch[1], c, d);
    if (e->op == Op::ADD) lo = a + c, hi = b + d;
    else if (e->op == Op::SUB) lo = a - d, hi = b - c;
    else { mpz_class p[4] = {a * c, a * d, b * c, b * d}; lo = hi = p[0]; for (auto &v : p) { if (v < lo) lo = v; if (v > hi) hi = v; } }
    if (lo < fl || hi > fh) full();
    return true;
  case Op::SEXT: return interval(e->ch[0], lo, hi);
  case Op::ITE:
    interval(e->ch[1], a, b);
    interval(e->ch[2], c, d);
    lo = a < c ? a : c;
    hi = b > d ? b : d;
    return true;
  default: return true;
  }
}
// inputs that occur outside integer-to-real conversions
static void direct(E e, std::unordered_set<uint32_t> &seen, std::unordered_set<uint32_t> &out) {
  if (!seen.insert(e->id).second || e->op == Op::SITOFP || e->op == Op::UITOFP) return;
  if (e->op == Op::VAR) out.insert(e->id);
  for (auto c : e->ch) direct(c, seen, out);
}
static void collect(E e, std::unordered_set<uint32_t> &seen, std::vector<E> &special, std::vector<E> &vars) {
  if (!seen.insert(e->id).second) return;
  if (e->op == Op::VAR) vars.push_back(e);
  if (e->op == Op::SQRT || e->op == Op::SITOFP || e->op == Op::UITOFP) special.push_back(e);
  for (auto c : e->ch) collect(c, seen, special, vars);
}

Res Solver::check(const std::vector<E> &as, Model *out, unsigned tmo) {
  auto t0 = std::chrono::steady_clock::now();
  st.queries++;
  Res res = Res::UNKNOWN;
  try {
    z3::solver s(ctx);
    z3::params p(ctx);
    p.set("timeout", tmo ? tmo : timeoutMs);
    s.set(p);
    std::unordered_set<uint32_t> seen;
    std::vector<E> special, vars;
    std::unordered_set<uint32_t> dseen, dvars;
    for (auto a : as) if (!rangeFact.count(a->id)) direct(a, dseen, dvars);
    for (auto a : as) {
      collect(a, seen, special, vars);
      auto rf = rangeFact.find(a->id); // the ranges of converted integers are restated on the conversion
      if (rf != rangeFact.end() && !dvars.count(rf->second)) continue;
      s.add(tr(a));
    }
    for (auto x : special) {
      if (x->op == Op::SQRT) {
        z3::expr r = tr(x);
        s.add(r >= 0);
        s.add(r * r == tr(x->ch[0]));
      } else {
        // integer-to-real conversion: an opaque real in the integer's range
        z3::expr r = tr(x);
        unsigned w = x->ch[0]->w;
        mpz_class hi = mpz_class(1) << (x->op == Op::SITOFP ? w - 1 : w);
        s.add(r <= ctx.real_val(hi.get_str().c_str()));
        if (x->op == Op::SITOFP) s.add(r >= ctx.real_val(mpz_class(-hi).get_str().c_str())); else s.add(r >= 0);
        mpz_class lo, up;
        if (x->op == Op::SITOFP && interval(x->ch[0], lo, up)) {
          s.add(r >= ctx.real_val(lo.get_str().c_str()));
          s.add(r <= ctx.real_val(up.get_str().c_str()));
        }
      }
    }
    if (!dumpDir.empty() && dumped < dumpMax) {
      std::ofstream f(dumpDir + "/q" + std::to_string(dumped++) + ".smt2");
      f << s.to_smt2();
    }
    auto r = s.check();
    res = r == z3::sat ? Res::SAT : r == z3::unsat ? Res::UNSAT : Res::UNKNOWN;
    if (res == Res::SAT && out) {
      z3::model m = s.get_model();
      auto num = [&](const z3::expr &v) -> mpq_class {
        if (v.is_numeral()) {
          std::string str = v.to_string();
          if (v.is_algebraic()) str = v.get_decimal_string(18);
          return mpq_class(Z3_get_numeral_string(ctx, v));
        }
        std::string d = v.is_algebraic() ? v.get_decimal_string(18) : "0";
        if (!d.empty() && d.back() == '?') d.pop_back();
        return mpq_class(strtod(d.c_str(), nullptr));
      };
      for (auto x : vars) {
        MVal mv;
        z3::expr v = m.eval(tr(x), true);
        if (x->s == Sort::B) mv.u = v.is_true();
        else if (x->s == Sort::V) { uint64_t u = 0; v.is_numeral_u64(u); mv.u = u; }
        else mv.q = num(v);
        out->v[x->id] = mv;
      }
      for (auto x : special) // carry opaque conversions back to their integer variable
        if ((x->op == Op::SITOFP || x->op == Op::UITOFP) && x->ch[0]->op == Op::VAR) {
          mpq_class q = num(m.eval(tr(x), true));
          mpz_class z;
          mpz_fdiv_q(z.get_mpz_t(), q.get_num().get_mpz_t(), q.get_den().get_mpz_t());
          out->v[x->ch[0]->id].u = maskw((uint64_t)mpz_get_si(z.get_mpz_t()), x->ch[0]->w);
        }
    }
  } catch (z3::exception &ex) {
    std::cerr << "z3: " << ex.msg() << "\n";
    res = Res::UNKNOWN;
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  st.secs += dt;
  if (dt > st.maxSecs) st.maxSecs = dt;
  (res == Res::SAT ? st.sat : res == Res::UNSAT ? st.unsat : st.unknown)++;
  return res;
}

Res Solver::checkZero(E n, unsigned tmo) {
  auto t0 = std::chrono::steady_clock::now();
  st.queries++;
  Res res = Res::UNKNOWN;
  try {
    z3::params sp(ctx);
    sp.set("som", true);
    sp.set("som_blowup", 100000u);
    z3::expr e = tr(n);
    z3::solver s(ctx);
    z3::params p(ctx);
    p.set("timeout", tmo);
    s.set(p);
    z3::expr q = (e != 0);
    if (!dumpDir.empty() && dumped < dumpMax) {
      z3::solver ds(ctx);
      ds.add(q);
      std::ofstream f(dumpDir + "/q" + std::to_string(dumped++) + ".smt2");
      f << ds.to_smt2();
    }
    s.add(q.simplify(sp));
    auto r = s.check();
    res = r == z3::sat ? Res::SAT : r == z3::unsat ? Res::UNSAT : Res::UNKNOWN;
  } catch (z3::exception &ex) {
    std::cerr << "z3: " << ex.msg() << "\n";
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  st.secs += dt;
  if (dt > st.maxSecs) st.maxSecs = dt;
  (res == Res::SAT ? st.sat : res == Res::UNSAT ? st.unsat : st.unknown)++;
  return res;
}
Res Solver::checkDiffer(const std::vector<E> &as, const std::vector<std::pair<E, E>> &eqs, unsigned tmo) {
  auto t0 = std::chrono::steady_clock::now();
  st.queries++;
  Res res = Res::UNKNOWN;
  try {
    z3::solver s(ctx);
    z3::params p(ctx);
    p.set("timeout", tmo);
    s.set(p);
    z3::expr_vector any(ctx);
    std::unordered_set<uint32_t> used;
    for (auto &e : eqs) {
      any.push_back(tr(e.first) != tr(e.second));
      used.insert(e.first->vars.begin(), e.first->vars.end());
      used.insert(e.second->vars.begin(), e.second->vars.end());
    }
    for (auto a : as) {
      bool rel = false;
      for (auto v : a->vars) if (used.count(v)) { rel = true; break; }
      if (rel && a->vars.size() <= 1) s.add(tr(a)); // ranges of the inputs: keep denominators away from zero
    }
    s.add(z3::mk_or(any));
    if (!dumpDir.empty() && dumped < dumpMax) {
      std::ofstream f(dumpDir + "/q" + std::to_string(dumped++) + ".smt2");
      f << s.to_smt2();
    }
    auto r = s.check();
    res = r == z3::sat ? Res::SAT : r == z3::unsat ? Res::UNSAT : Res::UNKNOWN;
  } catch (z3::exception &ex) {
    std::cerr << "z3: " << ex.msg() << "\n";
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  st.secs += dt;
  if (dt > st.maxSecs) st.maxSecs = dt;
  (res == Res::SAT ? st.sat : res == Res::UNSAT ? st.unsat : st.unknown)++;
  return res;
}
