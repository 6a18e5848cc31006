// Calls: intrinsics, the environment model and the harness interface.
// Included inside struct Exec.
void finish(const DI &d, Val v) {
  set(d, std::move(v));
  if (auto *inv = dyn_cast<InvokeInst>(d.I)) jump(inv->getParent(), inv->getNormalDest());
  else top().ip++;
}
Val maxMin(const Val &a, const Val &b, bool mx) {
  if (a.k == UND || b.k == UND) return Val();
  auto nan = [](const Val &v) { return v.k == FLT && std::isnan(v.d); };
  if (nan(a)) return b;
  if (nan(b)) return a;
  Val c = fcmp(CmpInst::FCMP_OLT, a, b);
  return selectV(c, mx ? b : a, mx ? a : b, Type::getDoubleTy(C));
}
Val ufun(const std::string &n, const std::vector<Val> &a, double (*f1)(double), double (*f2)(double, double)) {
  bool conc = true;
  for (auto &v : a) { if (v.k == UND) return Val(); if (v.k != FLT) conc = false; }
  if (conc && f1) return vF(f1(a[0].d));
  if (conc && f2) return vF(f2(a[0].d, a[1].d));
  std::vector<E> es;
  for (auto &v : a) es.push_back(toE(v));
  if (n == "pow" && isC(es[1])) {
    mpq_class q = *es[1]->q;
    if (q.get_den() == 1 && q >= 0 && q <= 8) {
      E r = P.cr(1);
      for (int i = 0; i < q.get_num().get_si(); i++) r = rMul(r, es[0]);
      return vE(r);
    }
  }
  return vE(P.uf(n, es));
}
Val floorV(const Val &v, int mode) { // 0 floor 1 ceil 2 trunc 3 round
  if (v.k == UND) return v;
  if (v.k == FLT) return vF(mode == 0 ? std::floor(v.d) : mode == 1 ? std::ceil(v.d) : mode == 2 ? std::trunc(v.d) : std::round(v.d));
  unsup("rounding of a symbolic real");
}

bool intrinsic(DI &d, CallBase *cb, Function *F) {
  switch (F->getIntrinsicID()) {
  case Intrinsic::not_intrinsic: return false;
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
  case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::var_annotation:
    finish(d, Val()); return true;
  case Intrinsic::stacksave: case Intrinsic::invariant_start: finish(d, vP(0)); return true;
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
  case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy: case Intrinsic::ptr_annotation:
    finish(d, op(d, 0)); return true;
  case Intrinsic::is_constant: finish(d, vI(0, 1)); return true;
  case Intrinsic::objectsize: finish(d, vI(~0ull, d.ty->getIntegerBitWidth())); return true;
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
    uint64_t n = concInt(op(d, 2), "copy length");
    if (n) copyMem(concInt(op(d, 0), "address"), concInt(op(d, 1), "address"), n);
    finish(d, Val()); return true;
  }
  case Intrinsic::memset: case Intrinsic::memset_inline: {
    uint64_t n = concInt(op(d, 2), "fill length");
    if (n) setMem(concInt(op(d, 0), "address"), op(d, 1), n);
    finish(d, Val()); return true;
  }
  case Intrinsic::fabs: finish(d, fabsV(op(d, 0))); return true;
  case Intrinsic::sqrt: finish(d, sqrtV(op(d, 0))); return true;
  case Intrinsic::maxnum: case Intrinsic::maximum: finish(d, maxMin(op(d, 0), op(d, 1), true)); return true;
  case Intrinsic::minnum: case Intrinsic::minimum: finish(d, maxMin(op(d, 0), op(d, 1), false)); return true;
  case Intrinsic::fmuladd: case Intrinsic::fma: finish(d, fbin(Instruction::FAdd, fbin(Instruction::FMul, op(d, 0), op(d, 1)), op(d, 2))); return true;
  case Intrinsic::floor: finish(d, floorV(op(d, 0), 0)); return true;
  case Intrinsic::ceil: finish(d, floorV(op(d, 0), 1)); return true;
  case Intrinsic::trunc: finish(d, floorV(op(d, 0), 2)); return true;
  case Intrinsic::round: finish(d, floorV(op(d, 0), 3)); return true;
  case Intrinsic::pow: finish(d, ufun("pow", {op(d, 0), op(d, 1)}, nullptr, ::pow)); return true;
  case Intrinsic::exp: finish(d, ufun("exp", {op(d, 0)}, ::exp, nullptr)); return true;
  case Intrinsic::log: finish(d, ufun("log", {op(d, 0)}, ::log, nullptr)); return true;
  case Intrinsic::log2: finish(d, ufun("log2", {op(d, 0)}, ::log2, nullptr)); return true;
  case Intrinsic::sin: finish(d, ufun("sin", {op(d, 0)}, ::sin, nullptr)); return true;
  case Intrinsic::cos: finish(d, ufun("cos", {op(d, 0)}, ::cos, nullptr)); return true;
  case Intrinsic::powi: {
    int64_t n = sextw(concInt(op(d, 1), "exponent"), 32);
    if (n < 0 || n > 16) unsup("powi");
    Val r = vF(1);
    for (int i = 0; i < n; i++) r = fbin(Instruction::FMul, r, op(d, 0));
    finish(d, r); return true;
  }
  case Intrinsic::copysign: {
    Val m = fabsV(op(d, 0));
    const Val &sg = op(d, 1);
    if (sg.k == FLT) { finish(d, std::signbit(sg.d) ? fbin(Instruction::FSub, vF(0), m) : m); return true; }
    finish(d, selectV(fcmp(CmpInst::FCMP_OLT, sg, vF(0)), fbin(Instruction::FSub, vF(0), m), m, d.ty)); return true;
  }
  case Intrinsic::is_fpclass: {
    unsigned mask = concInt(op(d, 1), "fpclass mask");
    const Val &v = op(d, 0);
    if (v.k == UND) { finish(d, v); return true; }
    if (v.k == FLT) {
      unsigned c;
      if (std::isnan(v.d)) c = fcNan;
      else if (std::isinf(v.d)) c = v.d > 0 ? fcPosInf : fcNegInf;
      else if (v.d == 0) c = std::signbit(v.d) ? fcNegZero : fcPosZero;
      else if (std::fpclassify(v.d) == FP_SUBNORMAL) c = v.d > 0 ? fcPosSubnormal : fcNegSubnormal;
      else c = v.d > 0 ? fcPosNormal : fcNegNormal;
      finish(d, vI((mask & c) != 0, 1)); return true;
    }
    unsigned fin = mask & fcFinite;
    if (fin == 0) { finish(d, vI(0, 1)); return true; }
    if (fin == fcFinite) { finish(d, vI(1, 1)); return true; }
    unsup("is.fpclass on a symbol");
  }
  case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: {
    unsigned w = d.ty->getIntegerBitWidth();
    auto id = F->getIntrinsicID();
    auto p = id == Intrinsic::umax ? CmpInst::ICMP_UGT : id == Intrinsic::umin ? CmpInst::ICMP_ULT : id == Intrinsic::smax ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT;
    Val c = icmp(p, op(d, 0), op(d, 1), w);
    if (c.k == UND) { finish(d, Val()); return true; }
    finish(d, selectV(c, op(d, 0), op(d, 1), d.ty)); return true;
  }
  case Intrinsic::abs: {
    unsigned w = d.ty->getIntegerBitWidth();
    Val z = vI(0, w), a = op(d, 0);
    Val c = icmp(CmpInst::ICMP_SLT, a, z, w);
    if (c.k == UND) { finish(d, Val()); return true; }
    finish(d, selectV(c, ibin(Instruction::Sub, z, a, w), a, d.ty)); return true;
  }
  case Intrinsic::usub_sat: {
    unsigned w = d.ty->getIntegerBitWidth();
    Val c = icmp(CmpInst::ICMP_ULT, op(d, 0), op(d, 1), w);
    finish(d, selectV(c, vI(0, w), ibin(Instruction::Sub, op(d, 0), op(d, 1), w), d.ty)); return true;
  }
  case Intrinsic::uadd_sat: {
    unsigned w = d.ty->getIntegerBitWidth();
    Val r = ibin(Instruction::Add, op(d, 0), op(d, 1), w);
    Val c = icmp(CmpInst::ICMP_ULT, r, op(d, 0), w);
    finish(d, selectV(c, vI(~0ull, w), r, d.ty)); return true;
  }
  case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow:
  case Intrinsic::smul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
    unsigned w = d.ty->getStructElementType(0)->getIntegerBitWidth();
    uint64_t x = concInt(op(d, 0), "operand"), y = concInt(op(d, 1), "operand");
    Val v = vAgg(2);
    auto id = F->getIntrinsicID();
    __int128 r;
    bool ov;
    if (id == Intrinsic::umul_with_overflow || id == Intrinsic::uadd_with_overflow || id == Intrinsic::usub_with_overflow) {
      unsigned __int128 a = x, b = y, q = id == Intrinsic::umul_with_overflow ? a * b : id == Intrinsic::uadd_with_overflow ? a + b : a - b;
      ov = q >> w;
      r = q;
    } else {
      __int128 a = sextw(x, w), b = sextw(y, w);
      r = id == Intrinsic::smul_with_overflow ? a * b : id == Intrinsic::sadd_with_overflow ? a + b : a - b;
      ov = r != (__int128)sextw((uint64_t)r, w);
    }
    (*v.a)[0] = vI((uint64_t)r, w);
    (*v.a)[1] = vI(ov, 1);
    finish(d, v); return true;
  }
  case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: {
    unsigned w = d.ty->getIntegerBitWidth();
    uint64_t x = concInt(op(d, 0), "operand");
    uint64_t r;
    if (F->getIntrinsicID() == Intrinsic::ctpop) r = __builtin_popcountll(x);
    else if (F->getIntrinsicID() == Intrinsic::cttz) r = x ? __builtin_ctzll(x) : w;
    else r = x ? __builtin_clzll(x) - (64 - w) : w;
    finish(d, vI(r, w)); return true;
  }
  case Intrinsic::bswap: {
    unsigned w = d.ty->getIntegerBitWidth();
    uint64_t x = concInt(op(d, 0), "operand");
    finish(d, vI(__builtin_bswap64(x) >> (64 - w), w)); return true;
  }
  case Intrinsic::fshl: case Intrinsic::fshr: {
    unsigned w = d.ty->getIntegerBitWidth();
    uint64_t a = concInt(op(d, 0), "op"), b = concInt(op(d, 1), "op"), n = concInt(op(d, 2), "op") % w;
    if (F->getIntrinsicID() == Intrinsic::fshl) finish(d, vI(n ? (a << n) | (b >> (w - n)) : a, w));
    else finish(d, vI(n ? (a << (w - n)) | (b >> n) : b, w));
    return true;
  }
  case Intrinsic::eh_typeid_for: finish(d, vI(typeId(concInt(op(d, 0), "typeinfo")), 32)); return true;
  case Intrinsic::trap: throw Violation{"ub", "trap executed"};
  default: unsup("intrinsic " + F->getName().str());
  }
}

double defaultValue(const std::string &n, double lo, double hi) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : n) h = (h ^ c) * 1099511628211ull;
  h ^= h >> 29;
  h *= 0xbf58476d1ce4e5b9ull;
  h ^= h >> 32;
  double t = (double)(h % 61 + 2) / 64.0;
  double v = lo + (hi - lo) * t;
  if (hi - lo > 1e-3) v = std::round(v * 1024) / 1024;
  if (v < lo) v = lo;
  if (v > hi) v = hi;
  return v;
}
std::string uniq(std::string n) {
  std::string b = n;
  for (int i = 2; s->inputNames.count(n); i++) n = b + "#" + std::to_string(i);
  s->inputNames.insert(n);
  return n;
}
std::string numText(const Val &v, bool fp, bool sgn) {
  if (v.k == UND || v.k == BLOB) throw Violation{"uninitialised", "indeterminate value written to a stream"};
  if (v.k == SYM) return "<sym" + std::to_string(v.e->id) + ">";
  if (fp) { char b[64]; snprintf(b, 64, "%g", v.d); return b; }
  return sgn ? std::to_string(sextw(v.u, v.w)) : std::to_string(v.u);
}
// a floating point number written to a string stream, with the format in force
std::string realText(uint64_t os, const Val &v) {
  auto it = s->formats.find(os);
  if (it == s->formats.end()) return numText(v, true, true);
  Val p = load(Type::getInt64Ty(C), it->second + 8), f = load(Type::getInt32Ty(C), it->second + 24);
  if (p.k != INT || f.k != INT) return numText(v, true, true);
  bool fixed = (f.u & 0x104) == 4;
  if (v.k == SYM) return fixed ? "<sym" + std::to_string(v.e->id) + ":" + std::to_string(p.u) + ">" : numText(v, true, true);
  if (v.k != FLT) return numText(v, true, true);
  char b[400];
  snprintf(b, 400, fixed ? "%.*f" : "%.*g", (int)p.u, v.d);
  return b;
}
std::string bytesAt(uint64_t p, uint64_t n) {
  std::string t;
  for (uint64_t i = 0; i < n; i++) {
    Val v = load(Type::getInt8Ty(C), p + i);
    if (v.k == UND) throw Violation{"uninitialised", "indeterminate byte written to a stream"};
    t += v.k == INT ? (char)v.u : '?';
  }
  return t;
}

// an input may be declared with another range on another path
void declareRange(E v, int64_t lo, int64_t hi, E f1, E f2) {
  auto it = varRange.find(v->id);
  if (it == varRange.end()) {
    varRange[v->id] = {lo, hi};
    rangeFact[f1->id] = rangeFact[f2->id] = v->id;
  } else if (it->second != std::make_pair(lo, hi)) {
    it->second = {std::min(lo, it->second.first), std::max(hi, it->second.second)};
    for (auto k = rangeFact.begin(); k != rangeFact.end();) if (k->second == v->id) k = rangeFact.erase(k); else ++k;
  }
}
void external(DI &d, CallBase *cb, Function *F) {
  std::string n = F->getName().str();
  auto I = [&](unsigned i, const char *w = "argument") { return concInt(op(d, i), w); };
  auto is = [&](const char *p) { return n.compare(0, strlen(p), p) == 0; };
  // ---- harness interface
  if (is("sx_")) {
    if (n == "sx_double") {
      std::string nm = uniq(cstr(I(0)));
      Val lo = op(d, 1), hi = op(d, 2);
      if (lo.k != FLT || hi.k != FLT) unsup("sx_double bounds");
      E v = P.var(nm, Sort::R, 0);
      if (!s->mm->m.v.count(v->id)) { MVal m; m.q = d2q(defaultValue(nm, lo.d, hi.d)); s->mm->m.v[v->id] = m; }
      s->inputs.push_back(v);
      s->pc.push_back(rLe(P.cr(d2q(lo.d)), v));
      s->pc.push_back(rLe(v, P.cr(d2q(hi.d))));
      if (lo.d > 0 || hi.d < 0) nz.insert(v->id);
      finish(d, vE(v)); return;
    }
    if (n == "sx_int") {
      std::string nm = uniq(cstr(I(0)));
      int64_t lo = sextw(I(1), 32), hi = sextw(I(2), 32);
      E v = P.var(nm, Sort::V, 32);
      if (!s->mm->m.v.count(v->id)) { MVal m; m.u = maskw((uint64_t)lo, 32); s->mm->m.v[v->id] = m; }
      s->inputs.push_back(v);
      s->pc.push_back(vCmp(Op::SLE, P.cbv(lo, 32), v));
      s->pc.push_back(vCmp(Op::SLE, v, P.cbv(hi, 32)));
      declareRange(v, lo, hi, s->pc[s->pc.size() - 1], s->pc[s->pc.size() - 2]);
      finish(d, vE(v)); return;
    }
    if (n == "sx_long") {
      std::string nm = uniq(cstr(I(0)));
      int64_t lo = (int64_t)I(1), hi = (int64_t)I(2);
      E v = P.var(nm, Sort::V, 64);
      if (!s->mm->m.v.count(v->id)) { MVal m; m.u = (uint64_t)lo; s->mm->m.v[v->id] = m; }
      s->inputs.push_back(v);
      s->pc.push_back(vCmp(Op::SLE, P.cbv((uint64_t)lo, 64), v));
      s->pc.push_back(vCmp(Op::SLE, v, P.cbv((uint64_t)hi, 64)));
      declareRange(v, lo, hi, s->pc[s->pc.size() - 1], s->pc[s->pc.size() - 2]);
      finish(d, vE(v)); return;
    }
    if (n == "sx_bool") {
      std::string nm = uniq(cstr(I(0)));
      E v = P.var(nm, Sort::B, 1);
      if (!s->mm->m.v.count(v->id)) s->mm->m.v[v->id] = MVal();
      s->inputs.push_back(v);
      finish(d, vE(mkIte(v, P.cbv(1, 32), P.cbv(0, 32)))); return;
    }
    if (n == "sx_pick") { finish(d, vI(I(0, "picked value"), 32)); return; }
    if (n == "sx_assume") {
      const Val &c = op(d, 0);
      if (c.k == INT) { if (!c.u) throw PathEnd{1}; finish(d, Val()); return; }
      if (c.k != SYM) throw Violation{"uninitialised", "assumption on an indeterminate value"};
      E e = c.e->s == Sort::B ? c.e : bNot(mkEq(c.e, P.cbv(0, c.e->w)));
      if (isC(e)) { if (!e->u) throw PathEnd{1}; finish(d, Val()); return; }
      if (evalB(*s, e) != 1) {
        Model m;
        Res r = query(*s, e, &m);
        if (r == Res::UNSAT) throw PathEnd{1};
        s->pc.push_back(e);
        if (r == Res::SAT) { s->mm = overlay(*s, m); s->stale = !pcHolds(*s); } else s->stale = true;
      } else s->pc.push_back(e);
      finish(d, Val()); return;
    }
    if (n == "sx_check") {
      std::string tag = cstr(I(1));
      if (skipTag(tag)) { finish(d, Val()); return; }
      const Val &c = op(d, 0);
      if (c.k == UND || c.k == BLOB) { bump(tag); throw Violation{"uninitialised", "checked condition is indeterminate: " + tag}; }
      E e = c.k == INT ? P.cb(c.u != 0) : c.e->s == Sort::B ? c.e : bNot(mkEq(c.e, P.cbv(0, c.e->w)));
      if (e->op == Op::NOT || !isC(e)) { auto k = s->known.find(e->id); if (k != s->known.end()) e = P.cb(k->second); }
      checkCond(e, tag);
      finish(d, Val()); return;
    }
    if (n == "sx_check_near") { std::string tag = cstr(I(3)); if (!skipTag(tag)) checkNear(op(d, 0), op(d, 1), op(d, 2).k == FLT ? op(d, 2).d : 0, tag); finish(d, Val()); return; }
    if (n == "sx_check_eq") { std::string tag = cstr(I(2)); if (!skipTag(tag)) checkNear(op(d, 0), op(d, 1), 0, tag); finish(d, Val()); return; }
    if (n == "sx_cover") { st.covers.insert(cstr(I(0))); finish(d, Val()); return; }
    if (n == "sx_live_heap") { finish(d, vI((uint64_t)s->liveHeap, 32)); return; }
    if (n == "sx_is_live") { finish(d, vI(findObj(I(0)) != nullptr, 32)); return; }
    if (n == "sx_end") { throw PathEnd{0}; }
    if (n == "sx_text") {
      std::string t = s->streams[I(0)];
      auto o = mkObj(*s, t.size() + 1, STACK, "stream text");
      writeBytes(o->base, t.c_str(), t.size() + 1);
      finish(d, vP(o->base)); return;
    }
    if (n == "sx_printed") { // the i-th number written to a string stream
      std::string x = s->streams[I(0)];
      uint64_t i = I(1);
      int dec = -2;
      Val v = vF(0);
      for (size_t at = 0; (at = x.find(": ", at)) != x.npos;) {
        at += 2;
        if (i-- > 0) continue;
        if (x.compare(at, 4, "<sym") == 0) {
          char *e;
          v = vE(P.byId[strtoul(x.c_str() + at + 4, &e, 10)]);
          dec = *e == ':' ? atoi(e + 1) : v.e->s == Sort::V ? 0 : -1;
          if (v.e->s == Sort::V) unsup("a symbolic integer looked up in a text");
        } else {
          size_t e = at;
          while (e < x.size() && (isdigit((unsigned char)x[e]) || strchr("+-.e", x[e]))) e++;
          size_t p = x.find('.', at);
          dec = p < e ? (int)(e - p - 1) : 0;
          v = vF(atof(x.c_str() + at));
        }
        break;
      }
      writeBytes(I(2), (uint8_t *)&dec, 4);
      finish(d, v); return;
    }
    if (n == "sx_uf") { // value of an unknown function, the same for the same arguments
      std::string nm = cstr(I(0));
      uint64_t a = I(1), k = I(2);
      std::vector<E> es;
      for (uint64_t i = 0; i < k; i++) {
        Val v = load(Type::getDoubleTy(C), a + 8 * i);
        if (v.k == UND || v.k == BLOB) throw Violation{"uninitialised", "indeterminate value passed to a user function"};
        if (!finite(v)) unsup("non finite argument of an unknown function");
        es.push_back(toE(v));
      }
      finish(d, vE(P.uf(nm, es))); return;
    }
    if (n == "sx_print") { if (verbose) { const Val &v = op(d, 1); std::cerr << cstr(I(0)) << " = " << (v.k == FLT ? std::to_string(v.d) : v.k == SYM ? "expr" + std::to_string(v.e->id) : "?") << "\n"; } finish(d, Val()); return; }
    unsup("harness function " + n);
  }
  // ---- memory
  if (n == "_Znwm" || n == "_ZnwmRKSt9nothrow_t") { finish(d, vP(heapAlloc(I(0, "allocation size"), HEAP_NEW))); return; }
  if (n == "_Znam" || n == "_ZnamRKSt9nothrow_t") { finish(d, vP(heapAlloc(I(0, "allocation size"), HEAP_NEWA))); return; }
  if (n == "_ZnwmSt11align_val_t") { finish(d, vP(heapAlloc(I(0, "allocation size"), HEAP_NEW))); return; }
  if (n == "_ZdlPv" || n == "_ZdlPvm" || n == "_ZdlPvSt11align_val_t" || n == "_ZdlPvmSt11align_val_t" || n == "_ZdlPvRKSt9nothrow_t") { heapFree(I(0, "pointer to free"), HEAP_NEW); finish(d, Val()); return; }
  if (n == "_ZdaPv" || n == "_ZdaPvm") { heapFree(I(0, "pointer to free"), HEAP_NEWA); finish(d, Val()); return; }
  if (n == "malloc") {
    uint64_t z = I(0, "allocation size");
    if (z > (1ull << 32)) { finish(d, vP(0)); return; }
    finish(d, vP(heapAlloc(z, HEAP_MALLOC))); return;
  }
  if (n == "aligned_alloc") { finish(d, vP(heapAlloc(I(1, "allocation size"), HEAP_MALLOC))); return; }
  if (n == "calloc") { uint64_t z = I(0) * I(1); uint64_t a = heapAlloc(z, HEAP_MALLOC); setMem(a, vI(0, 8), z); finish(d, vP(a)); return; }
  if (n == "free") { heapFree(I(0, "pointer to free"), HEAP_MALLOC); finish(d, Val()); return; }
  if (n == "realloc") {
    uint64_t p = I(0), z = I(1, "allocation size");
    uint64_t a = heapAlloc(z, HEAP_MALLOC);
    if (p) {
      ObjP *o = findObj(p);
      if (!o || (*o)->base != p) throw Violation{"memory", "realloc of a dead or invalid pointer"};
      copyMem(a, p, std::min<uint64_t>(z, (*o)->size));
      heapFree(p, HEAP_MALLOC);
    }
    finish(d, vP(a)); return;
  }
  if (n == "memcpy" || n == "memmove") { uint64_t z = I(2); if (z) copyMem(I(0), I(1), z); finish(d, vP(I(0))); return; }
  if (n == "memset") { uint64_t z = I(2); Val b = op(d, 1); if (b.k == INT) b = vI(b.u, 8); if (z) setMem(I(0), b, z); finish(d, vP(I(0))); return; }
  if (n == "strlen") { finish(d, vI(cstr(I(0)).size(), 64)); return; }
  if (n == "strcmp") { int r = strcmp(cstr(I(0)).c_str(), cstr(I(1)).c_str()); finish(d, vI((uint64_t)(int64_t)(r < 0 ? -1 : r > 0), 32)); return; }
  if (n == "memcmp" || n == "bcmp") {
    std::string a = bytesAt(I(0), I(2)), b = bytesAt(I(1), I(2));
    int r = a.compare(b);
    finish(d, vI((uint64_t)(int64_t)(r < 0 ? -1 : r > 0), 32)); return;
  }
  if (n == "memchr") {
    uint64_t p = I(0), z = I(2), r = 0;
    std::string a = bytesAt(p, z);
    auto k = a.find((char)I(1));
    if (k != std::string::npos) r = p + k;
    finish(d, vP(r)); return;
  }
  // ---- maths
  if (n == "sqrt") { finish(d, sqrtV(op(d, 0))); return; }
  if (n == "fabs") { finish(d, fabsV(op(d, 0))); return; }
  if (n == "fmax") { finish(d, maxMin(op(d, 0), op(d, 1), true)); return; }
  if (n == "fmin") { finish(d, maxMin(op(d, 0), op(d, 1), false)); return; }
  if (n == "pow") { finish(d, ufun("pow", {op(d, 0), op(d, 1)}, nullptr, ::pow)); return; }
  if (n == "exp") { finish(d, ufun("exp", {op(d, 0)}, ::exp, nullptr)); return; }
  if (n == "log") { finish(d, ufun("log", {op(d, 0)}, ::log, nullptr)); return; }
  if (n == "log2") { finish(d, ufun("log2", {op(d, 0)}, ::log2, nullptr)); return; }
  if (n == "sin") { finish(d, ufun("sin", {op(d, 0)}, ::sin, nullptr)); return; }
  if (n == "cos") { finish(d, ufun("cos", {op(d, 0)}, ::cos, nullptr)); return; }
  if (n == "floor") { finish(d, floorV(op(d, 0), 0)); return; }
  if (n == "ceil") { finish(d, floorV(op(d, 0), 1)); return; }
  if (n == "abs") { Val z = vI(0, 32), a = op(d, 0); finish(d, selectV(icmp(CmpInst::ICMP_SLT, a, z, 32), ibin(Instruction::Sub, z, a, 32), a, d.ty)); return; }
  // ---- process
  if (n == "__assert_fail") throw Violation{"assertion", cstr(I(0)).substr(0, 200)};
  if (n == "_ZSt9terminatev" || n == "abort") throw Violation{"exception", "the program terminates (std::terminate/abort)"};
  if (n == "exit" || n == "_exit") throw Violation{"exit", "the program exits"};
  if (n == "__cxa_pure_virtual") throw Violation{"memory", "pure virtual call"};
  if (n == "__cxa_atexit") { s->atexit.push_back({I(0), I(1)}); finish(d, vI(0, 32)); return; }
  if (n == "__cxa_thread_atexit") { finish(d, vI(0, 32)); return; }
  // ---- exceptions
  if (n == "__cxa_allocate_exception") { auto o = mkObj(*s, I(0), STACK, "exception object"); finish(d, vP(o->base)); return; }
  if (n == "__cxa_free_exception") { s->mem.erase(I(0)); finish(d, Val()); return; }
  if (n == "__cxa_throw") {
    Exc e;
    e.obj = I(0); e.ti = I(1); e.dtor = I(2);
    s->exc[e.obj] = e;
    doThrow(e.obj);
    return;
  }
  if (n == "__cxa_begin_catch") { uint64_t o = I(0); s->caught.push_back(o); auto &e = s->exc[o]; e.handlers = std::abs(e.handlers) % 1000 + 1; finish(d, vP(o)); return; }
  if (n == "__cxa_get_exception_ptr") { finish(d, op(d, 0)); return; }
  if (n == "__cxa_end_catch") {
    if (s->caught.empty()) { finish(d, Val()); return; }
    uint64_t o = s->caught.back();
    s->caught.pop_back();
    auto &e = s->exc[o];
    bool rethrown = e.handlers >= 1000;
    e.handlers -= 1;
    if (!rethrown && e.handlers <= 0 && e.dtor) {
      uint64_t dt = e.dtor;
      e.dtor = 0;
      auto it = faddr.find(dt);
      if (it != faddr.end() && !it->second->isDeclaration()) { pushFrame(it->second, {vP(o)}, top().ip); return; }
    }
    finish(d, Val()); return;
  }
  if (n == "__cxa_rethrow") {
    if (s->caught.empty()) throw Violation{"exception", "rethrow without an active exception"};
    uint64_t o = s->caught.back();
    s->exc[o].handlers += 1000;
    doThrow(o);
    return;
  }
  if (n == "__dynamic_cast") {
    uint64_t p = I(0), dst = I(2);
    uint64_t vt = concInt(load(PointerType::get(C, 0), p), "vtable pointer");
    int64_t ott = (int64_t)concInt(load(Type::getInt64Ty(C), vt - 16), "offset to top");
    uint64_t ti = concInt(load(PointerType::get(C, 0), vt - 8), "typeinfo");
    int64_t off = 0;
    if (isSub(ti, dst, &off)) finish(d, vP(p + ott + off)); else finish(d, vP(0));
    return;
  }
  if (n == "__cxa_bad_cast") throw Violation{"exception", "bad dynamic_cast"};
  // ---- streams
  if (n.find("12print_matrix") != std::string::npos) { s->streams[I(0)] += "<matrix>"; finish(d, op(d, 0)); return; }
  if (n == "_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l") { s->streams[I(0)] += bytesAt(I(1), I(2)); finish(d, op(d, 0)); return; }
  if (n == "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc") { s->streams[I(0)] += cstr(I(1)); finish(d, op(d, 0)); return; }
  if (n == "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c" || n == "_ZNSo3putEc") { s->streams[I(0)] += op(d, 1).k == INT ? std::string(1, (char)op(d, 1).u) : numText(op(d, 1), false, true); finish(d, op(d, 0)); return; }
  if (n == "_ZNSo9_M_insertIdEERSoT_" || n == "_ZNSolsEd") { s->streams[I(0)] += realText(I(0), op(d, 1)); finish(d, op(d, 0)); return; }
  if (n == "_ZNSolsEi" || n == "_ZNSo9_M_insertIlEERSoT_" || n == "_ZNSolsEl" || n == "_ZNSo9_M_insertIxEERSoT_") { s->streams[I(0)] += numText(op(d, 1), false, true); finish(d, op(d, 0)); return; }
  if (n == "_ZNSolsEj" || n == "_ZNSo9_M_insertImEERSoT_" || n == "_ZNSolsEm" || n == "_ZNSo9_M_insertIyEERSoT_") { s->streams[I(0)] += numText(op(d, 1), false, false); finish(d, op(d, 0)); return; }
  if (n == "_ZNSo9_M_insertIbEERSoT_" || n == "_ZNSolsEb") { s->streams[I(0)] += numText(op(d, 1), false, false); finish(d, op(d, 0)); return; }
  if (n == "_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE") {
    uint64_t a = I(1), p = concInt(load(PointerType::get(C, 0), a), "string"), z = concInt(load(Type::getInt64Ty(C), a + 8), "string length");
    s->streams[I(0)] += bytesAt(p, z);
    finish(d, op(d, 0)); return;
  }
  if (n == "_ZNSolsEPFRSoS_E") { // os << manipulator
    auto it = faddr.find(I(1));
    if (it == faddr.end()) throw Violation{"memory", "invalid stream manipulator"};
    if (it->second->getName().contains("endl")) s->streams[I(0)] += "\n";
    finish(d, op(d, 0)); return;
  }
  if (n == "_ZNSolsEPFRSt8ios_baseS0_E" && s->formats.count(I(0))) { // os << std::fixed and the like
    auto it = faddr.find(I(1));
    if (it == faddr.end()) throw Violation{"memory", "invalid stream manipulator"};
    std::string m = it->second->getName().str();
    Val f = load(Type::getInt32Ty(C), s->formats[I(0)] + 24);
    if (f.k == INT) {
      uint32_t v = (uint32_t)f.u;
      if (m.find("5fixed") != m.npos) v = (v & ~0x104u) | 4;
      else if (m.find("10scientific") != m.npos) v = (v & ~0x104u) | 0x100;
      else if (m.find("12defaultfloat") != m.npos) v &= ~0x104u;
      else unsup("stream manipulator " + m);
      writeBytes(s->formats[I(0)] + 24, (uint8_t *)&v, 4);
    }
    finish(d, op(d, 0)); return;
  }
  if (n == "_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St13_Setprecision" && s->formats.count(I(0))) {
    uint64_t v = (uint64_t)(int64_t)(int32_t)I(1);
    writeBytes(s->formats[I(0)] + 8, (uint8_t *)&v, 8);
    finish(d, op(d, 0)); return;
  }
  if (n == "_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_") { s->streams[I(0)] += "\n"; finish(d, op(d, 0)); return; }
  {
    std::string dm = demangle(n);
    static const char *words[] = {"ostream", "istream", "iostream", "stringstream", "stringbuf", "streambuf", "ios_base", "basic_ios", "locale", "ctype", "endl", "flush"};
    bool io = false;
    if (dm.compare(0, 5, "std::") == 0) for (auto w : words) if (dm.find(w) != std::string::npos) io = true;
    if (io) {
      st.ignoredExt.insert(dm.substr(0, 120));
      if (dm.find("stringstream::") != std::string::npos || dm.find("stringstream<") != std::string::npos) {
        bool dtor = dm.find('~') != std::string::npos;
        std::string last = dm;
        auto p = last.find('(');
        if (p != std::string::npos) last = last.substr(0, p);
        auto q = last.rfind("::");
        bool ctor = !dtor && q != std::string::npos && last.find("basic_", q) != std::string::npos;
        if (ctor) {
          uint64_t a = I(0);
          ObjP *o = findObj(a);
          if (!o) throw Violation{"memory", "stream constructed in dead memory"};
          uint64_t nb = std::min<uint64_t>((*o)->base + (*o)->size - a, 400);
          setMem(a, vI(0, 8), nb);
          uint64_t opq = opaqueVt();
          uint8_t b[8];
          memcpy(b, &opq, 8);
          writeBytes(a, b, 8);
          if (nb >= 24) writeBytes(a + 16, b, 8);
          s->streams[a] = s->streams[a + 16] = "";
          if (nb >= 160) { // default format, kept where the compiler lays out the ios part
            bool out = dm.find("ostringstream") != std::string::npos;
            uint64_t vt = streamVt(), os = a + (out ? 0 : 16), ios = os + 112, prec = 6, v = vt + 1024;
            uint32_t fl = 0x1002;
            writeBytes(os, (uint8_t *)&v, 8); // offset of the ios part: 112
            if (!out) { v = vt + 3072; writeBytes(a, (uint8_t *)&v, 8); } // 128
            writeBytes(ios, b, 8);
            writeBytes(ios + 8, (uint8_t *)&prec, 8);
            writeBytes(ios + 24, (uint8_t *)&fl, 4);
            s->formats[os] = ios;
          }
          finish(d, Val()); return;
        }
      }
      if (dm.find("::str() const") != std::string::npos && cb->arg_size() == 2) { // returns a std::string
        uint64_t r = I(0);
        std::string t = s->streams[I(1)];
        if (t.empty()) t = s->streams[I(1) + 16];
        uint64_t buf = r + 16;
        if (t.size() > 15) buf = heapAlloc(t.size() + 1, HEAP_NEW);
        uint64_t len = t.size();
        writeBytes(r, &buf, 8);
        writeBytes(r + 8, &len, 8);
        writeBytes(buf, t.c_str(), t.size() + 1);
        finish(d, Val()); return;
      }
      if (d.ty->isVoidTy()) finish(d, Val());
      else if (d.ty->isPointerTy()) finish(d, cb->arg_size() ? op(d, 0) : vP(0));
      else if (d.ty->isIntegerTy()) finish(d, vI(0, d.ty->getIntegerBitWidth()));
      else unsup("stream function " + dm);
      return;
    }
  }
  if (n == "puts" || n == "printf" || n == "putchar" || n == "fputs" || n == "fwrite" || n == "fprintf" || n == "fflush") { finish(d, d.ty->isVoidTy() ? Val() : vI(0, d.ty->getIntegerBitWidth())); return; }
  unsup("external function " + demangle(n));
}
uint64_t opaqueAddr = 0;
uint64_t streamVt() {
  for (auto &p : s->mem) if (p.second->kind == OPAQUE && p.second->name == "text stream vtable") return p.second->base;
  auto o = mkObj(*s, 4096, OPAQUE, "text stream vtable");
  memset(o->tag.data(), 1, 4096);
  o->data[1024 - 24] = 112;
  o->data[3072 - 24] = 128;
  return o->base;
}
uint64_t opaqueVt() {
  for (auto &p : s->mem) if (p.second->kind == OPAQUE) return p.second->base + 2048;
  auto o = mkObj(*s, 4096, OPAQUE, "stream vtable");
  memset(o->tag.data(), 1, 4096);
  return o->base + 2048;
}

void call(DI &d) {
  auto *cb = cast<CallBase>(d.I);
  if (cb->isInlineAsm()) { finish(d, Val()); return; }
  Function *F = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
  if (!F) {
    uint64_t a;
    if (auto *al = dyn_cast<GlobalAlias>(cb->getCalledOperand())) F = dyn_cast<Function>(al->getAliasee()->stripPointerCasts());
    if (!F) {
      a = concInt(op(d, cb->getNumOperands() - 1), "call target");
      auto it = faddr.find(a);
      if (it == faddr.end()) throw Violation{"memory", a == 0 ? "call through a null pointer" : "call through an invalid pointer"};
      F = it->second;
    }
  }
  if (F->isIntrinsic()) { if (intrinsic(d, cb, F)) return; }
  if (F->isDeclaration()) { external(d, cb, F); return; }
  if (F->getName().find("N5Eigen8internal12print_matrix") != StringRef::npos) {
    s->streams[concInt(op(d, 0), "stream")] += "<matrix>";
    finish(d, op(d, 0));
    return;
  }
  std::vector<Val> args(cb->arg_size());
  std::vector<uint64_t> copies;
  for (unsigned i = 0; i < cb->arg_size(); i++) args[i] = op(d, i);
  for (unsigned i = 0; i < cb->arg_size(); i++)
    if (cb->isByValArgument(i)) {
      uint64_t a = concInt(args[i], "argument"), z = DL->getTypeAllocSize(cb->getParamByValType(i));
      auto o = mkObj(*s, z, STACK, "argument copy");
      copyMem(o->base, a, z);
      args[i] = vP(o->base);
      copies.push_back(o->base);
    }
  pushFrame(F, args, top().ip);
  for (auto c : copies) top().allocas.push_back(c);
}
