// Symbolic executor for LLVM IR: executes sx_main() of a harness over symbolic
// inputs, forking at every feasible branch, deciding assertions with Z3.
#include "expr.h"
#include <regex>
#include <llvm/Analysis/AliasAnalysis.h>
#include <llvm/Analysis/CGSCCPassManager.h>
#include <llvm/Analysis/LoopAnalysisManager.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/PassManager.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <algorithm>
#include <cxxabi.h>
#include <unistd.h>
#include <limits>

using namespace llvm;

// ------------------------------------------------------------------ values
enum K : uint8_t { UND, INT, FLT, SYM, AGG, BLOB };
struct Val {
  K k = UND;
  uint8_t w = 0;
  union { uint64_t u; double d; E e; };
  std::shared_ptr<std::vector<Val>> a;
  Val() : u(0) {}
};
static Val vI(uint64_t u, unsigned w) { Val v; v.k = INT; v.w = w; v.u = maskw(u, w); return v; }
static Val vP(uint64_t u) { return vI(u, 64); }
static Val vF(double d) { Val v; v.k = FLT; v.d = d; return v; }
static Val vE(E e) {
  Val v;
  if (isC(e)) {
    if (e->s == Sort::B) return vI(e->u, 1);
    if (e->s == Sort::V) return vI(e->u, e->w);
    double d;
    if (q2d(*e->q, d)) return vF(d);
  }
  v.k = SYM; v.e = e; v.w = e->s == Sort::V ? e->w : e->s == Sort::B ? 1 : 0;
  return v;
}
static Val vAgg(size_t n) { Val v; v.k = AGG; v.a = std::make_shared<std::vector<Val>>(n); return v; }

struct Unsupported { std::string what; };
[[noreturn]] static void unsup(const std::string &s) { throw Unsupported{s}; }
struct PathEnd { int kind; }; // 0 finished, 1 killed (assume false / after violation)
struct Violation { std::string kind, msg; };
struct Retry {};

static E toE(const Val &v) {
  switch (v.k) {
  case INT: return v.w == 1 ? P.cb(v.u) : P.cbv(v.u, v.w);
  case FLT: if (!std::isfinite(v.d)) unsup("toE of non-finite"); return P.cr(d2q(v.d));
  case SYM: return v.e;
  default: unsup("toE of kind " + std::to_string(v.k));
  }
}
static bool finite(const Val &v) { return v.k == SYM || (v.k == FLT && std::isfinite(v.d)); }

// ------------------------------------------------------------------ memory
enum OK_ : uint8_t { HEAP_MALLOC, HEAP_NEW, HEAP_NEWA, STACK, GLOBAL, RODATA, OPAQUE };
struct Obj {
  uint64_t base = 0, size = 0;
  OK_ kind = STACK;
  std::vector<uint8_t> data, tag; // tag: 0 uninit 1 concrete 2 sym start 3 sym cont
  std::map<uint32_t, std::pair<E, uint32_t>> sym;
  std::string name;
};
using ObjP = std::shared_ptr<Obj>;

struct MM {
  Model m;
  std::unique_ptr<Evaluator> ev;
  MM() { ev.reset(new Evaluator(m)); }
};

struct OpRef { int slot = -1; Val c; };
struct DI {
  Instruction *I = nullptr;
  unsigned opc = 0;
  int dst = -1;
  std::vector<OpRef> ops;
  Type *ty = nullptr;
  int bb0 = -1, bb1 = -1;
  struct Loc { const DISubprogram *sp; int line; };
  bool covered = false;
};
struct DF {
  Function *F;
  std::vector<DI> code;
  std::unordered_map<const BasicBlock *, int> bb;
  std::vector<const BasicBlock *> bbOf;
  int nregs = 0;
};
struct Frame {
  DF *f;
  int ip;
  const BasicBlock *prev = nullptr;
  std::vector<Val> r;
  std::vector<uint64_t> allocas;
  int callIp = -1; // in the caller
  std::vector<Val> varargs;
};

struct Exc { uint64_t obj; uint64_t ti; uint64_t dtor; int handlers = 0; };

struct State {
  std::vector<Frame> st;
  std::map<uint64_t, ObjP> mem;
  uint64_t nextAddr = 0;
  std::vector<E> pc;
  std::unordered_map<uint32_t, bool> known;
  std::shared_ptr<MM> mm;
  bool stale = false;
  std::vector<uint64_t> caught;
  std::map<uint64_t, Exc> exc;
  uint64_t curExc = 0;
  bool unwinding = false;
  std::map<uint64_t, std::string> streams;
  std::map<uint64_t, uint64_t> formats; // text streams whose number format is followed, and where it is kept
  std::vector<std::pair<uint64_t, uint64_t>> atexit;
  std::vector<E> inputs;
  std::set<std::string> inputNames;
  int64_t liveHeap = 0;
  int phase = 0;
  uint64_t forks = 0, nchecks = 0;
  std::vector<std::pair<E, E>> pend; // equalities to confirm at the end of the path
  uint64_t clock = 1000000;
  std::vector<std::string> trace;
};

struct Stats {
  uint64_t paths = 0, killed = 0, instrs = 0, checks = 0, checksTerm = 0, checksConst = 0, checksSolver = 0, checksTol = 0, forks = 0, inconcl = 0,
           unkBranch = 0;
  std::set<std::string> covers;
  std::map<std::string, std::set<int>> lines;    // file -> lines
  std::set<std::string> funcs;
  std::set<std::string> ignoredExt;
  std::map<std::string, uint64_t> tags;
};

struct ViolRec { std::string kind, msg, stack; double margin = 0; std::map<std::string, std::string> values; };

static std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

struct Exec {
  LLVMContext C;
  std::unique_ptr<Module> M;
  const DataLayout *DL = nullptr;
  Solver S;
  Stats st;
  std::unordered_map<const Function *, std::unique_ptr<DF>> dfs;
  std::unordered_map<const GlobalValue *, uint64_t> gaddr;
  std::unordered_map<uint64_t, Function *> faddr;
  std::map<uint64_t, ObjP> globals0;
  std::vector<State *> work;
  std::vector<ViolRec> viols;
  std::map<std::vector<uint32_t>, std::pair<Res, Model>> qcache;
  std::set<std::pair<uint32_t, uint32_t>> provedEq;
  std::set<uint32_t> nz;
  std::string outDir;
  uint64_t maxPaths = 200000, maxInstr = 4000000000ull;
  double maxSecs = 800;
  unsigned checkTmo = 60000;
  size_t maxViol = 4;
  std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
  bool limitHit = false;
  double firstViol = 0; // when the first violation was found
  std::vector<std::string> errors;
  bool verbose = false;
  // equalities settled by the term constructors: put to the solver once per path
  std::set<std::pair<uint32_t, uint32_t>> confirmed;
  uint64_t obligations = 0, confirmedN = 0, confirmUnknown = 0;
  struct Sample { uint64_t path, checks; std::map<std::string, std::string> values; };
  std::vector<Sample> samples;
  size_t maxSamples = 0;
  std::string onlyRe; // checks outside this expression belong to another property
  std::map<std::string, bool> onlyMemo;
  bool skipTag(const std::string &tag) {
    if (onlyRe.empty()) return false;
    auto it = onlyMemo.find(tag);
    if (it == onlyMemo.end()) it = onlyMemo.emplace(tag, !std::regex_search(tag, std::regex(onlyRe))).first;
    return it->second;
  }
  uint64_t rng = 1;

  State *s = nullptr; // current

  // ---------------------------------------------------------- addresses
  uint64_t newAddr(State &x, uint64_t size) {
    uint64_t a = x.nextAddr;
    x.nextAddr += ((size + 15) & ~15ull) + 64;
    return a;
  }
  ObjP mkObj(State &x, uint64_t size, OK_ kind, const std::string &name) {
    auto o = std::make_shared<Obj>();
    o->base = newAddr(x, size);
    o->size = size;
    o->kind = kind;
    o->name = name;
    o->data.assign(size, 0);
    o->tag.assign(size, 0);
    x.mem[o->base] = o;
    return o;
  }
  std::string where() {
    std::string r;
    int n = 0;
    for (int i = (int)s->st.size() - 1; i >= 0 && n < 14; --i) {
      auto &f = s->st[i];
      if (f.ip < 0 || f.ip >= (int)f.f->code.size()) continue;
      Instruction *I = f.f->code[f.ip].I;
      const DILocation *L = I ? I->getDebugLoc().get() : nullptr;
      if (!L) { r += (n ? " < " : "") + demangle(f.f->F->getName().str()).substr(0, 80); n++; continue; }
      while (L && n < 14) {
        r += (n ? " < " : "");
        r += L->getScope()->getSubprogram() ? L->getScope()->getSubprogram()->getName().str() : "?";
        std::string fn = L->getFilename().str();
        auto p = fn.rfind('/');
        r += "@" + (p == std::string::npos ? fn : fn.substr(p + 1)) + ":" + std::to_string(L->getLine());
        n++;
        L = L->getInlinedAt();
      }
    }
    return r;
  }
  ObjP *findObj(uint64_t a) {
    auto it = s->mem.upper_bound(a);
    if (it == s->mem.begin()) return nullptr;
    --it;
    Obj &o = *it->second;
    if (a >= o.base && a < o.base + std::max<uint64_t>(o.size, 1)) return &it->second;
    return nullptr;
  }
  ObjP &locate(uint64_t a, uint64_t n, const char *what) {
    auto it = s->mem.upper_bound(a);
    if (it != s->mem.begin()) {
      --it;
      Obj &o = *it->second;
      if (a >= o.base && a + n <= o.base + o.size) return it->second;
      std::string d = a < 4096 ? "null pointer" : a - (o.base + o.size) < 64 ? "past the end of " + o.name + " (size " + std::to_string(o.size) + ", offset " + std::to_string(a - o.base) + ")" : "dead or wild address";
      throw Violation{"memory", std::string(what) + " of " + std::to_string(n) + " bytes: " + d};
    }
    throw Violation{"memory", std::string(what) + " of " + std::to_string(n) + " bytes at null/wild address"};
  }
  Obj &wr(ObjP &p) {
    if (p->kind == RODATA) throw Violation{"memory", "write to constant " + p->name};
    if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
    return *p;
  }
  // turn a cell partially covered by [off, off+n) into byte cells
  void splitAt(Obj &o, uint64_t off) {
    if (off >= o.size || o.tag[off] != 3) return;
    uint64_t b = off;
    while (o.tag[b] == 3) --b;
    auto c = o.sym[b];
    if (c.first->s == Sort::R) {
      for (uint32_t i = 0; i < c.second; i++) o.tag[b + i] = 0;
      o.sym.erase(b);
      return; // a torn real: becomes indeterminate
    }
    o.sym.erase(b);
    for (uint32_t i = 0; i < c.second; i++) {
      E x = vExtract(c.first, 8 * i, 8);
      if (isC(x)) { o.tag[b + i] = 1; o.data[b + i] = x->u; }
      else { o.tag[b + i] = 2; o.sym[b + i] = {x, 1}; }
    }
  }
  void clearRange(Obj &o, uint64_t off, uint64_t n) {
    if (o.sym.empty()) return;
    splitAt(o, off);
    if (off + n < o.size) splitAt(o, off + n);
    auto it = o.sym.lower_bound(off);
    while (it != o.sym.end() && it->first < off + n) it = o.sym.erase(it);
  }
  static E narrowBool(E e) { return e; }
  Val loadScalar(Obj &o, uint64_t off, unsigned n, bool fp, unsigned bits) {
    const uint8_t *t = &o.tag[off];
    bool allc = true;
    for (unsigned i = 0; i < n; i++) if (t[i] != 1) { allc = false; break; }
    if (allc) {
      if (fp) {
        if (n == 8) { double d; memcpy(&d, &o.data[off], 8); return vF(d); }
        if (n == 4) { float d; memcpy(&d, &o.data[off], 4); return vF(d); }
        unsup("fp load size");
      }
      if (n > 8) { goto blob; }
      uint64_t u = 0;
      memcpy(&u, &o.data[off], n);
      return vI(u, bits);
    }
    if (t[0] == 2) {
      auto &c = o.sym[off];
      if (c.second == n) {
        if (c.first->s == Sort::R) { Val v; v.k = SYM; v.e = c.first; v.w = 0; return v; }
        if (fp) unsup("integer symbol loaded as floating point");
        if (bits < 8 * n) {
          E x = vExtract(c.first, 0, bits);
          if (bits == 1) return vE(mkEq(x, P.cbv(1, 1)));
          return vE(x);
        }
        return vE(c.first);
      }
    }
    {
      bool any = false;
      for (unsigned i = 0; i < n; i++) if (t[i] != 0) any = true;
      if (!any) return Val();
    }
  blob: {
      Val v;
      v.k = BLOB;
      v.a = std::make_shared<std::vector<Val>>(n);
      bool canInt = !fp && n <= 8;
      for (unsigned i = 0; i < n; i++) {
        Val &b = (*v.a)[i];
        if (t[i] == 0) { canInt = false; continue; }
        if (t[i] == 1) { b = vI(o.data[off + i], 8); continue; }
        uint64_t p = off + i;
        while (o.tag[p] == 3) --p;
        auto &c = o.sym[p];
        b.k = SYM; b.e = c.first; b.w = (off + i) - p;
        b.a = nullptr;
        if (c.first->s == Sort::R) canInt = false;
      }
      if (canInt) {
        E r = nullptr;
        for (unsigned i = 0; i < n; i++) {
          Val &b = (*v.a)[i];
          E x = b.k == INT ? P.cbv(b.u, 8) : vExtract(b.e, 8 * b.w, 8);
          r = r ? vConcat(x, r) : x;
        }
        return vE(r);
      }
      if (fp) return Val(); // partially written double
      return v;
    }
  }
  void storeScalar(Obj &o, uint64_t off, unsigned n, const Val &v, bool fp, unsigned bits) {
    if (!o.sym.empty()) clearRange(o, off, n);
    switch (v.k) {
    case UND: memset(&o.tag[off], 0, n); return;
    case INT: memcpy(&o.data[off], &v.u, n); memset(&o.tag[off], 1, n); return;
    case FLT:
      if (n == 4) { float f = (float)v.d; memcpy(&o.data[off], &f, 4); }
      else memcpy(&o.data[off], &v.d, 8);
      memset(&o.tag[off], 1, n);
      return;
    case SYM: {
      E e = v.e;
      if (e->s == Sort::B) e = mkIte(e, P.cbv(1, 8 * n), P.cbv(0, 8 * n));
      else if (e->s == Sort::V && e->w < 8 * n) e = vZext(e, 8 * n);
      o.tag[off] = 2;
      if (n > 1) memset(&o.tag[off + 1], 3, n - 1);
      o.sym[off] = {e, n};
      return;
    }
    case BLOB: {
      auto &bs = *v.a;
      for (unsigned i = 0; i < n;) {
        const Val &b = bs[i];
        if (b.k == UND) { o.tag[off + i] = 0; i++; continue; }
        if (b.k == INT) { o.tag[off + i] = 1; o.data[off + i] = b.u; i++; continue; }
        unsigned sz = b.e->s == Sort::R ? 8 : b.e->w / 8;
        bool whole = b.w == 0 && i + sz <= n;
        for (unsigned j = 1; whole && j < sz; j++) whole = bs[i + j].k == SYM && bs[i + j].e == b.e && bs[i + j].w == j;
        if (whole) {
          o.tag[off + i] = 2;
          if (sz > 1) memset(&o.tag[off + i + 1], 3, sz - 1);
          o.sym[off + i] = {b.e, sz};
          i += sz;
        } else {
          if (b.e->s == Sort::R) { o.tag[off + i] = 0; i++; continue; }
          E x = vExtract(b.e, 8 * b.w, 8);
          o.tag[off + i] = 2;
          o.sym[off + i] = {x, 1};
          i++;
        }
      }
      return;
    }
    default: unsup("store of aggregate as scalar");
    }
  }
  Val load(Type *ty, uint64_t a) {
    if (ty->isStructTy() || ty->isArrayTy() || ty->isVectorTy()) {
      unsigned n = ty->isStructTy() ? ty->getStructNumElements() : ty->isArrayTy() ? ty->getArrayNumElements() : cast<FixedVectorType>(ty)->getNumElements();
      Val v = vAgg(n);
      for (unsigned i = 0; i < n; i++) {
        Type *et = ty->isStructTy() ? ty->getStructElementType(i) : ty->isArrayTy() ? ty->getArrayElementType() : cast<VectorType>(ty)->getElementType();
        uint64_t off = ty->isStructTy() ? DL->getStructLayout(cast<StructType>(ty))->getElementOffset(i) : i * DL->getTypeAllocSize(et);
        (*v.a)[i] = load(et, a + off);
      }
      return v;
    }
    unsigned n = DL->getTypeStoreSize(ty);
    ObjP &p = locate(a, n, "read");
    return loadScalar(*p, a - p->base, n, ty->isFloatingPointTy(), ty->isIntegerTy() ? ty->getIntegerBitWidth() : 64);
  }
  void store(Type *ty, uint64_t a, const Val &v) {
    if (ty->isStructTy() || ty->isArrayTy() || ty->isVectorTy()) {
      unsigned n = ty->isStructTy() ? ty->getStructNumElements() : ty->isArrayTy() ? ty->getArrayNumElements() : cast<FixedVectorType>(ty)->getNumElements();
      for (unsigned i = 0; i < n; i++) {
        Type *et = ty->isStructTy() ? ty->getStructElementType(i) : ty->isArrayTy() ? ty->getArrayElementType() : cast<VectorType>(ty)->getElementType();
        uint64_t off = ty->isStructTy() ? DL->getStructLayout(cast<StructType>(ty))->getElementOffset(i) : i * DL->getTypeAllocSize(et);
        store(et, a + off, v.k == AGG ? (*v.a)[i] : Val());
      }
      return;
    }
    unsigned n = DL->getTypeStoreSize(ty);
    ObjP &p = locate(a, n, "write");
    Obj &o = wr(p);
    storeScalar(o, a - o.base, n, v, ty->isFloatingPointTy(), ty->isIntegerTy() ? ty->getIntegerBitWidth() : 64);
  }
  void copyMem(uint64_t d, uint64_t sr, uint64_t n) {
    if (!n) return;
    ObjP src = locate(sr, n, "read"); // keep a reference
    ObjP &dp = locate(d, n, "write");
    uint64_t so = sr - src->base;
    bool same = dp->base == src->base;
    Obj tmp;
    std::vector<uint8_t> dat(src->data.begin() + so, src->data.begin() + so + n), tg(src->tag.begin() + so, src->tag.begin() + so + n);
    std::map<uint32_t, std::pair<E, uint32_t>> cells;
    if (!src->sym.empty()) {
      Obj *q = src.get();
      std::shared_ptr<Obj> cp;
      bool torn = (tg[0] == 3) || (so + n < q->size && q->tag[so + n] == 3);
      if (torn) {
        cp = std::make_shared<Obj>(*src);
        splitAt(*cp, so);
        if (so + n < cp->size) splitAt(*cp, so + n);
        q = cp.get();
        dat.assign(q->data.begin() + so, q->data.begin() + so + n);
        tg.assign(q->tag.begin() + so, q->tag.begin() + so + n);
      }
      for (auto it = q->sym.lower_bound(so); it != q->sym.end() && it->first < so + n; ++it) cells[it->first - so] = it->second;
    }
    (void)same;
    src.reset();
    Obj &o = wr(dp);
    uint64_t od = d - o.base;
    clearRange(o, od, n);
    memcpy(&o.data[od], dat.data(), n);
    memcpy(&o.tag[od], tg.data(), n);
    for (auto &c : cells) o.sym[od + c.first] = c.second;
  }
  void setMem(uint64_t d, const Val &b, uint64_t n) {
    if (!n) return;
    ObjP &dp = locate(d, n, "write");
    Obj &o = wr(dp);
    uint64_t od = d - o.base;
    clearRange(o, od, n);
    if (b.k == UND) { memset(&o.tag[od], 0, n); return; }
    if (b.k != INT) unsup("memset with symbolic byte");
    memset(&o.data[od], (int)b.u, n);
    memset(&o.tag[od], 1, n);
  }
  std::string cstr(uint64_t a, size_t max = 1 << 20) {
    std::string r;
    while (r.size() < max) {
      Val v = load(Type::getInt8Ty(C), a + r.size());
      if (v.k == UND) throw Violation{"uninitialised", "string byte is indeterminate"};
      if (v.k != INT) unsup("symbolic C string");
      if (!v.u) break;
      r += (char)v.u;
    }
    return r;
  }
  void writeBytes(uint64_t a, const void *p, size_t n) {
    if (!n) return;
    ObjP &dp = locate(a, n, "write");
    Obj &o = wr(dp);
    clearRange(o, a - o.base, n);
    memcpy(&o.data[a - o.base], p, n);
    memset(&o.tag[a - o.base], 1, n);
  }
  uint64_t heapAlloc(uint64_t n, OK_ k) {
    auto o = mkObj(*s, n, k, std::string("heap block ") + std::to_string(n));
    s->liveHeap++;
    return o->base;
  }
  void heapFree(uint64_t a, OK_ k) {
    if (!a) return;
    auto it = s->mem.find(a);
    if (it == s->mem.end()) throw Violation{"memory", "free of a dead or invalid pointer"};
    OK_ ok = it->second->kind;
    if (ok != HEAP_MALLOC && ok != HEAP_NEW && ok != HEAP_NEWA) throw Violation{"memory", "free of a non-heap object " + it->second->name};
    if (ok != k) throw Violation{"memory", "mismatched allocation/deallocation functions"};
    s->mem.erase(it);
    s->liveHeap--;
  }

  // ---------------------------------------------------------- solver glue
  std::vector<E> slice(const std::vector<E> &pc, E cond) {
    std::unordered_set<uint32_t> vs(cond->vars.begin(), cond->vars.end());
    std::vector<E> out;
    std::vector<char> in(pc.size(), 0);
    bool ch = true;
    while (ch) {
      ch = false;
      for (size_t i = 0; i < pc.size(); i++) {
        if (in[i]) continue;
        bool hit = false;
        for (auto v : pc[i]->vars) if (vs.count(v)) { hit = true; break; }
        if (hit) {
          in[i] = 1;
          out.push_back(pc[i]);
          for (auto v : pc[i]->vars) if (vs.insert(v).second) ch = true;
        }
      }
    }
    return out;
  }
  Res query(State &x, E cond, Model *out, unsigned tmo = 0) {
    auto cs = slice(x.pc, cond);
    cs.push_back(cond);
    std::vector<uint32_t> key;
    for (auto c : cs) key.push_back(c->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = qcache.find(key);
    if (it != qcache.end() && !(it->second.first == Res::UNKNOWN && tmo)) {
      if (out) *out = it->second.second;
      return it->second.first;
    }
    Model m;
    Res r = S.check(cs, &m, tmo);
    qcache[key] = {r, m};
    if (out) *out = m;
    return r;
  }
  std::shared_ptr<MM> overlay(State &x, const Model &m) {
    auto n = std::make_shared<MM>();
    n->m = x.mm->m;
    for (auto &p : m.v) n->m.v[p.first] = p.second;
    return n;
  }
  // -1 unknown
  int evalB(State &x, E c) {
    if (x.stale) return -1;
    try { return x.mm->ev->ev(c).u ? 1 : 0; } catch (EvalFail &) { return -1; }
  }
  void forkWith(E cond, const Model *m, bool knownCond, E orig, bool val) {
    State *n = new State(*s);
    n->pc.push_back(cond);
    n->known[orig->id] = val;
    if (m) { n->mm = overlay(*s, *m); n->stale = s->stale; if (pcHolds(*n)) n->stale = false; else n->stale = true; }
    else n->stale = true;
    n->forks++;
    st.forks++;
    work.push_back(n);
  }
  bool pcHolds(State &x) {
    try {
      for (auto c : x.pc) if (!x.mm->ev->ev(c).u) return false;
    } catch (EvalFail &) { return false; }
    return true;
  }
  bool decide(E c) {
    if (isC(c)) return c->u;
    if (c->op == Op::NOT) return !decide(c->ch[0]);
    auto k = s->known.find(c->id);
    if (k != s->known.end()) return k->second;
    int b = evalB(*s, c);
    if (b >= 0) {
      Model m;
      Res r = query(*s, b ? bNot(c) : c, &m);
      if (r != Res::UNSAT) {
        if (r == Res::UNKNOWN) st.unkBranch++;
        forkWith(b ? bNot(c) : c, r == Res::SAT ? &m : nullptr, true, c, !b);
        s->pc.push_back(b ? c : bNot(c));
      }
      s->known[c->id] = b;
      return b;
    }
    Model m1, m0;
    Res r1 = query(*s, c, &m1), r0 = query(*s, bNot(c), &m0);
    if (r1 == Res::UNKNOWN || r0 == Res::UNKNOWN) st.unkBranch++;
    if (r1 == Res::UNSAT && r0 == Res::UNSAT) throw PathEnd{1};
    if (r1 == Res::UNSAT) { s->known[c->id] = false; return false; }
    if (r0 == Res::UNSAT) { s->known[c->id] = true; return true; }
    forkWith(bNot(c), r0 == Res::SAT ? &m0 : nullptr, true, c, false);
    s->pc.push_back(c);
    s->known[c->id] = true;
    if (r1 == Res::SAT) { s->mm = overlay(*s, m1); s->stale = !pcHolds(*s); } else s->stale = true;
    return true;
  }
  uint64_t concretise(E e) {
    for (int i = 0; i < 4096; i++) {
      uint64_t v;
      if (!s->stale) {
        try { v = s->mm->ev->ev(e).u; } catch (EvalFail &) { unsup("concretise: no model value"); }
      } else {
        Model m;
        if (query(*s, P.cb(true), &m) == Res::UNSAT) throw PathEnd{1};
        // ask for any model of everything relevant
        std::vector<E> cs = s->pc;
        Model mm;
        Res r = S.check(cs, &mm);
        if (r == Res::UNSAT) throw PathEnd{1};
        if (r != Res::SAT) unsup("concretise: unknown");
        s->mm = overlay(*s, mm);
        s->stale = false;
        v = s->mm->ev->ev(e).u;
      }
      if (decide(mkEq(e, P.cbv(v, e->w)))) return v;
    }
    unsup("concretise: too many values");
  }
  uint64_t concInt(const Val &v, const char *what) {
    if (v.k == INT) return v.u;
    if (v.k == UND) throw Violation{"uninitialised", std::string("indeterminate value used as ") + what};
    if (v.k == BLOB) throw Violation{"uninitialised", std::string("partly indeterminate value used as ") + what};
    if (v.k == SYM) {
      if (v.e->s == Sort::B) return decide(v.e);
      if (v.e->s == Sort::R) unsup(std::string("floating-point bits used as ") + what);
      return concretise(v.e);
    }
    unsup(std::string("bad value for ") + what);
  }
  bool decideVal(const Val &v, const char *what) {
    if (v.k == INT) return v.u & 1;
    if (v.k == SYM) { if (v.e->s == Sort::B) return decide(v.e); if (v.e->s == Sort::V) return decide(bNot(mkEq(v.e, P.cbv(0, v.e->w)))); }
    if (v.k == UND || v.k == BLOB) throw Violation{"uninitialised", std::string("control flow depends on an indeterminate value (") + what + ")"};
    unsup("decideVal");
  }

  // ---------------------------------------------------------- constants
  uint64_t addrOf(GlobalValue *g) {
    auto it = gaddr.find(g);
    if (it != gaddr.end()) return it->second;
    unsup("address of unknown global " + g->getName().str());
  }
  Val constVal(Constant *c) {
    if (auto *ci = dyn_cast<ConstantInt>(c)) {
      if (ci->getBitWidth() > 64) {
        if (ci->getValue().getActiveBits() > 64) unsup("wide constant");
        Val v; v.k = BLOB; unsigned n = ci->getBitWidth() / 8;
        v.a = std::make_shared<std::vector<Val>>(n);
        uint64_t x = ci->getZExtValue();
        for (unsigned i = 0; i < n; i++) (*v.a)[i] = vI(i < 8 ? x >> (8 * i) : 0, 8);
        return v;
      }
      return vI(ci->getZExtValue(), ci->getBitWidth());
    }
    if (auto *cf = dyn_cast<ConstantFP>(c)) {
      APFloat f = cf->getValueAPF();
      if (&f.getSemantics() == &APFloat::IEEEdouble()) return vF(f.convertToDouble());
      if (&f.getSemantics() == &APFloat::IEEEsingle()) return vF(f.convertToFloat());
      bool li; f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
      return vF(f.convertToDouble());
    }
    if (isa<ConstantPointerNull>(c)) return vP(0);
    if (isa<UndefValue>(c)) { // includes poison
      Type *t = c->getType();
      if (t->isAggregateType() || t->isVectorTy()) {
        unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        Val v = vAgg(n);
        for (unsigned i = 0; i < n; i++) (*v.a)[i] = constVal(cast<UndefValue>(c)->getElementValue(i));
        return v;
      }
      return Val();
    }
    if (auto *z = dyn_cast<ConstantAggregateZero>(c)) {
      unsigned n = z->getElementCount().getFixedValue();
      Val v = vAgg(n);
      for (unsigned i = 0; i < n; i++) (*v.a)[i] = constVal(z->getElementValue(i));
      return v;
    }
    if (auto *a = dyn_cast<ConstantAggregate>(c)) {
      Val v = vAgg(a->getNumOperands());
      for (unsigned i = 0; i < a->getNumOperands(); i++) (*v.a)[i] = constVal(a->getOperand(i));
      return v;
    }
    if (auto *d = dyn_cast<ConstantDataSequential>(c)) {
      Val v = vAgg(d->getNumElements());
      for (unsigned i = 0; i < d->getNumElements(); i++) (*v.a)[i] = constVal(d->getElementAsConstant(i));
      return v;
    }
    if (auto *g = dyn_cast<GlobalAlias>(c)) return constVal(g->getAliasee());
    if (auto *g = dyn_cast<GlobalValue>(c)) return vP(addrOf(g));
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
      switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        auto *go = cast<GEPOperator>(ce);
        if (!go->accumulateConstantOffset(*DL, off)) unsup("constexpr gep");
        Val b = constVal(ce->getOperand(0));
        return vP(b.u + off.getSExtValue());
      }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: {
        Val v = constVal(ce->getOperand(0));
        if (ce->getType()->isIntegerTy()) return vI(v.u, ce->getType()->getIntegerBitWidth());
        return v;
      }
      case Instruction::Sub: return vI(constVal(ce->getOperand(0)).u - constVal(ce->getOperand(1)).u, ce->getType()->getIntegerBitWidth());
      case Instruction::Add: return vI(constVal(ce->getOperand(0)).u + constVal(ce->getOperand(1)).u, ce->getType()->getIntegerBitWidth());
      case Instruction::Trunc: return vI(constVal(ce->getOperand(0)).u, ce->getType()->getIntegerBitWidth());
      case Instruction::ICmp: {
        Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1));
        if (ce->getPredicate() == CmpInst::ICMP_EQ) return vI(a.u == b.u, 1);
        if (ce->getPredicate() == CmpInst::ICMP_NE) return vI(a.u != b.u, 1);
        Type *t = ce->getOperand(0)->getType();
        unsigned w = t->isIntegerTy() ? t->getIntegerBitWidth() : 64;
        return vI(ICmpInst::compare(APInt(w, a.u), APInt(w, b.u), (CmpInst::Predicate)ce->getPredicate()), 1);
      }
      default: break;
      }
      unsup(std::string("constant expression ") + ce->getOpcodeName());
    }
    unsup("constant kind");
  }
  void initObj(Obj &o, uint64_t off, Constant *c) {
    Type *t = c->getType();
    if (isa<ConstantAggregateZero>(c)) {
      uint64_t n = DL->getTypeAllocSize(t);
      memset(&o.data[off], 0, n);
      memset(&o.tag[off], 1, n);
      return;
    }
    if (isa<UndefValue>(c)) return;
    if (t->isStructTy()) {
      auto *sl = DL->getStructLayout(cast<StructType>(t));
      for (unsigned i = 0; i < t->getStructNumElements(); i++) initObj(o, off + sl->getElementOffset(i), c->getAggregateElement(i));
      return;
    }
    if (t->isArrayTy() || t->isVectorTy()) {
      unsigned n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
      Type *et = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
      for (unsigned i = 0; i < n; i++) initObj(o, off + i * DL->getTypeAllocSize(et), c->getAggregateElement(i));
      return;
    }
    Val v = constVal(c);
    storeScalar(o, off, DL->getTypeStoreSize(t), v, t->isFloatingPointTy(), t->isIntegerTy() ? t->getIntegerBitWidth() : 64);
  }
  void setupGlobals(State &x) {
    x.nextAddr = 0x100000;
    for (auto &f : *M) {
      uint64_t a = x.nextAddr;
      x.nextAddr += 16;
      gaddr[&f] = a;
      faddr[a] = &f;
    }
    x.nextAddr += 4096;
    std::vector<std::pair<GlobalVariable *, ObjP>> todo;
    for (auto &g : M->globals()) {
      if (g.isDeclaration()) {
        auto o = mkObj(x, 4096, OPAQUE, g.getName().str());
        memset(o->tag.data(), 1, 4096);
        if (g.getName() == "__libc_single_threaded") o->data[2048] = 1;
        gaddr[&g] = o->base + 2048;
        continue;
      }
      uint64_t n = DL->getTypeAllocSize(g.getValueType());
      auto o = mkObj(x, n, g.isConstant() ? RODATA : GLOBAL, g.getName().str());
      gaddr[&g] = o->base;
      todo.push_back({&g, o});
    }
    for (auto &a : M->aliases()) {
      if (auto *gv = dyn_cast<GlobalValue>(a.getAliasee()->stripPointerCasts())) if (gaddr.count(gv)) gaddr[&a] = gaddr[gv];
    }
    for (auto &p : todo) {
      initObj(*p.second, 0, p.first->getInitializer());
      // padding of initialised globals is zero
      for (auto &t : p.second->tag) if (t == 0) t = 1;
    }
  }

  // ---------------------------------------------------------- decode
  DF *decode(Function *F) {
    auto &p = dfs[F];
    if (p) return p.get();
    p.reset(new DF);
    DF *d = p.get();
    d->F = F;
    std::unordered_map<const Value *, int> slot;
    int n = 0;
    for (auto &a : F->args()) slot[&a] = n++;
    for (auto &b : *F)
      for (auto &i : b)
        if (!i.getType()->isVoidTy()) slot[&i] = n++;
    d->nregs = n;
    for (auto &b : *F) {
      d->bb[&b] = d->code.size();
      for (auto &i : b) {
        if (isa<DbgInfoIntrinsic>(i)) continue;
        DI di;
        di.I = &i;
        di.opc = i.getOpcode();
        di.ty = i.getType();
        if (slot.count(&i)) di.dst = slot[&i];
        for (auto &o : i.operands()) {
          OpRef r;
          Value *v = o.get();
          if (slot.count(v)) r.slot = slot[v];
          else if (auto *c = dyn_cast<Constant>(v)) {
            try { r.c = constVal(c); } catch (Unsupported &) { r.c = Val(); }
          }
          di.ops.push_back(r);
        }
        d->code.push_back(std::move(di));
        d->bbOf.push_back(&b);
      }
    }
    return d;
  }
  void note(DI &d) {
    d.covered = true;
    const DILocation *L = d.I->getDebugLoc().get();
    while (L) {
      std::string fn = L->getFilename().str();
      if (fn.find("/include/mpc/") != std::string::npos) {
        auto p = fn.find("/include/mpc/");
        st.lines[fn.substr(p + 9)].insert(L->getLine());
        if (auto *sp = L->getScope()->getSubprogram()) {
          std::string b = fn.substr(fn.rfind('/') + 1);
          auto q = b.rfind('.');
          st.funcs.insert(b.substr(0, q) + "::" + sp->getName().str());
        }
      }
      L = L->getInlinedAt();
    }
  }

  Frame &top() { return s->st.back(); }
  const Val &op(const DI &d, unsigned i) {
    const OpRef &r = d.ops[i];
    if (r.slot >= 0) return top().r[r.slot];
    if (r.c.k == UND && isa<Constant>(d.I->getOperand(i)) && !isa<UndefValue>(d.I->getOperand(i))) {
      const_cast<OpRef &>(r).c = constVal(cast<Constant>(d.I->getOperand(i)));
    }
    return r.c;
  }
  void set(const DI &d, Val v) { if (d.dst >= 0) top().r[d.dst] = std::move(v); }

  // ---------------------------------------------------------- arithmetic
  bool exactAdd(double a, double b, double r) {
    double bb = r - a;
    double err = (a - (r - bb)) + (b - bb);
    return err == 0;
  }
  Val fbin(unsigned opc, const Val &a, const Val &b) {
    if (a.k == UND || b.k == UND) return Val();
    if (a.k == FLT && b.k == FLT) {
      double x = a.d, y = b.d, r;
      switch (opc) {
      case Instruction::FAdd: r = x + y; break;
      case Instruction::FSub: r = x - y; break;
      case Instruction::FMul: r = x * y; break;
      case Instruction::FDiv: r = x / y; break;
      case Instruction::FRem: r = fmod(x, y); return vF(r);
      default: unsup("fp op");
      }
      if (!std::isfinite(x) || !std::isfinite(y)) return vF(r);
      if (!std::isfinite(r)) {
        if (opc == Instruction::FDiv && y == 0) return vF(r);
        // overflow in doubles: reals do not overflow
      } else {
        bool ex = false;
        switch (opc) {
        case Instruction::FAdd: ex = exactAdd(x, y, r); break;
        case Instruction::FSub: ex = exactAdd(x, -y, r); break;
        case Instruction::FMul: ex = (r != 0 || x == 0 || y == 0) && std::fma(x, y, -r) == 0 && (fabs(r) > 1e-200 || r == 0); break;
        case Instruction::FDiv: ex = std::fma(r, y, -x) == 0 && (fabs(x) > 1e-200 || x == 0); break;
        }
        if (ex) return vF(r);
      }
    }
    auto nf = [](const Val &v) { return v.k == FLT && !std::isfinite(v.d); };
    if (nf(a) || nf(b)) { // exactly one symbolic operand
      double x, y;
      auto sgn = [&](const Val &v) -> double { // -1, 0, 1 by forking
        if (v.k == FLT) return v.d > 0 ? 1 : v.d < 0 ? -1 : v.d;
        if (decide(mkEq(v.e, P.cr(0)))) return 0;
        return decide(rLt(P.cr(0), v.e)) ? 1 : -1;
      };
      if (nf(a)) { x = a.d; y = (opc == Instruction::FAdd || opc == Instruction::FSub || std::isnan(x)) ? 1 : sgn(b); }
      else { y = b.d; x = (opc == Instruction::FAdd || opc == Instruction::FSub || opc == Instruction::FDiv || std::isnan(y)) ? 1 : sgn(a); }
      switch (opc) {
      case Instruction::FAdd: return vF(x + y);
      case Instruction::FSub: return vF(x - y);
      case Instruction::FMul: return vF(x * y);
      case Instruction::FDiv: return nf(b) ? vF(std::isnan(y) ? y : 0.0) : vF(x / y);
      default: unsup("fp op");
      }
    }
    E x = toE(a), y = toE(b);
    switch (opc) {
    case Instruction::FAdd: return vE(rAdd(x, y));
    case Instruction::FSub: return vE(rSub(x, y));
    case Instruction::FMul: return vE(rMul(x, y));
    case Instruction::FDiv: {
      if (isC(y)) {
        if (*y->q == 0) { // x symbolic / 0
          double sx = decide(mkEq(x, P.cr(0))) ? 0 : decide(rLt(P.cr(0), x)) ? 1 : -1;
          return vF(sx / (b.k == FLT ? b.d : 0.0));
        }
        return vE(rDiv(x, y));
      }
      if (!nz.count(y->id)) {
        if (decide(mkEq(y, P.cr(0)))) {
          double sx = isC(x) ? (x->q->get_d()) : decide(mkEq(x, P.cr(0))) ? 0 : decide(rLt(P.cr(0), x)) ? 1 : -1;
          return vF(sx / 0.0);
        }
      }
      return vE(rDiv(x, y));
    }
    default: unsup("fp op on symbols");
    }
  }
  Val fcmp(CmpInst::Predicate p, const Val &a, const Val &b) {
    if (p == CmpInst::FCMP_TRUE) return vI(1, 1);
    if (p == CmpInst::FCMP_FALSE) return vI(0, 1);
    if (a.k == UND || b.k == UND) return Val();
    auto nan = [](const Val &v) { return v.k == FLT && std::isnan(v.d); };
    bool unord = nan(a) || nan(b);
    if (p == CmpInst::FCMP_ORD) return vI(!unord, 1);
    if (p == CmpInst::FCMP_UNO) return vI(unord, 1);
    bool isU = CmpInst::isUnordered(p);
    if (unord) return vI(isU, 1);
    auto inf = [](const Val &v) { return v.k == FLT && std::isinf(v.d); };
    if ((a.k == FLT && b.k == FLT) || inf(a) || inf(b)) {
      double x = a.k == FLT ? a.d : 0, y = b.k == FLT ? b.d : 0; // a symbol is strictly between the infinities
      switch (p) {
      case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return vI(x == y, 1);
      case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return vI(x != y, 1);
      case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return vI(x < y, 1);
      case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return vI(x <= y, 1);
      case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return vI(x > y, 1);
      case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return vI(x >= y, 1);
      default: unsup("fcmp");
      }
    }
    E x = toE(a), y = toE(b);
    switch (p) {
    case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return vE(mkEq(x, y));
    case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return vE(bNot(mkEq(x, y)));
    case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return vE(rLt(x, y));
    case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return vE(rLe(x, y));
    case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return vE(rLt(y, x));
    case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return vE(rLe(y, x));
    default: unsup("fcmp");
    }
  }
  Val ibin(unsigned opc, const Val &a, const Val &b, unsigned w) {
    if (opc == Instruction::And) {
      if (a.k == INT && a.u == 0) return a;
      if (b.k == INT && b.u == 0) return b;
    }
    if (opc == Instruction::Or) {
      if (a.k == INT && a.u == maskw(~0ull, w)) return a;
      if (b.k == INT && b.u == maskw(~0ull, w)) return b;
    }
    if (opc == Instruction::Mul) {
      if (a.k == INT && a.u == 0) return a;
      if (b.k == INT && b.u == 0) return b;
    }
    if (a.k == UND || b.k == UND) return Val();
    if (w > 64) unsup("wide integer op");
    if (a.k == BLOB || b.k == BLOB) return Val();
    if (a.k == INT && b.k == INT) {
      uint64_t x = a.u, y = b.u;
      int64_t sx = sextw(x, w), sy = sextw(y, w);
      switch (opc) {
      case Instruction::Add: return vI(x + y, w);
      case Instruction::Sub: return vI(x - y, w);
      case Instruction::Mul: return vI(x * y, w);
      case Instruction::UDiv: if (!y) throw Violation{"arith", "integer division by zero"}; return vI(x / y, w);
      case Instruction::SDiv: if (!y) throw Violation{"arith", "integer division by zero"}; if (sy == -1) return vI(0 - x, w); return vI(sx / sy, w);
      case Instruction::URem: if (!y) throw Violation{"arith", "integer division by zero"}; return vI(x % y, w);
      case Instruction::SRem: if (!y) throw Violation{"arith", "integer division by zero"}; if (sy == -1) return vI(0, w); return vI(sx % sy, w);
      case Instruction::Shl: return vI(y >= w ? 0 : x << y, w);
      case Instruction::LShr: return vI(y >= w ? 0 : x >> y, w);
      case Instruction::AShr: return vI(y >= w ? (sx < 0 ? ~0ull : 0) : (uint64_t)(sx >> y), w);
      case Instruction::And: return vI(x & y, w);
      case Instruction::Or: return vI(x | y, w);
      case Instruction::Xor: return vI(x ^ y, w);
      default: unsup("int op");
      }
    }
    E x = toE(a), y = toE(b);
    if (x->s == Sort::R || y->s == Sort::R) {
      // bit tricks on a real: recognise fabs / negation
      E r = x->s == Sort::R ? x : y;
      const Val &m = x->s == Sort::R ? b : a;
      if (m.k == INT && w == 64) {
        if (opc == Instruction::And && m.u == 0x7fffffffffffffffull) return vE(mkIte(rLt(r, P.cr(0)), rNeg(r), r));
        if (opc == Instruction::Xor && m.u == 0x8000000000000000ull) return vE(rNeg(r));
      }
      unsup("integer operation on floating-point bits");
    }
    if (w == 1) {
      switch (opc) {
      case Instruction::And: case Instruction::Mul: return vE(bAnd(x, y));
      case Instruction::Or: return vE(bOr(x, y));
      case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return vE(bNot(mkEq(x, y)));
      default: unsup("i1 op");
      }
    }
    static const std::map<unsigned, Op> mp = {{Instruction::Add, Op::ADD}, {Instruction::Sub, Op::SUB}, {Instruction::Mul, Op::MUL}, {Instruction::UDiv, Op::UDIV}, {Instruction::SDiv, Op::SDIV}, {Instruction::URem, Op::UREM}, {Instruction::SRem, Op::SREM}, {Instruction::Shl, Op::SHL}, {Instruction::LShr, Op::LSHR}, {Instruction::AShr, Op::ASHR}, {Instruction::And, Op::BAND}, {Instruction::Or, Op::BOR}, {Instruction::Xor, Op::BXOR}};
    if (opc == Instruction::UDiv || opc == Instruction::SDiv || opc == Instruction::URem || opc == Instruction::SRem) {
      if (decide(mkEq(y, P.cbv(0, w)))) throw Violation{"arith", "integer division by zero"};
    }
    return vE(vBin(mp.at(opc), x, y));
  }
  Val icmp(CmpInst::Predicate p, const Val &a, const Val &b, unsigned w) {
    if (a.k == UND || b.k == UND || a.k == BLOB || b.k == BLOB) return Val();
    if (a.k == INT && b.k == INT) {
      uint64_t x = a.u, y = b.u;
      int64_t sx = sextw(x, w), sy = sextw(y, w);
      bool r;
      switch (p) {
      case CmpInst::ICMP_EQ: r = x == y; break;
      case CmpInst::ICMP_NE: r = x != y; break;
      case CmpInst::ICMP_ULT: r = x < y; break;
      case CmpInst::ICMP_ULE: r = x <= y; break;
      case CmpInst::ICMP_UGT: r = x > y; break;
      case CmpInst::ICMP_UGE: r = x >= y; break;
      case CmpInst::ICMP_SLT: r = sx < sy; break;
      case CmpInst::ICMP_SLE: r = sx <= sy; break;
      case CmpInst::ICMP_SGT: r = sx > sy; break;
      case CmpInst::ICMP_SGE: r = sx >= sy; break;
      default: unsup("icmp");
      }
      return vI(r, 1);
    }
    E x = toE(a), y = toE(b);
    if (x->s == Sort::R || y->s == Sort::R) {
      E r = x->s == Sort::R ? x : y;
      E o = x->s == Sort::R ? y : x;
      if (isC(o) && o->s == Sort::V) { // sign test on bits
        if (x == r && p == CmpInst::ICMP_SLT && o->u == 0) return vE(rLt(r, P.cr(0)));
        if (x == r && p == CmpInst::ICMP_SGT && sextw(o->u, 64) == -1) return vE(bNot(rLt(r, P.cr(0))));
      }
      unsup("integer comparison of floating-point bits");
    }
    if (x->s == Sort::B) {
      switch (p) {
      case CmpInst::ICMP_EQ: return vE(mkEq(x, y));
      case CmpInst::ICMP_NE: return vE(bNot(mkEq(x, y)));
      case CmpInst::ICMP_ULT: return vE(bAnd(bNot(x), y));
      case CmpInst::ICMP_UGT: return vE(bAnd(x, bNot(y)));
      case CmpInst::ICMP_ULE: return vE(bOr(bNot(x), y));
      case CmpInst::ICMP_UGE: return vE(bOr(x, bNot(y)));
      default: unsup("i1 icmp");
      }
    }
    switch (p) {
    case CmpInst::ICMP_EQ: return vE(mkEq(x, y));
    case CmpInst::ICMP_NE: return vE(bNot(mkEq(x, y)));
    case CmpInst::ICMP_ULT: return vE(vCmp(Op::ULT, x, y));
    case CmpInst::ICMP_ULE: return vE(vCmp(Op::ULE, x, y));
    case CmpInst::ICMP_UGT: return vE(vCmp(Op::ULT, y, x));
    case CmpInst::ICMP_UGE: return vE(vCmp(Op::ULE, y, x));
    case CmpInst::ICMP_SLT: return vE(vCmp(Op::SLT, x, y));
    case CmpInst::ICMP_SLE: return vE(vCmp(Op::SLE, x, y));
    case CmpInst::ICMP_SGT: return vE(vCmp(Op::SLT, y, x));
    case CmpInst::ICMP_SGE: return vE(vCmp(Op::SLE, y, x));
    default: unsup("icmp");
    }
  }
  Val selectV(const Val &c, const Val &a, const Val &b, Type *ty) {
    if (c.k == INT) return c.u ? a : b;
    if (c.k == UND) {
      throw Violation{"uninitialised", "selection depends on an indeterminate value"};
    }
    E ce = c.e;
    auto it = s->known.find(ce->id);
    if (it != s->known.end()) return it->second ? a : b;
    if (ce->op == Op::NOT) { it = s->known.find(ce->ch[0]->id); if (it != s->known.end()) return it->second ? b : a; }
    bool fpok = ty->isFloatingPointTy() && finite(a) && finite(b);
    bool iok = ty->isIntegerTy() && (a.k == INT || (a.k == SYM && a.e->s != Sort::R)) && (b.k == INT || (b.k == SYM && b.e->s != Sort::R));
    if (fpok || iok) return vE(mkIte(ce, toE(a), toE(b)));
    if (a.k == b.k && a.k == INT && a.u == b.u) return a;
    if (a.k == UND && b.k == UND) return a;
    return decide(ce) ? a : b;
  }
  Val fpToInt(const Val &v, unsigned w, bool sgn) {
    if (v.k == UND) return v;
    if (v.k == FLT) {
      if (!std::isfinite(v.d)) throw Violation{"arith", "conversion of a non-finite value to an integer"};
      if (fabs(v.d) >= ldexp(1.0, w - (sgn ? 1 : 0))) throw Violation{"arith", "floating-point value out of the integer's range"};
      return vI(sgn ? (uint64_t)(int64_t)v.d : (uint64_t)v.d, w);
    }
    for (int i = 0; i < 4096; i++) {
      if (s->stale) unsup("fptoint with stale model");
      mpq_class q = s->mm->ev->ev(v.e).q;
      mpz_class z;
      mpz_tdiv_q(z.get_mpz_t(), q.get_num().get_mpz_t(), q.get_den().get_mpz_t());
      E lo = P.cr(mpq_class(z)), c;
      if (z > 0) c = bAnd(rLe(lo, v.e), rLt(v.e, P.cr(mpq_class(z + 1))));
      else if (z < 0) c = bAnd(rLt(P.cr(mpq_class(z - 1)), v.e), rLe(v.e, lo));
      else c = bAnd(rLt(P.cr(-1), v.e), rLt(v.e, P.cr(1)));
      if (decide(c)) return vI((uint64_t)mpz_get_si(z.get_mpz_t()), w);
    }
    unsup("fptoint: too many values");
  }
  Val fabsV(const Val &v) {
    if (v.k == UND) return v;
    if (v.k == FLT) return vF(fabs(v.d));
    return vE(mkIte(rLt(v.e, P.cr(0)), rNeg(v.e), v.e));
  }
  Val sqrtV(const Val &v) {
    if (v.k == UND) return v;
    if (v.k == FLT) {
      if (!(v.d >= 0) || !std::isfinite(v.d)) return vF(std::sqrt(v.d));
      double r = std::sqrt(v.d);
      if (std::fma(r, r, -v.d) == 0) return vF(r);
      return vE(rSqrt(P.cr(d2q(v.d))));
    }
    if (decide(rLt(v.e, P.cr(0)))) return vF(std::nan(""));
    return vE(rSqrt(v.e));
  }

  // ---------------------------------------------------------- assertions
  struct RF { E n, d; };
  std::unordered_map<uint32_t, RF> rfMemo;
  std::unordered_map<uint32_t, E> atomOf;
  E freshAtom(E e) {
    auto it = atomOf.find(e->id);
    if (it != atomOf.end()) return it->second;
    return atomOf[e->id] = P.var("atom!" + std::to_string(e->id), Sort::R, 0);
  }
  RF ratio(E e) {
    auto it = rfMemo.find(e->id);
    if (it != rfMemo.end()) return it->second;
    E one = P.cr(1);
    RF r;
    switch (e->op) {
    case Op::VAR: case Op::CONST: r = {e, one}; break;
    case Op::RNEG: { RF a = ratio(e->ch[0]); r = {rNeg(a.n), a.d}; break; }
    case Op::RADD: case Op::RSUB: {
      RF a = ratio(e->ch[0]), b = ratio(e->ch[1]);
      bool add = e->op == Op::RADD;
      if (a.d == b.d) r = {add ? rAdd(a.n, b.n) : rSub(a.n, b.n), a.d};
      else {
        E x = rMul(a.n, b.d), y = rMul(b.n, a.d);
        r = {add ? rAdd(x, y) : rSub(x, y), rMul(a.d, b.d)};
      }
      break;
    }
    case Op::RMUL: { RF a = ratio(e->ch[0]), b = ratio(e->ch[1]); r = {rMul(a.n, b.n), rMul(a.d, b.d)}; if (r.n == r.d) r = {one, one}; break; }
    case Op::RDIV: { RF a = ratio(e->ch[0]), b = ratio(e->ch[1]); r = {rMul(a.n, b.d), rMul(a.d, b.n)}; break; }
    default: r = {freshAtom(e), one}; break;
    }
    return rfMemo[e->id] = r;
  }
  // polynomial normal form of a numerator: used to shorten what is sent to the solver
  void bump(const std::string &tag) { st.checks++; st.tags[tag]++; s->nchecks++; }
  void toConfirm(E x, E y) {
    auto key = std::make_pair(std::min(x->id, y->id), std::max(x->id, y->id));
    if (confirmed.insert(key).second) s->pend.push_back({x, y});
  }
  // one query for all of a path: can any of them differ?
  void confirmPath() {
    if (s->pend.empty()) return;
    obligations += s->pend.size();
    Res r = S.checkDiffer(s->pc, s->pend, 20000);
    if (r == Res::UNSAT) confirmedN += s->pend.size();
    else if (r == Res::SAT) errors.push_back("the solver refutes an equality settled by rewriting");
    else confirmUnknown += s->pend.size();
    s->pend.clear();
  }
  std::map<std::string, std::string> inputValues(const MM &mm) {
    std::map<std::string, std::string> out;
    for (auto e : s->inputs) {
      auto it = mm.m.v.find(e->id);
      if (it == mm.m.v.end()) continue;
      std::string name = *e->name;
      if (e->s == Sort::R) {
        double d = it->second.q.get_d();
        // nearest double
        double up = std::nextafter(d, d < 0 ? -INFINITY : INFINITY);
        mpq_class q = it->second.q;
        if (abs(mpq_class(d2q(up) - q)) < abs(mpq_class(d2q(d) - q))) d = up;
        char b[64];
        snprintf(b, 64, "%.17g", d);
        out[name] = b;
      } else out[name] = std::to_string(sextw(it->second.u, e->s == Sort::B ? 64 : e->w));
    }
    return out;
  }
  void samplePath() { // reservoir of finished paths with one concrete input each
    if (!maxSamples) return;
    size_t at = samples.size();
    if (at >= maxSamples) {
      rng = rng * 6364136223846793005ull + 1442695040888963407ull;
      at = (rng >> 33) % (st.paths + 1);
      if (at >= maxSamples) return;
    }
    std::shared_ptr<MM> mm = s->mm;
    if (s->stale) {
      Model full;
      if (S.check(s->pc, &full, 5000) != Res::SAT) return;
      mm = overlay(*s, full);
    }
    Sample z{st.paths, s->nchecks, inputValues(*mm)};
    if (at < samples.size()) samples[at] = z; else samples.push_back(z);
  }

  static bool niceQ(const mpq_class &q) { // exactly a double, with room for products to stay exact
    const mpz_class &d = q.get_den();
    return mpz_popcount(d.get_mpz_t()) == 1 && mpz_sizeinbase(d.get_mpz_t(), 2) <= 8 && mpz_sizeinbase(q.get_num().get_mpz_t(), 2) <= 20;
  }
  // A witness with values that floating point represents exactly, where one
  // exists: path conditions that are equalities then replay as they are.
  void snap(std::shared_ptr<MM> &mm, E cond) {
    auto t0 = std::chrono::steady_clock::now();
    auto left = [&] { return 8 - std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    std::vector<E> fix, todo;
    auto nice = [&](E v) { auto it = mm->m.v.find(v->id); return it == mm->m.v.end() || niceQ(it->second.q); };
    bool any = false;
    for (auto e : s->inputs) if (e->s == Sort::R && !nice(e)) any = true;
    if (!any) return;
    for (auto e : s->inputs) {
      if (e->s != Sort::R || !mm->m.v.count(e->id)) continue;
      bool lone = true;
      for (auto c : s->pc) if (c->vars.size() > 1 && std::find(c->vars.begin(), c->vars.end(), e->id) != c->vars.end()) lone = false;
      if (cond && std::find(cond->vars.begin(), cond->vars.end(), e->id) != cond->vars.end()) lone = false;
      if (lone && nice(e)) continue;
      todo.push_back(e);
    }
    if (todo.size() > 80) return;
    std::vector<mpq_class> used;
    int asked = 0;
    for (auto e : todo) {
      any = false;
      for (auto v : todo) if (!nice(v)) any = true;
      if (!any || asked > 300) break;
      mpq_class cur = mm->m.v[e->id].q;
      std::vector<mpq_class> cand;
      for (auto &u : used) { cand.push_back(u); cand.push_back(-u); }
      if (niceQ(cur)) cand.push_back(cur);
      for (int k : {1, 4, 16}) {
        mpq_class t = cur * k + mpq_class(1, 2);
        mpz_class z;
        mpz_fdiv_q(z.get_mpz_t(), t.get_num().get_mpz_t(), t.get_den().get_mpz_t());
        mpq_class q(z, k);
        q.canonicalize();
        cand.push_back(q);
      }
      for (auto &c : cand) {
        if (left() < 0) return;
        E eq = mkEq(e, P.cr(c));
        std::vector<E> all = s->pc;
        all.insert(all.end(), fix.begin(), fix.end());
        if (cond) all.push_back(cond);
        auto cs = slice(all, eq);
        cs.push_back(eq);
        Model m;
        asked++;
        if (S.check(cs, &m, 500) != Res::SAT) continue;
        auto n = std::make_shared<MM>();
        n->m = mm->m;
        for (auto &p : m.v) n->m.v[p.first] = p.second;
        mm = n;
        fix.push_back(eq);
        if (std::find(used.begin(), used.end(), c) == used.end() && used.size() < 3 && c != 0) used.push_back(c);
        break;
      }
    }
  }
  void record(const std::string &kind, const std::string &msg, const Model *m, double margin = 0, E cond = nullptr) {
    ViolRec v;
    v.kind = kind;
    v.msg = msg;
    v.stack = where();
    for (auto &o : viols) if (o.kind == kind && o.msg == msg && (kind == "assert" || o.stack == v.stack)) {
      // one more witness of the same failure: keep up to 3
      int n = 0;
      for (auto &q : viols) if (q.kind == kind && q.msg == msg) n++;
      if (n >= 3) return;
      break;
    }
    std::shared_ptr<MM> mm = m ? overlay(*s, *m) : s->mm;
    if (!m && s->stale) {
      Model full;
      if (S.check(s->pc, &full, 20000) == Res::SAT) mm = overlay(*s, full);
    }
    snap(mm, cond);
    v.values = inputValues(*mm);
    v.margin = margin;
    if (verbose) std::cerr << "VIOL " << kind << ": " << msg << "\n   at " << v.stack << "\n";
    if (viols.empty()) firstViol = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    viols.push_back(v);
  }
  void checkCond(E c, const std::string &tag) {
    bump(tag);
    if (isC(c)) {
      st.checksConst++;
      if (!c->u) { record("assert", tag, nullptr); throw PathEnd{1}; }
      return;
    }
    Model m;
    Res r = query(*s, bNot(c), &m, checkTmo);
    if (r == Res::UNSAT) { st.checksSolver++; return; }
    if (r == Res::SAT) {
      record("assert", tag, &m, 0, bNot(c));
      if (query(*s, c, &m) == Res::UNSAT) throw PathEnd{1};
      s->pc.push_back(c);
      s->mm = overlay(*s, m);
      s->stale = !pcHolds(*s);
      return;
    }
    st.inconcl++;
    errors.push_back("solver gave up on check '" + tag + "' at " + where());
  }
  void checkNear(const Val &a, const Val &b, double tol, const std::string &tag) {
    if (a.k == UND || b.k == UND) { bump(tag); throw Violation{"uninitialised", "checked value is indeterminate: " + tag}; }
    if (a.k == BLOB || b.k == BLOB) { bump(tag); throw Violation{"uninitialised", "checked value is partly indeterminate: " + tag}; }
    if (!finite(a) || !finite(b)) {
      bool eq = a.k == FLT && b.k == FLT && !std::isfinite(a.d) && !std::isfinite(b.d) && ((std::isnan(a.d) && std::isnan(b.d)) || a.d == b.d);
      bump(tag);
      st.checksConst++;
      if (!eq) { record("assert", tag, nullptr); throw PathEnd{1}; }
      return;
    }
    E x = toE(a), y = toE(b);
    if (tol > 0) {
      E d = rSub(x, y), t = P.cr(d2q(tol));
      checkCond(bAnd(rLe(d, t), rLe(rNeg(t), d)), tag);
      return;
    }
    if (x == y) {
      bump(tag);
      if (isC(x)) st.checksConst++; else { st.checksTerm++; toConfirm(x, y); }
      return;
    }
    auto key = std::make_pair(std::min(x->id, y->id), std::max(x->id, y->id));
    if (provedEq.count(key)) { bump(tag); st.checksSolver++; return; }
    bump(tag);
    RF r = ratio(rSub(x, y));
    if (isC(r.n)) {
      if (*r.n->q == 0) { st.checksTerm++; toConfirm(x, y); return; }
    } else {
      Res q = S.checkZero(r.n, 4000);
      if (q == Res::UNSAT) { st.checksSolver++; provedEq.insert(key); return; }
    }
    // with the path condition; first look for a robust difference
    E d = rSub(x, y);
    auto far = [&](double m) { E t = P.cr(d2q(m)); return bOr(rLt(t, d), rLt(d, rNeg(t))); };
    Model m;
    bool unk = false;
    for (double mg : {1e-2, 1e-5, 1e-9}) {
      Res q = query(*s, far(mg), &m, mg > 1e-3 ? 20000 : checkTmo);
      if (q == Res::SAT) {
        record("assert", tag, &m, mg, far(mg));
        throw PathEnd{1};
      }
      if (q == Res::UNKNOWN) unk = true; else unk = false;
    }
    if (!unk) { // |x-y| <= 1e-9 for all values
      st.checksSolver++;
      if (query(*s, bNot(mkEq(x, y)), &m, 5000) != Res::UNSAT) st.checksTol++;
      return;
    }
    st.inconcl++;
    errors.push_back("solver gave up on equality '" + tag + "' at " + where());
  }

  // ---------------------------------------------------------- calls
#include "calls.inc"

  void pushFrame(Function *F, const std::vector<Val> &args, int callIp) {
    DF *d = decode(F);
    if (s->st.size() > 2000) throw Violation{"memory", "stack overflow (recursion)"};
    s->st.emplace_back();
    Frame &f = s->st.back();
    f.f = d;
    f.ip = 0;
    f.r.resize(d->nregs);
    f.callIp = callIp;
    for (unsigned i = 0; i < F->arg_size(); i++) if (i < args.size()) f.r[i] = args[i];
    for (unsigned i = F->arg_size(); i < args.size(); i++) f.varargs.push_back(args[i]);
  }
  void popFrame() {
    for (auto a : top().allocas) s->mem.erase(a);
    s->st.pop_back();
  }
  void jump(const BasicBlock *from, const BasicBlock *to) {
    Frame &f = top();
    f.prev = from;
    f.ip = f.f->bb[to];
    // phis in parallel
    std::vector<std::pair<int, Val>> w;
    int ip = f.ip;
    while (f.f->code[ip].opc == Instruction::PHI) {
      DI &d = f.f->code[ip];
      if (!d.covered) note(d);
      auto *ph = cast<PHINode>(d.I);
      int k = ph->getBasicBlockIndex(from);
      w.emplace_back(d.dst, op(d, k));
      ip++;
    }
    for (auto &p : w) f.r[p.first] = std::move(p.second);
    f.ip = ip;
  }
  // deliver an exception: find the handler
  void doThrow(uint64_t exObj) {
    s->curExc = exObj;
    uint64_t ti = s->exc[exObj].ti;
    // phase 1
    bool found = false;
    for (int i = (int)s->st.size() - 1; i >= 0 && !found; --i) {
      Frame &f = s->st[i];
      Instruction *I = f.f->code[f.ip].I;
      if (auto *inv = dyn_cast<InvokeInst>(I)) {
        auto *lp = inv->getLandingPadInst();
        for (unsigned c = 0; c < lp->getNumClauses(); c++) {
          if (lp->isCatch(c) && catches(lp->getClause(c), ti)) found = true;
          if (lp->isFilter(c)) found = true;
        }
      }
      if (!found && f.f->F->hasFnAttribute(Attribute::NoUnwind) && false) break;
    }
    if (!found) throw Violation{"exception", "uncaught exception of type " + tiName(ti) + " " + excText(exObj)};
    unwindFrom();
  }
  void unwindFrom() {
    uint64_t ti = s->exc[s->curExc].ti;
    while (!s->st.empty()) {
      Frame &f = top();
      Instruction *I = f.f->code[f.ip].I;
      if (auto *inv = dyn_cast<InvokeInst>(I)) {
        auto *lp = inv->getLandingPadInst();
        int sel = -1;
        for (unsigned c = 0; c < lp->getNumClauses() && sel < 0; c++) {
          if (lp->isCatch(c)) {
            if (catches(lp->getClause(c), ti)) {
              auto *g = lp->getClause(c)->stripPointerCasts();
              uint64_t a = isa<ConstantPointerNull>(g) ? 0 : addrOf(cast<GlobalValue>(g));
              sel = typeId(a);
            }
          } else {
            throw Violation{"exception", "exception " + tiName(ti) + " escapes a noexcept or filtered function"};
          }
        }
        if (sel < 0 && lp->isCleanup()) sel = 0;
        if (sel >= 0) {
          jump(inv->getParent(), inv->getUnwindDest());
          DI &ld = top().f->code[top().ip];
          if (ld.opc != Instruction::LandingPad) unsup("landingpad expected");
          Val v = vAgg(2);
          (*v.a)[0] = vP(s->curExc);
          (*v.a)[1] = vI(sel, 32);
          set(ld, v);
          top().ip++;
          return;
        }
      }
      popFrame();
    }
    throw Violation{"exception", "uncaught exception"};
  }
  std::map<uint64_t, int> typeIds;
  int typeId(uint64_t a) {
    auto it = typeIds.find(a);
    if (it != typeIds.end()) return it->second;
    int n = typeIds.size() + 1;
    return typeIds[a] = n;
  }
  std::map<uint64_t, GlobalVariable *> gvByAddr;
  GlobalVariable *gvAt(uint64_t a) {
    if (gvByAddr.empty()) for (auto &g : M->globals()) gvByAddr[gaddr[&g]] = &g;
    auto it = gvByAddr.find(a);
    return it == gvByAddr.end() ? nullptr : it->second;
  }
  std::string tiName(uint64_t ti) {
    auto *g = gvAt(ti);
    return g ? demangle(g->getName().str()) : "?";
  }
  // base classes of a typeinfo: (typeinfo, offset)
  std::vector<std::pair<uint64_t, int64_t>> tiBases(uint64_t ti) {
    std::vector<std::pair<uint64_t, int64_t>> r;
    auto *g = gvAt(ti);
    if (!g || g->isDeclaration() || !g->getInitializer()) return r;
    Constant *I = g->getInitializer();
    if (I->getNumOperands() == 3) r.push_back({constVal(cast<Constant>(I->getOperand(2))).u, 0});
    else if (I->getNumOperands() > 4) {
      unsigned n = cast<ConstantInt>(I->getOperand(3))->getZExtValue();
      for (unsigned i = 0; i < n; i++) {
        uint64_t b = constVal(cast<Constant>(I->getOperand(4 + 2 * i))).u;
        int64_t fl = cast<ConstantInt>(I->getOperand(5 + 2 * i))->getSExtValue();
        r.push_back({b, fl >> 8});
      }
    }
    return r;
  }
  bool isSub(uint64_t ti, uint64_t base, int64_t *off = nullptr) {
    if (ti == base) { if (off) *off = 0; return true; }
    for (auto &b : tiBases(ti)) {
      int64_t o = 0;
      if (isSub(b.first, base, &o)) { if (off) *off = o + b.second; return true; }
    }
    return false;
  }
  bool catches(Constant *cl, uint64_t ti) {
    cl = cl->stripPointerCasts();
    if (isa<ConstantPointerNull>(cl)) return true;
    return isSub(ti, addrOf(cast<GlobalValue>(cl)));
  }
  std::string excText(uint64_t) { return ""; }

  void ret(const Val *v) {
    int cip = top().callIp;
    popFrame();
    if (s->st.empty() || cip < 0) return;
    DI &d = top().f->code[cip];
    if (v && d.dst >= 0) top().r[d.dst] = *v;
    if (auto *inv = dyn_cast<InvokeInst>(d.I)) jump(inv->getParent(), inv->getNormalDest());
    else top().ip = cip + 1;
  }

  void step() {
    Frame &f = top();
    DI &d = f.f->code[f.ip];
    if (!d.covered) note(d);
    st.instrs++;
    Instruction *I = d.I;
    switch (d.opc) {
    case Instruction::Ret: {
      if (I->getNumOperands()) { Val v = op(d, 0); ret(&v); } else ret(nullptr);
      return;
    }
    case Instruction::Br: {
      auto *b = cast<BranchInst>(I);
      if (b->isUnconditional()) { jump(b->getParent(), b->getSuccessor(0)); return; }
      bool c = decideVal(op(d, 0), "branch");
      jump(b->getParent(), b->getSuccessor(c ? 0 : 1));
      return;
    }
    case Instruction::Switch: {
      auto *sw = cast<SwitchInst>(I);
      uint64_t v;
      const Val &c = op(d, 0);
      if (c.k == SYM && c.e->s == Sort::V) {
        // one decision per case, then the default
        for (auto &cs : sw->cases())
          if (decide(mkEq(c.e, P.cbv(cs.getCaseValue()->getZExtValue(), c.e->w)))) { jump(sw->getParent(), cs.getCaseSuccessor()); return; }
        jump(sw->getParent(), sw->getDefaultDest());
        return;
      }
      v = concInt(c, "switch condition");
      const BasicBlock *to = sw->getDefaultDest();
      for (auto &cs : sw->cases()) if (cs.getCaseValue()->getZExtValue() == v) { to = cs.getCaseSuccessor(); break; }
      jump(sw->getParent(), to);
      return;
    }
    case Instruction::Unreachable:
      throw Violation{"ub", "execution reached code the language rules out (undefined behaviour)"};
    case Instruction::Invoke:
    case Instruction::Call:
      call(d);
      return;
    case Instruction::Resume: {
      popFrame();
      unwindFrom();
      return;
    }
    case Instruction::Alloca: {
      auto *a = cast<AllocaInst>(I);
      uint64_t n = DL->getTypeAllocSize(a->getAllocatedType());
      n *= concInt(op(d, 0), "stack allocation size");
      auto o = mkObj(*s, n, STACK, "stack object");
      top().allocas.push_back(o->base);
      set(d, vP(o->base));
      break;
    }
    case Instruction::Load: {
      uint64_t a = concInt(op(d, 0), "address");
      set(d, load(d.ty, a));
      break;
    }
    case Instruction::Store: {
      uint64_t a = concInt(op(d, 1), "address");
      store(I->getOperand(0)->getType(), a, op(d, 0));
      break;
    }
    case Instruction::GetElementPtr: {
      auto *g = cast<GetElementPtrInst>(I);
      const Val &b = op(d, 0);
      if (b.k == UND) { set(d, Val()); break; }
      uint64_t a = concInt(b, "address");
      unsigned i = 1;
      bool und = false;
      for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it, ++i) {
        const Val &x = op(d, i);
        if (StructType *stt = it.getStructTypeOrNull()) {
          a += DL->getStructLayout(stt)->getElementOffset(x.u);
        } else {
          if (x.k == UND) { und = true; break; }
          uint64_t ix = concInt(x, "index");
          a += (uint64_t)sextw(ix, x.k == INT ? x.w : x.e->w) * DL->getTypeAllocSize(it.getIndexedType());
        }
      }
      set(d, und ? Val() : vP(a));
      break;
    }
    case Instruction::FNeg: {
      const Val &a = op(d, 0);
      set(d, a.k == UND ? a : a.k == FLT ? vF(-a.d) : vE(rNeg(a.e)));
      break;
    }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
      if (d.ty->isVectorTy()) {
        Val v = vAgg(op(d, 0).a->size());
        for (size_t i = 0; i < v.a->size(); i++) (*v.a)[i] = fbin(d.opc, (*op(d, 0).a)[i], (*op(d, 1).a)[i]);
        set(d, v);
        break;
      }
      set(d, fbin(d.opc, op(d, 0), op(d, 1)));
      break;
    }
    case Instruction::FCmp: set(d, fcmp(cast<CmpInst>(I)->getPredicate(), op(d, 0), op(d, 1))); break;
    case Instruction::ICmp: {
      Type *t = I->getOperand(0)->getType();
      set(d, icmp(cast<CmpInst>(I)->getPredicate(), op(d, 0), op(d, 1), t->isIntegerTy() ? t->getIntegerBitWidth() : 64));
      break;
    }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
    case Instruction::URem: case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
    case Instruction::And: case Instruction::Or: case Instruction::Xor:
      if (d.ty->isVectorTy()) {
        Val v = vAgg(op(d, 0).a->size());
        for (size_t i = 0; i < v.a->size(); i++) (*v.a)[i] = ibin(d.opc, (*op(d, 0).a)[i], (*op(d, 1).a)[i], d.ty->getScalarSizeInBits());
        set(d, v);
        break;
      }
      set(d, ibin(d.opc, op(d, 0), op(d, 1), d.ty->getIntegerBitWidth()));
      break;
    case Instruction::Select: {
      const Val &c = op(d, 0);
      if (I->getOperand(0)->getType()->isVectorTy()) unsup("vector select");
      if (c.k == UND) {
        // selecting between equal values is harmless
        const Val &a = op(d, 1), &b = op(d, 2);
        if (a.k == INT && b.k == INT && a.u == b.u) { set(d, a); break; }
        if (d.ty->isIntegerTy(1)) { set(d, Val()); break; }
        set(d, Val());
        break;
      }
      set(d, selectV(c, op(d, 1), op(d, 2), d.ty));
      break;
    }
    case Instruction::Trunc: {
      const Val &a = op(d, 0);
      unsigned w = d.ty->getIntegerBitWidth();
      if (a.k == INT) set(d, vI(a.u, w));
      else if (a.k == UND) set(d, a);
      else if (a.k == BLOB) {
        unsigned n = w / 8;
        Val v; v.k = BLOB; v.a = std::make_shared<std::vector<Val>>(a.a->begin(), a.a->begin() + n);
        bool conc = true, und = false;
        for (auto &x : *v.a) { if (x.k != INT) conc = false; if (x.k == UND) und = true; }
        if (conc && n <= 8) { uint64_t u = 0; for (unsigned i = 0; i < n; i++) u |= (*v.a)[i].u << (8 * i); set(d, vI(u, w)); }
        else if (und && n == 1) set(d, Val());
        else set(d, v);
      }
      else {
        if (a.e->s == Sort::R) unsup("trunc of floating-point bits");
        E x = vExtract(a.e, 0, w);
        if (w == 1) x = isC(x) ? P.cb(x->u) : mkEq(x, P.cbv(1, 1));
        set(d, vE(x));
      }
      break;
    }
    case Instruction::ZExt: case Instruction::SExt: {
      const Val &a = op(d, 0);
      unsigned w = d.ty->getIntegerBitWidth();
      unsigned iw = I->getOperand(0)->getType()->getIntegerBitWidth();
      if (w > 64) {
        if (a.k != INT || (d.opc == Instruction::SExt && sextw(a.u, iw) < 0)) unsup("wide extension");
        Val v; v.k = BLOB; v.a = std::make_shared<std::vector<Val>>(w / 8);
        for (unsigned i = 0; i < w / 8; i++) (*v.a)[i] = vI(i < 8 ? a.u >> (8 * i) : 0, 8);
        set(d, v);
        break;
      }
      if (a.k == INT) set(d, vI(d.opc == Instruction::ZExt ? a.u : (uint64_t)sextw(a.u, iw), w));
      else if (a.k == UND || a.k == BLOB) set(d, Val());
      else set(d, vE(d.opc == Instruction::ZExt ? vZext(a.e, w) : vSext(a.e, w)));
      break;
    }
    case Instruction::FPExt: case Instruction::FPTrunc: {
      const Val &a = op(d, 0);
      if (a.k == FLT && d.opc == Instruction::FPTrunc) set(d, vF((float)a.d));
      else set(d, a);
      break;
    }
    case Instruction::SIToFP: case Instruction::UIToFP: {
      const Val &a = op(d, 0);
      bool sg = d.opc == Instruction::SIToFP;
      if (a.k == UND || a.k == BLOB) { set(d, Val()); break; }
      unsigned iw = I->getOperand(0)->getType()->getIntegerBitWidth();
      if (a.k == INT) set(d, vE(i2r(P.cbv(a.u, iw == 1 ? 1 : iw), sg)));
      else set(d, vE(i2r(a.e, sg)));
      break;
    }
    case Instruction::FPToSI: case Instruction::FPToUI: set(d, fpToInt(op(d, 0), d.ty->getIntegerBitWidth(), d.opc == Instruction::FPToSI)); break;
    case Instruction::BitCast: {
      const Val &a = op(d, 0);
      Type *st_ = I->getOperand(0)->getType(), *dt = d.ty;
      if (st_->isFloatingPointTy() && dt->isIntegerTy()) {
        if (a.k == FLT) { uint64_t u; memcpy(&u, &a.d, 8); set(d, vI(u, 64)); }
        else set(d, a);
      } else if (st_->isIntegerTy() && dt->isFloatingPointTy()) {
        if (a.k == INT) { double x; memcpy(&x, &a.u, 8); set(d, vF(x)); }
        else set(d, a);
      } else if (st_->isVectorTy() || dt->isVectorTy()) {
        if (st_ == dt) set(d, a); else unsup("vector bitcast");
      } else set(d, a);
      break;
    }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
      const Val &a = op(d, 0);
      if (a.k == INT && d.ty->isIntegerTy()) set(d, vI(a.u, d.ty->getIntegerBitWidth()));
      else set(d, a);
      break;
    }
    case Instruction::ExtractValue: {
      auto *ev = cast<ExtractValueInst>(I);
      Val v = op(d, 0);
      for (auto ix : ev->indices()) { if (v.k != AGG) { v = Val(); break; } Val t = (*v.a)[ix]; v = t; }
      set(d, v);
      break;
    }
    case Instruction::InsertValue: {
      auto *iv = cast<InsertValueInst>(I);
      Val v = op(d, 0);
      if (v.k != AGG) {
        Type *t = d.ty;
        v = vAgg(t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements());
      }
      v.a = std::make_shared<std::vector<Val>>(*v.a);
      Val *p = &v;
      Type *t = d.ty;
      for (unsigned q = 0; q < iv->getNumIndices(); q++) {
        unsigned ix = iv->getIndices()[q];
        if (q > 0) {
          if (p->k != AGG) *p = vAgg(t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements());
          else p->a = std::make_shared<std::vector<Val>>(*p->a);
        }
        t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType();
        p = &(*p->a)[ix];
      }
      *p = op(d, 1);
      set(d, v);
      break;
    }
    case Instruction::ExtractElement: {
      const Val &v = op(d, 0);
      if (v.k != AGG) { set(d, Val()); break; }
      set(d, (*v.a)[concInt(op(d, 1), "vector index")]);
      break;
    }
    case Instruction::InsertElement: {
      Val v = op(d, 0);
      if (v.k != AGG) v = vAgg(cast<FixedVectorType>(d.ty)->getNumElements());
      else v.a = std::make_shared<std::vector<Val>>(*v.a);
      (*v.a)[concInt(op(d, 2), "vector index")] = op(d, 1);
      set(d, v);
      break;
    }
    case Instruction::ShuffleVector: {
      auto *sv = cast<ShuffleVectorInst>(I);
      auto m = sv->getShuffleMask();
      unsigned n1 = cast<FixedVectorType>(I->getOperand(0)->getType())->getNumElements();
      Val v = vAgg(m.size());
      for (size_t i = 0; i < m.size(); i++) {
        if (m[i] < 0) continue;
        const Val &src = (unsigned)m[i] < n1 ? op(d, 0) : op(d, 1);
        if (src.k == AGG) (*v.a)[i] = (*src.a)[m[i] % n1];
      }
      set(d, v);
      break;
    }
    case Instruction::Freeze: set(d, op(d, 0)); break;
    case Instruction::AtomicRMW: {
      auto *a = cast<AtomicRMWInst>(I);
      uint64_t ad = concInt(op(d, 0), "address");
      Val old = load(d.ty, ad), nv;
      unsigned w = d.ty->isIntegerTy() ? d.ty->getIntegerBitWidth() : 64;
      switch (a->getOperation()) {
      case AtomicRMWInst::Add: nv = ibin(Instruction::Add, old, op(d, 1), w); break;
      case AtomicRMWInst::Sub: nv = ibin(Instruction::Sub, old, op(d, 1), w); break;
      case AtomicRMWInst::Xchg: nv = op(d, 1); break;
      default: unsup("atomicrmw");
      }
      store(d.ty, ad, nv);
      set(d, old);
      break;
    }
    case Instruction::AtomicCmpXchg: {
      uint64_t ad = concInt(op(d, 0), "address");
      Type *t = I->getOperand(1)->getType();
      Val old = load(t, ad);
      Val eq = icmp(CmpInst::ICMP_EQ, old, op(d, 1), t->isIntegerTy() ? t->getIntegerBitWidth() : 64);
      bool b = decideVal(eq, "cmpxchg");
      if (b) store(t, ad, op(d, 2));
      Val v = vAgg(2);
      (*v.a)[0] = old;
      (*v.a)[1] = vI(b, 1);
      set(d, v);
      break;
    }
    case Instruction::Fence: break;
    case Instruction::PHI: unsup("phi at block entry");
    default: unsup(std::string("instruction ") + I->getOpcodeName());
    }
    top().ip++;
  }

  void runState(State *x) {
    s = x;
    try {
      uint64_t n = 0;
      while (true) {
        if (s->st.empty()) { if (!nextPhase()) throw PathEnd{0}; continue; }
        step();
        if ((++n & 0xfffff) == 0) {
          double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
          if (!viols.empty() && el > firstViol + 40) { limitHit = true; throw PathEnd{2}; }
          if (el > maxSecs || st.instrs > maxInstr) { limitHit = true; throw PathEnd{2}; }
        }
      }
    } catch (PathEnd &p) {
      if (p.kind == 0) { confirmPath(); samplePath(); st.paths++; }
      else { confirmPath(); st.killed++; }
    } catch (Violation &v) {
      bool feasible = true;
      if (s->stale) { Model m; feasible = S.check(s->pc, &m, 20000) != Res::UNSAT; }
      if (feasible) record(v.kind, v.msg, nullptr);
      st.killed++;
    } catch (Unsupported &u) {
      errors.push_back("unsupported: " + u.what + " at " + where());
      st.killed++;
      if (verbose) {
        std::cerr << errors.back() << "\n";
        if (!s->st.empty()) { Frame &f = top(); std::string str; raw_string_ostream os(str); f.f->code[f.ip].I->print(os); std::cerr << os.str() << "\n"; }
      }
    } catch (EvalFail &) {
      errors.push_back("model evaluation failed at " + where());
      st.killed++;
    }
    delete x;
    s = nullptr;
  }
  std::vector<Function *> ctors;
  size_t ctorIdx = 0;
  // phases: run global constructors, then sx_main, then atexit handlers
  bool nextPhase() {
    if (s->phase < (int)ctors.size()) { pushFrame(ctors[s->phase++], {}, -1); return true; }
    if (s->phase == (int)ctors.size()) {
      s->phase++;
      Function *F = M->getFunction("sx_main");
      if (!F) unsup("no sx_main");
      pushFrame(F, {}, -1);
      return true;
    }
    if (!s->atexit.empty()) {
      auto p = s->atexit.back();
      s->atexit.pop_back();
      auto it = faddr.find(p.first);
      if (it != faddr.end() && !it->second->isDeclaration()) { pushFrame(it->second, {vP(p.second)}, -1); return true; }
      return true;
    }
    return false;
  }

  void loadModule(const std::vector<std::string> &files) {
    SMDiagnostic err;
    for (auto &fn : files) {
      auto m = parseIRFile(fn, err, C);
      if (!m) { err.print("sx", errs()); exit(3); }
      if (!M) M = std::move(m);
      else if (Linker::linkModules(*M, std::move(m))) { std::cerr << "link failed\n"; exit(3); }
    }
    for (auto &F : *M) {
      if (F.getLinkage() == GlobalValue::AvailableExternallyLinkage) {
        std::string n = demangle(F.getName().str());
        bool io = false;
        for (auto w : {"ostream", "istream", "iostream", "stringstream", "stringbuf", "streambuf", "ios_base", "basic_ios", "locale", "ctype", "std::endl", "std::flush"}) if (n.find(w) != std::string::npos) io = true;
        if (io) F.deleteBody(); else F.setLinkage(GlobalValue::LinkOnceODRLinkage);
      }
      F.removeFnAttr("stack-protector");
      if (F.getName().contains("12print_matrix") && !F.isDeclaration()) F.deleteBody(); // text of a matrix: not modelled
    }
    for (auto &g : M->globals())
      if (g.getLinkage() == GlobalValue::AvailableExternallyLinkage) { g.setInitializer(nullptr); g.setLinkage(GlobalValue::ExternalLinkage); }
    internalizeModule(*M, [](const GlobalValue &g) { return g.getName() == "sx_main" || g.getName().starts_with("llvm.") || g.getName() == "sx_clock_ns" || g.getName().starts_with("sxrt_"); });
    LoopAnalysisManager LAM;
    FunctionAnalysisManager FAM;
    CGSCCAnalysisManager CGAM;
    ModuleAnalysisManager MAM;
    PipelineTuningOptions pto;
    pto.LoopVectorization = pto.SLPVectorization = pto.LoopUnrolling = pto.LoopInterleaving = false;
    PassBuilder PB(nullptr, pto);
    PB.registerModuleAnalyses(MAM);
    PB.registerCGSCCAnalyses(CGAM);
    PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    auto MPM = PB.buildPerModuleDefaultPipeline(OptimizationLevel::O1);
    MPM.run(*M, MAM);
    DL = &M->getDataLayout();
    if (auto *g = M->getGlobalVariable("llvm.global_ctors")) {
      std::vector<std::pair<uint64_t, Function *>> v;
      if (g->hasInitializer()) if (auto *ca = dyn_cast<ConstantArray>(g->getInitializer()))
        for (auto &o : ca->operands()) {
          auto *cs = cast<ConstantStruct>(o);
          if (auto *F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), F});
        }
      std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
      for (auto &p : v) ctors.push_back(p.second);
    }
  }
  int run() {
    State *x = new State;
    x->mm = std::make_shared<MM>();
    setupGlobals(*x);
    x->nextAddr += 4096;
    work.push_back(x);
    while (!work.empty()) {
      double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
      if (el > maxSecs || st.paths + st.killed > maxPaths) { limitHit = true; break; }
      if (viols.size() >= maxViol || errors.size() > 10) break;
      if (!viols.empty() && el > firstViol + 25) { limitHit = true; break; } // a violation is enough
      State *n = work.back();
      work.pop_back();
      runState(n);
    }
    return 0;
  }
  void report(const std::string &fn) {
    std::ofstream o(fn);
    double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    o << "{\"paths\":" << st.paths << ",\"killed\":" << st.killed << ",\"instrs\":" << st.instrs << ",\"forks\":" << st.forks
      << ",\"checks\":" << st.checks << ",\"checks_concrete\":" << st.checksConst << ",\"checks_same_term\":" << st.checksTerm << ",\"obligations\":" << obligations << ",\"confirmed\":" << confirmedN << ",\"confirm_unknown\":" << confirmUnknown << ",\"checks_by_solver\":" << st.checksSolver
      << ",\"checks_within_1e-9\":" << st.checksTol << ",\"inconclusive\":" << st.inconcl << ",\"unknown_branches\":" << st.unkBranch
      << ",\"queries\":" << S.st.queries << ",\"sat\":" << S.st.sat << ",\"unsat\":" << S.st.unsat << ",\"unknown\":" << S.st.unknown
      << ",\"solver_s\":" << S.st.secs << ",\"solver_max_s\":" << S.st.maxSecs << ",\"wall_s\":" << el << ",\"limit\":" << (limitHit ? "true" : "false")
      << ",\"pending\":" << work.size();
    o << ",\"covers\":[";
    bool f = true;
    for (auto &c : st.covers) { o << (f ? "" : ",") << '"' << jesc(c) << '"'; f = false; }
    o << "],\"errors\":[";
    f = true;
    for (auto &c : errors) { o << (f ? "" : ",") << '"' << jesc(c) << '"'; f = false; }
    o << "],\"functions\":[";
    f = true;
    for (auto &c : st.funcs) { o << (f ? "" : ",") << '"' << jesc(c) << '"'; f = false; }
    o << "],\"tags\":{";
    f = true;
    for (auto &c : st.tags) { o << (f ? "" : ",") << '"' << jesc(c.first) << "\":" << c.second; f = false; }
    o << "},\"ignored_externals\":[";
    f = true;
    for (auto &c : st.ignoredExt) { o << (f ? "" : ",") << '"' << jesc(c) << '"'; f = false; }
    o << "],\"lines\":{";
    f = true;
    for (auto &c : st.lines) { o << (f ? "" : ",") << '"' << jesc(c.first) << "\":" << c.second.size(); f = false; }
    o << "},\"violations\":[";
    f = true;
    for (auto &v : viols) {
      o << (f ? "" : ",") << "{\"kind\":\"" << jesc(v.kind) << "\",\"msg\":\"" << jesc(v.msg) << "\",\"stack\":\"" << jesc(v.stack) << "\",\"margin\":" << v.margin << ",\"values\":{";
      bool g = true;
      for (auto &p : v.values) { o << (g ? "" : ",") << '"' << jesc(p.first) << "\":\"" << jesc(p.second) << '"'; g = false; }
      o << "}}";
      f = false;
    }
    o << "],\"samples\":[";
    f = true;
    for (auto &v : samples) {
      o << (f ? "" : ",") << "{\"path\":" << v.path << ",\"checks\":" << v.checks << ",\"values\":{";
      bool g = true;
      for (auto &p : v.values) { o << (g ? "" : ",") << '"' << jesc(p.first) << "\":\"" << jesc(p.second) << '"'; g = false; }
      o << "}}";
      f = false;
    }
    o << "]}\n";
  }
};

int main(int argc, char **argv) {
  Exec X;
  std::vector<std::string> files;
  std::string out = "sx.json";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "-o") out = argv[++i];
    else if (a == "-v") X.verbose = true;
    else if (a == "--max-secs") X.maxSecs = atof(argv[++i]);
    else if (a == "--check-tmo") X.checkTmo = atoi(argv[++i]);
    else if (a == "--dump") { X.S.dumpDir = argv[++i]; X.S.dumpMax = atoi(argv[++i]); }
    else if (a == "--tags") X.onlyRe = argv[++i];
    else if (a == "--samples") X.maxSamples = atoi(argv[++i]);
    else if (a == "--seed") X.rng = 2 * strtoull(argv[++i], nullptr, 10) + 1;
    else if (a == "--max-viol") X.maxViol = atoi(argv[++i]);
    else files.push_back(a);
  }
  try {
    X.loadModule(files);
    X.run();
  } catch (Unsupported &u) { X.errors.push_back("setup: " + u.what); }
  X.report(out);
  if (!X.viols.empty()) _exit(1);
  if (!X.errors.empty() || X.limitHit || X.st.inconcl) _exit(2);
  _exit(0);
}
