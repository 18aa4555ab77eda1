// ntcsym: symbolic executor for LLVM bitcode (bit-precise, path-forking, z3 back end).
#include "expr.hh"

#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/DebugInfoMetadata.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace llvm;
using sym::E;
using sym::Model;

static double now() {
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}

// ------------------------------------------------------------------------------------------------
// Options and statistics
// ------------------------------------------------------------------------------------------------
struct Options {
  std::string file, entry = "harness", out = "out.json";
  std::map<std::string, long long> params;
  unsigned jobs = 1;
  double budget = 600;           // seconds, wall
  unsigned solverMs = 60000;     // per query
  uint64_t maxSteps = 5000000;   // instructions per path
  unsigned split = 256;          // frontier size before forking workers
  unsigned samples = 4;          // path models kept per worker
  std::string concrete;          // replay file: run on concrete inputs
  unsigned maxEnum = 70000;
  bool verbose = false;
} opt;

struct Stats {
  uint64_t paths = 0, steps = 0, forks = 0, assumed_away = 0;
  uint64_t q_interval = 0, q_total = 0, q_sat = 0, q_unsat = 0, q_unknown = 0, q_cache = 0;
  uint64_t checks = 0, checks_solver = 0, checks_folded = 0, memchecks = 0;
  double solver_s = 0, solver_max = 0;
  std::map<std::string, uint64_t> covers;
  std::map<std::string, uint64_t> checkMsgs;
  std::set<std::string> inconclusive;
} st;

struct Shared {     // between workers
  std::atomic<uint64_t> next;
  std::atomic<int> stop;
  std::atomic<unsigned> nviol;
};
static Shared* sh;
static double t0;

// ------------------------------------------------------------------------------------------------
// Solver
// ------------------------------------------------------------------------------------------------
static bool hasFP(const std::vector<E>& v) {
  std::vector<E> todo(v); std::set<E> seen;
  while (!todo.empty()) {
    E e = todo.back(); todo.pop_back();
    if (!e || !seen.insert(e).second) continue;
    if (e->k >= sym::FAdd) return true;
    todo.push_back(e->a); todo.push_back(e->b); todo.push_back(e->d);
  }
  return false;
}
struct Solver {
  Z3_context ctx;
  Solver() {
    Z3_config c = Z3_mk_config();
    ctx = Z3_mk_context(c);   // ASTs live as long as the context (they are memoised anyway)
    Z3_del_config(c);
    Z3_set_error_handler(ctx, [](Z3_context c, Z3_error_code e) {
      fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
      _exit(3);
    });
  }
  enum R { SAT, UNSAT, UNKNOWN };
  struct Entry { R r; std::vector<std::pair<uint32_t, uint64_t>> m; };
  struct H { size_t operator()(const std::pair<uint64_t, uint64_t>& p) const { return p.first ^ (p.second * 31); } };
  std::unordered_map<std::pair<uint64_t, uint64_t>, Entry, H> cache;

  R check(const std::vector<E>& cs, E q, std::vector<std::pair<uint32_t, uint64_t>>* out) {
    if (q->k == sym::Const) { if (!q->c) return UNSAT; }
    // independence slicing
    std::set<uint32_t> vs(sym::varsOf(q).begin(), sym::varsOf(q).end());
    std::vector<char> in(cs.size(), 0);
    std::vector<E> sl{q};
    bool ch = true;
    while (ch) {
      ch = false;
      for (size_t i = 0; i < cs.size(); ++i) {
        if (in[i]) continue;
        const auto& v = sym::varsOf(cs[i]);
        bool hit = false;
        for (auto x : v) if (vs.count(x)) { hit = true; break; }
        if (hit) { in[i] = 1; ch = true; sl.push_back(cs[i]); vs.insert(v.begin(), v.end()); }
      }
    }
    std::vector<uint32_t> ids;
    for (E e : sl) ids.push_back(e->id);
    std::sort(ids.begin(), ids.end());
    ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
    uint64_t h1 = 1469598103934665603ull, h2 = 0x9e3779b97f4a7c15ull;
    for (auto i : ids) { h1 = (h1 ^ i) * 1099511628211ull; h2 = (h2 + i) * 0xff51afd7ed558ccdull; h2 ^= h2 >> 33; }
    auto key = std::make_pair(h1, h2);
    ++st.q_total;
    auto it = cache.find(key);
    if (it != cache.end()) {
      ++st.q_cache;
      if (out && it->second.r == SAT) *out = it->second.m;
      return it->second.r;
    }
    double t = now();
    Z3_solver s = nullptr;
    Z3_lbool r = Z3_L_UNDEF;
    // A light incremental solver first; the full bit-vector strategy for what it can't answer at once.
    for (int stage = 0; stage < 2 && r == Z3_L_UNDEF; ++stage) {
      if (s) Z3_solver_dec_ref(ctx, s);
      if (stage == 1) {
        Z3_tactic tc = Z3_mk_tactic(ctx, hasFP(sl) ? "qffpbv" : "qfbv");
        Z3_tactic_inc_ref(ctx, tc);
        s = Z3_mk_solver_from_tactic(ctx, tc);
        Z3_solver_inc_ref(ctx, s);
        Z3_tactic_dec_ref(ctx, tc);
      } else {
        s = Z3_mk_simple_solver(ctx);
        Z3_solver_inc_ref(ctx, s);
      }
      Z3_params p = Z3_mk_params(ctx);
      Z3_params_inc_ref(ctx, p);
      const double left = std::max(0.5, opt.budget - (now() - t0));
      const double cap = stage == 0 ? 1500 : opt.solverMs;
      Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), (unsigned)std::min<double>(cap, left * 1000));
      Z3_solver_set_params(ctx, s, p);
      Z3_params_dec_ref(ctx, p);
      Z3_sort b1 = Z3_mk_bv_sort(ctx, 1);
      for (E e : sl) Z3_solver_assert(ctx, s, Z3_mk_eq(ctx, sym::toZ3(ctx, e), Z3_mk_unsigned_int64(ctx, 1, b1)));
      r = Z3_solver_check(ctx, s);
    }
    Entry en;
    if (r == Z3_L_TRUE) {
      en.r = SAT; ++st.q_sat;
      Z3_model m = Z3_solver_get_model(ctx, s);
      Z3_model_inc_ref(ctx, m);
      for (auto v : vs) {
        Z3_ast val = nullptr;
        E ve = sym::mkVar(sym::varName(v), sym::varWidth(v));
        uint64_t x = 0;
        if (Z3_model_eval(ctx, m, sym::toZ3(ctx, ve), true, &val) && val && Z3_get_numeral_uint64(ctx, val, &x))
          en.m.emplace_back(v, x);
        else
          en.m.emplace_back(v, 0);
      }
      Z3_model_dec_ref(ctx, m);
      // self check: the model must satisfy the query under our own evaluator
      Model mm(sym::nbVars(), 0);
      for (auto& kv : en.m) mm[kv.first] = kv.second;
      static uint64_t g = 1ull << 62;
      ++g;
      for (E e : sl) if (!sym::evalExpr(e, mm, g)) { st.inconclusive.insert("model self-check failed"); en.r = UNKNOWN; break; }
    }
    else if (r == Z3_L_FALSE) { en.r = UNSAT; ++st.q_unsat; }
    else { en.r = UNKNOWN; ++st.q_unknown; st.inconclusive.insert("solver timeout/unknown"); }
    Z3_solver_dec_ref(ctx, s);
    double dt = now() - t;
    st.solver_s += dt;
    st.solver_max = std::max(st.solver_max, dt);
    if (opt.verbose && dt > 2) fprintf(stderr, "slow query %.1fs r=%d: %s\n", dt, (int)en.r, sym::toStr(q, getenv("NTC_DEPTH") ? atoi(getenv("NTC_DEPTH")) : 5).c_str());
    if (out && en.r == SAT) *out = en.m;
    R res = en.r;
    if (res != UNKNOWN) cache.emplace(key, std::move(en));
    return res;
  }
};
static Solver* solver;

// ------------------------------------------------------------------------------------------------
// Values, decoded program
// ------------------------------------------------------------------------------------------------
struct Val {
  E e = nullptr;       // symbolic if non-null
  uint64_t c = 0;      // concrete otherwise
};
static Val C(uint64_t v) { Val x; x.c = v; return x; }
static Val mk(E e) { Val x; if (e->k == sym::Const) x.c = e->c; else x.e = e; return x; }
static E toE(const Val& v, unsigned w) { return v.e ? v.e : sym::mkConst(v.c, w); }

struct Opnd { int slot = -1; std::vector<Val> cv; Val c; };

struct DFunc;
struct DInst {
  unsigned op = 0;              // llvm opcode
  const Instruction* I = nullptr;
  int dst = -1; int nd = 0;     // destination slots
  unsigned w = 0;               // scalar width of the result (or of compared operands)
  std::vector<unsigned> lw;     // leaf widths of the result
  std::vector<uint64_t> lo;     // leaf byte offsets (load/store of aggregates)
  std::vector<Opnd> o;
  uint64_t k = 0;               // size / constant offset / predicate / slot offset
  std::vector<uint64_t> sc;     // GEP scales
  std::vector<unsigned> sw;     // GEP index widths / misc widths
  int s0 = -1, s1 = -1;         // successors
  std::vector<std::pair<uint64_t, int>> cases;
  const Function* callee = nullptr;
};
struct DPhi { int dst; int nd; std::map<int, Opnd> in; };
struct DBlock { std::vector<DPhi> phis; std::vector<DInst> in; };
struct DFunc {
  const Function* F; int nslots = 0;
  std::vector<DBlock> bb;
  std::vector<int> argSlot; std::vector<int> argN;
  bool nounwind = false;
};

static Module* M;
static const DataLayout* DL;

static void leaves(Type* t, uint64_t off, std::vector<unsigned>& w, std::vector<uint64_t>* o) {
  if (auto* s = dyn_cast<StructType>(t)) {
    auto* L = DL->getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); ++i) leaves(s->getElementType(i), off + L->getElementOffset(i), w, o);
  } else if (auto* a = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL->getTypeAllocSize(a->getElementType());
    for (uint64_t i = 0; i < a->getNumElements(); ++i) leaves(a->getElementType(), off + i * es, w, o);
  } else if (auto* v = dyn_cast<FixedVectorType>(t)) {
    uint64_t es = DL->getTypeStoreSize(v->getElementType());
    for (uint64_t i = 0; i < v->getNumElements(); ++i) leaves(v->getElementType(), off + i * es, w, o);
  } else {
    unsigned b;
    if (t->isPointerTy()) b = 64;
    else if (t->isIntegerTy()) b = t->getIntegerBitWidth();
    else if (t->isDoubleTy()) b = 64;
    else if (t->isFloatTy()) b = 32;
    else if (t->isVoidTy()) return;
    else { std::string s; raw_string_ostream os(s); t->print(os); throw std::runtime_error("unsupported type " + s); }
    if (b > 64) throw std::runtime_error("integer wider than 64 bits");
    w.push_back(b);
    if (o) o->push_back(off);
  }
}
static int nleaves(Type* t) { std::vector<unsigned> w; if (t->isVoidTy()) return 0; leaves(t, 0, w, nullptr); return (int)w.size(); }

static std::map<const GlobalValue*, uint64_t> gaddr;
static std::map<uint64_t, const Function*> fnAt;

static void constLeaves(const Constant* c, std::vector<Val>& out);
static uint64_t constInt(const Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() > 64) throw std::runtime_error("wide constant");
    return ci->getZExtValue();
  }
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
  if (auto* cf = dyn_cast<ConstantFP>(c)) return cf->getValueAPF().bitcastToAPInt().getZExtValue();
  if (auto* a = dyn_cast<GlobalAlias>(c)) return constInt(a->getAliasee());
  if (auto* g = dyn_cast<GlobalValue>(c)) {
    auto it = gaddr.find(g);
    if (it == gaddr.end()) throw std::runtime_error("unknown global " + g->getName().str());
    return it->second;
  }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) throw std::runtime_error("gep constexpr");
        return constInt(ce->getOperand(0)) + off.getZExtValue();
      }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr:
        return constInt(ce->getOperand(0));
      case Instruction::Add: return constInt(ce->getOperand(0)) + constInt(ce->getOperand(1));
      case Instruction::Sub: return constInt(ce->getOperand(0)) - constInt(ce->getOperand(1));
      case Instruction::Trunc: return constInt(ce->getOperand(0)) & sym::mask(ce->getType()->getIntegerBitWidth());
      case Instruction::ICmp: {
        uint64_t a = constInt(ce->getOperand(0)), b = constInt(ce->getOperand(1));
        auto p = (CmpInst::Predicate)ce->getPredicate();
        if (p == CmpInst::ICMP_EQ) return a == b;
        if (p == CmpInst::ICMP_NE) return a != b;
        break;
      }
      default: break;
    }
  }
  std::string s; raw_string_ostream os(s); c->print(os);
  throw std::runtime_error("unsupported constant " + s);
}
static void constLeaves(const Constant* c, std::vector<Val>& out) {
  Type* t = c->getType();
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? (unsigned)t->getArrayNumElements()
                                                                            : cast<FixedVectorType>(t)->getNumElements();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
      int k = nleaves(t);
      for (int i = 0; i < k; ++i) out.push_back(C(0));
      return;
    }
    for (unsigned i = 0; i < n; ++i) constLeaves(c->getAggregateElement(i), out);
    return;
  }
  out.push_back(C(constInt(c)));
}

struct Decoder {
  DFunc* D;
  std::map<const Value*, int> slot;
  std::map<const BasicBlock*, int> bbi;

  Opnd op(const Value* v) {
    Opnd o;
    auto it = slot.find(v);
    if (it != slot.end()) { o.slot = it->second; return o; }
    if (auto* c = dyn_cast<Constant>(v)) {
      constLeaves(c, o.cv);
      if (!o.cv.empty()) o.c = o.cv[0];
      return o;
    }
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return o;
    throw std::runtime_error("operand");
  }
  int fresh(const Value* v) {
    int n = nleaves(v->getType());
    int s = D->nslots;
    slot[v] = s;
    D->nslots += n;
    return s;
  }
  void run(const Function* F, DFunc* d) {
    D = d; d->F = F; d->nounwind = F->hasFnAttribute(Attribute::NoUnwind);
    for (auto& a : F->args()) { d->argN.push_back(nleaves(a.getType())); d->argSlot.push_back(fresh(&a)); }
    int n = 0;
    for (auto& b : *F) {
      bbi[&b] = n++;
      for (auto& i : b) if (!i.getType()->isVoidTy()) fresh(&i);
    }
    d->bb.resize((size_t)n);
    for (auto& b : *F) {
      DBlock& B = d->bb[(size_t)bbi[&b]];
      for (auto& i : b) {
        if (auto* p = dyn_cast<PHINode>(&i)) {
          DPhi ph; ph.dst = slot[p]; ph.nd = nleaves(p->getType());
          for (unsigned k = 0; k < p->getNumIncomingValues(); ++k) ph.in[bbi[p->getIncomingBlock(k)]] = op(p->getIncomingValue(k));
          B.phis.push_back(ph);
          continue;
        }
        B.in.push_back(inst(i));
      }
    }
  }
  DInst inst(const Instruction& i) {
    DInst d; d.op = i.getOpcode(); d.I = &i;
    if (!i.getType()->isVoidTy()) { d.dst = slot[&i]; leaves(i.getType(), 0, d.lw, &d.lo); d.nd = (int)d.lw.size(); d.w = d.lw.empty() ? 0 : d.lw[0]; }
    switch (i.getOpcode()) {
      case Instruction::Alloca: {
        auto& a = cast<AllocaInst>(i);
        d.k = DL->getTypeAllocSize(a.getAllocatedType());
        d.o.push_back(op(a.getArraySize()));
        d.sc.push_back(a.getAlign().value());
        break;
      }
      case Instruction::Load:
        d.o.push_back(op(i.getOperand(0)));
        d.k = DL->getTypeStoreSize(i.getType());
        break;
      case Instruction::Store: {
        d.o.push_back(op(i.getOperand(0)));
        d.o.push_back(op(i.getOperand(1)));
        d.lw.clear(); d.lo.clear();
        leaves(i.getOperand(0)->getType(), 0, d.lw, &d.lo);
        d.k = DL->getTypeStoreSize(i.getOperand(0)->getType());
        break;
      }
      case Instruction::GetElementPtr: {
        if (i.getType()->isVectorTy()) throw std::runtime_error("vector gep");
        auto& g = cast<GetElementPtrInst>(i);
        d.o.push_back(op(g.getPointerOperand()));
        uint64_t off = 0;
        for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
          Value* idx = it.getOperand();
          if (StructType* s = it.getStructTypeOrNull()) {
            off += DL->getStructLayout(s)->getElementOffset((unsigned)cast<ConstantInt>(idx)->getZExtValue());
          } else {
            uint64_t sz = DL->getTypeAllocSize(it.getIndexedType());
            if (auto* ci = dyn_cast<ConstantInt>(idx)) off += (uint64_t)ci->getSExtValue() * sz;
            else { d.o.push_back(op(idx)); d.sc.push_back(sz); d.sw.push_back(idx->getType()->getIntegerBitWidth()); }
          }
        }
        d.k = off;
        break;
      }
      case Instruction::ICmp: case Instruction::FCmp: {
        auto& c = cast<CmpInst>(i);
        d.k = c.getPredicate();
        d.o.push_back(op(i.getOperand(0))); d.o.push_back(op(i.getOperand(1)));
        std::vector<unsigned> w; leaves(i.getOperand(0)->getType(), 0, w, nullptr);
        d.w = w[0];
        break;
      }
      case Instruction::Br: {
        auto& b = cast<BranchInst>(i);
        d.s0 = bbi[b.getSuccessor(0)];
        if (b.isConditional()) { d.o.push_back(op(b.getCondition())); d.s1 = bbi[b.getSuccessor(1)]; }
        break;
      }
      case Instruction::Switch: {
        auto& s = cast<SwitchInst>(i);
        d.o.push_back(op(s.getCondition()));
        d.w = s.getCondition()->getType()->getIntegerBitWidth();
        d.s0 = bbi[s.getDefaultDest()];
        for (auto& c : s.cases()) d.cases.emplace_back(c.getCaseValue()->getZExtValue(), bbi[c.getCaseSuccessor()]);
        break;
      }
      case Instruction::Call: case Instruction::Invoke: {
        auto& c = cast<CallBase>(i);
        if (c.isInlineAsm()) throw std::runtime_error("inline asm");
        d.callee = dyn_cast<Function>(c.getCalledOperand()->stripPointerCasts());
        if (auto* al = dyn_cast<GlobalAlias>(c.getCalledOperand()))
          d.callee = dyn_cast<Function>(al->getAliaseeObject());
        for (auto& a : c.args()) d.o.push_back(op(a.get()));
        if (!d.callee) d.o.push_back(op(c.getCalledOperand()));
        if (auto* iv = dyn_cast<InvokeInst>(&i)) { d.s0 = bbi[iv->getNormalDest()]; d.s1 = bbi[iv->getUnwindDest()]; }
        for (auto& a : c.args()) {
          Type* t = a->getType();
          d.sw.push_back(t->isIntegerTy() ? t->getIntegerBitWidth() : 64);
        }
        break;
      }
      case Instruction::ExtractValue: case Instruction::InsertValue: {
        Type* t = i.getOperand(0)->getType();
        ArrayRef<unsigned> idx = i.getOpcode() == Instruction::ExtractValue ? cast<ExtractValueInst>(i).getIndices() : cast<InsertValueInst>(i).getIndices();
        int off = 0;
        for (unsigned k : idx) {
          if (auto* s = dyn_cast<StructType>(t)) {
            for (unsigned j = 0; j < k; ++j) off += nleaves(s->getElementType(j));
            t = s->getElementType(k);
          } else { t = cast<ArrayType>(t)->getElementType(); off += (int)k * nleaves(t); }
        }
        d.k = (uint64_t)off;
        for (auto& o : i.operands()) d.o.push_back(op(o.get()));
        if (i.getOpcode() == Instruction::InsertValue) d.sc.push_back((uint64_t)nleaves(i.getOperand(1)->getType()));
        break;
      }
      case Instruction::ExtractElement: case Instruction::InsertElement: {
        for (auto& o : i.operands()) d.o.push_back(op(o.get()));
        auto* ci = dyn_cast<ConstantInt>(i.getOperand(i.getNumOperands() - 1));
        if (!ci) throw std::runtime_error("variable vector index");
        d.k = ci->getZExtValue();
        break;
      }
      case Instruction::ShuffleVector: {
        auto& s = cast<ShuffleVectorInst>(i);
        d.o.push_back(op(i.getOperand(0))); d.o.push_back(op(i.getOperand(1)));
        for (int m : s.getShuffleMask()) d.sc.push_back((uint64_t)(int64_t)m);
        d.k = cast<FixedVectorType>(i.getOperand(0)->getType())->getNumElements();
        break;
      }
      case Instruction::LandingPad: break;
      default:
        for (auto& o : i.operands()) if (!isa<BasicBlock>(o.get())) d.o.push_back(op(o.get()));
        if (isa<CastInst>(i)) { std::vector<unsigned> w; leaves(i.getOperand(0)->getType(), 0, w, nullptr); d.sw = w; }
        break;
    }
    return d;
  }
};

static std::map<const Function*, DFunc*> dfuncs;
static DFunc* decode(const Function* F) {
  auto it = dfuncs.find(F);
  if (it != dfuncs.end()) return it->second;
  auto* d = new DFunc;
  Decoder dec;
  dec.run(F, d);
  dfuncs[F] = d;
  return d;
}

// ------------------------------------------------------------------------------------------------
// Memory and states
// ------------------------------------------------------------------------------------------------
enum MK : uint8_t { HEAP, STACK, GLOBAL, EXC };
struct MemObj {
  uint64_t base, size; MK kind; bool ro = false;
  int refs = 0; uint32_t seq = 0; uint8_t how = 0;   // how: 1 new, 2 new[], 3 malloc
  std::vector<uint8_t> b;       // concrete bytes
  std::vector<uint8_t> f;       // 0 concrete, 1 symbolic, 2 uninitialised
  std::vector<E> s;             // symbolic bytes (allocated on demand)
};
struct ObjRef {
  MemObj* p = nullptr;
  ObjRef() = default;
  explicit ObjRef(MemObj* q) : p(q) { if (p) ++p->refs; }
  ObjRef(const ObjRef& o) : p(o.p) { if (p) ++p->refs; }
  ObjRef(ObjRef&& o) noexcept : p(o.p) { o.p = nullptr; }
  ObjRef& operator=(ObjRef o) { std::swap(p, o.p); return *this; }
  ~ObjRef() { if (p && --p->refs == 0) delete p; }
};

struct Frame { DFunc* f; int bb = 0, ip = 0; std::vector<Val> slots; std::vector<uint64_t> allocas; };
struct ExcInfo { uint64_t ti = 0, dtor = 0; bool rethrown = false; };
struct Input { std::string name; unsigned w; std::vector<E> v; };

struct State {
  std::vector<Frame> stack;
  std::map<uint64_t, ObjRef> mem;
  std::map<uint64_t, uint64_t> dead;      // freed ranges (base -> size)
  uint64_t nextAddr = 0x100000000ull;
  uint32_t seq = 0;
  std::vector<E> cs;
  std::shared_ptr<Model> model = std::make_shared<Model>();
  uint64_t gen = 0;
  std::map<E, uint64_t> known;
  std::map<E, std::pair<uint64_t, uint64_t>> bounds;   // from constraints that compare with a constant
  std::map<E, std::pair<double, double>> fbounds;      // the same for floating-point expressions
  std::vector<Input> inputs;
  std::vector<Val> trace;
  std::map<std::string, unsigned> nameCount;
  std::map<uint64_t, ExcInfo> exc;
  std::vector<uint64_t> caught;
  uint64_t steps = 0;
  unsigned enumCount = 0;
  int phase = 0;    // remaining global ctors
};

static uint64_t genCounter = 1;

struct Violation { std::string msg, kind, loc; std::vector<std::string> inputs; std::vector<std::string> trace; };
static std::vector<Violation> violations;
static std::vector<Violation> sampleRuns;   // msg empty: traces of completed paths
static std::vector<State*> work;

static uint64_t evalM(State& s, E e) { return sym::evalExpr(e, *s.model, s.gen); }
static void setModel(State& s, const std::vector<std::pair<uint32_t, uint64_t>>& m) {
  auto n = std::make_shared<Model>(*s.model);
  if (n->size() < sym::nbVars()) n->resize(sym::nbVars(), 0);
  for (auto& kv : m) (*n)[kv.first] = kv.second;
  s.model = n;
  s.gen = ++genCounter;
}
static void bound(State& s, E e, uint64_t lo, uint64_t hi) {
  auto it = s.bounds.emplace(e, std::make_pair(0ull, sym::mask(e->w))).first;
  it->second.first = std::max(it->second.first, lo);
  it->second.second = std::min(it->second.second, hi);
  if (e->k == sym::ZExt) bound(s, e->a, lo, std::min(hi, sym::mask(e->a->w)));
}
using Range = std::pair<uint64_t, uint64_t>;
// A sum without wrap-around has the range of the sum of its terms; false if it may wrap.
static Range range(State& s, E e, int depth = 0);
static bool sumRange(State& s, const sym::Sum& q, unsigned w, Range& r, int depth) {
  unsigned __int128 lo = q.c, hi = q.c;
  for (auto& t : q.t) {
    if (t.second > sym::mask(w) / 2) return false;
    Range x = range(s, t.first, depth + 1);
    lo += (unsigned __int128)x.first * t.second; hi += (unsigned __int128)x.second * t.second;
  }
  if (hi > sym::mask(w)) {
    // Perhaps the same sum, computed with more bits, is bounded.
    if (w >= 56) return false;
    E wide = sym::mkConst(q.c, 64);
    for (auto& t : q.t) wide = sym::mkBin(sym::Add, wide, sym::mkBin(sym::Mul, sym::mkZExt(t.first, 64), sym::mkConst(t.second, 64)));
    auto b = s.bounds.find(wide);
    if (b == s.bounds.end() || b->second.second > sym::mask(w)) return false;
    hi = b->second.second;
    lo = std::max<uint64_t>((uint64_t)std::min<unsigned __int128>(lo, hi), b->second.first);
  }
  r = Range((uint64_t)lo, (uint64_t)hi);
  return true;
}
static bool frange(State& s, E e, std::pair<double, double>& r, int depth);
static Range range(State& s, E e, int depth) {
  Range r(0, sym::mask(e->w));
  if (e->k == sym::Const) return Range(e->c, e->c);
  if (depth < 8) switch (e->k) {
    case sym::ZExt: r = range(s, e->a, depth + 1); break;
    case sym::Add: case sym::Sub: case sym::Mul: { Range x; if (sumRange(s, sym::sumOf(e), e->w, x, depth) && sym::sumOf(e).t.size() && sym::sumOf(e).t[0].first != e) r = x;
      else if (sym::sumOf(e).t.size() == 1 && sym::sumOf(e).t[0].second == 1 && sym::sumOf(e).t[0].first != e) {
        // One term and a constant that wraps for all values or for none.
        Range t = range(s, sym::sumOf(e).t[0].first, depth + 1);
        const uint64_t lo = (t.first + sym::sumOf(e).c) & sym::mask(e->w), hi = (t.second + sym::sumOf(e).c) & sym::mask(e->w);
        if (lo <= hi && hi - lo == t.second - t.first) r = Range(lo, hi);
      }
      break; }
    case sym::Extract: if (e->c == 0) { Range x = range(s, e->a, depth + 1); if (x.second <= r.second) r = x; } break;
    case sym::Concat: { Range h = range(s, e->a, depth + 1), l = range(s, e->b, depth + 1); r = Range((h.first << e->b->w) + l.first, (h.second << e->b->w) + l.second); break; }
    case sym::And: if (e->b->k == sym::Const) r.second = std::min(range(s, e->a, depth + 1).second, e->b->c); break;
    case sym::URem: if (e->b->k == sym::Const && e->b->c) r.second = std::min(range(s, e->a, depth + 1).second, e->b->c - 1); break;
    case sym::UDiv: if (e->b->k == sym::Const && e->b->c) { Range x = range(s, e->a, depth + 1); r = Range(x.first / e->b->c, x.second / e->b->c); } break;
    case sym::FPToUI: case sym::FPToSI: {
      std::pair<double, double> x;
      if (frange(s, e->a, x, depth + 1) && x.first >= 0 && x.second < 4503599627370496.0 && (uint64_t)x.second <= sym::mask(e->w) / 2) r = Range((uint64_t)x.first, (uint64_t)x.second);
      break;
    }
    case sym::Ite: { Range x = range(s, e->b, depth + 1), y = range(s, e->d, depth + 1); r = Range(std::min(x.first, y.first), std::max(x.second, y.second)); break; }
    default: break;
  }
  auto b = s.bounds.find(e);
  if (b != s.bounds.end()) { r.first = std::max(r.first, b->second.first); r.second = std::min(r.second, b->second.second); }
  return r;
}
// Interval of a floating-point expression.  Rounding is monotone, so the ends of the operands give
// the ends of the result; false unless every value is finite.
using FRange = std::pair<double, double>;
static bool frange0(State& s, E e, FRange& r, int depth);
static bool frange(State& s, E e, FRange& r, int depth) {
  if (depth > 12 || !frange0(s, e, r, depth)) return false;
  auto b = s.fbounds.find(e);
  if (b != s.fbounds.end()) { r.first = std::max(r.first, b->second.first); r.second = std::min(r.second, b->second.second); }
  return true;
}
static bool frange0(State& s, E e, FRange& r, int depth) {
  FRange x, y;
  auto ends = [&](std::initializer_list<double> v) {
    r = FRange(INFINITY, -INFINITY);
    for (double d : v) { if (!std::isfinite(d)) return false; r.first = std::min(r.first, d); r.second = std::max(r.second, d); }
    return true;
  };
  switch (e->k) {
    case sym::Const: return ends({sym::asD(e->c)});
    case sym::UIToFP: { Range q = range(s, e->a); return ends({(double)q.first, (double)q.second}); }
    case sym::SIToFP: { Range q = range(s, e->a); return q.second <= sym::mask(e->a->w) / 2 && ends({(double)q.first, (double)q.second}); }
    case sym::Ite: return frange(s, e->b, x, depth + 1) && frange(s, e->d, y, depth + 1) && ends({x.first, x.second, y.first, y.second});
    case sym::FCeil: return frange(s, e->a, x, depth + 1) && ends({std::ceil(x.first), std::ceil(x.second)});
    case sym::FAdd: case sym::FSub: case sym::FMul: case sym::FDiv: break;
    default: return false;
  }
  if (!frange(s, e->a, x, depth + 1) || !frange(s, e->b, y, depth + 1)) return false;
  if (e->k == sym::FAdd) return ends({x.first + y.first, x.second + y.second});
  if (e->k == sym::FSub) return ends({x.first - y.second, x.second - y.first});
  if (e->k == sym::FMul) return ends({x.first * y.first, x.first * y.second, x.second * y.first, x.second * y.second});
  if (y.first <= 0 && y.second >= 0) return false;
  return ends({x.first / y.first, x.first / y.second, x.second / y.first, x.second / y.second});
}
// Decide a comparison from intervals: 0, 1, or -1 if they do not tell.
static int quick(State& s, E c) {
  if (c->k >= sym::FOlt && c->k <= sym::FUno) {
    FRange x, y;
    if (!frange(s, c->a, x, 0) || !frange(s, c->b, y, 0)) return -1;
    if (c->k == sym::FUno) return 0;
    if (c->k == sym::FOlt) return x.second < y.first ? 1 : x.first >= y.second ? 0 : -1;
    if (c->k == sym::FOle) return x.second <= y.first ? 1 : x.first > y.second ? 0 : -1;
    return x.second < y.first || y.second < x.first ? 0 : x.first == x.second && y.first == y.second && x.first == y.first ? 1 : -1;
  }
  if (c->w == 1 && (c->k == sym::And || c->k == sym::Or) && c->a->k != sym::Const) {
    int x = quick(s, c->a), y = quick(s, c->b);
    const int z = c->k == sym::Or;       // absorbing value
    if (x == z || y == z) return z;
    return x == !z && y == !z ? !z : -1;
  }
  if (c->w == 1 && c->k == sym::Xor && c->b->k == sym::Const && c->b->c && c->a->k >= sym::FOlt && c->a->k <= sym::FUno) { int x = quick(s, c->a); return x < 0 ? x : !x; }
  if (s.bounds.empty() && s.fbounds.empty()) return -1;
  bool neg = false;
  if (c->k == sym::Xor && c->w == 1 && c->b->k == sym::Const && c->b->c) { neg = true; c = c->a; }
  if (c->k != sym::Ult && c->k != sym::Ule && c->k != sym::Eq) return -1;
  auto cmp = [&](Range a, Range b) {
    if (c->k == sym::Ult) return a.second < b.first ? 1 : a.first >= b.second ? 0 : -1;
    if (c->k == sym::Ule) return a.second <= b.first ? 1 : a.first > b.second ? 0 : -1;
    if (a.second < b.first || b.second < a.first) return 0;
    if (a.first == a.second && b.first == b.second && a.first == b.first) return 1;
    return -1;
  };
  int r = cmp(range(s, c->a), range(s, c->b));
  if (r < 0) {
    const sym::Sum &x = sym::sumOf(c->a), &y = sym::sumOf(c->b);
    Range rx, ry;
    if (x.t.size() + y.t.size() > 1 && sumRange(s, x, c->a->w, rx, 0) && sumRange(s, y, c->a->w, ry, 0)) {
      sym::Sum p, q;
      p.c = x.c > y.c ? x.c - y.c : 0; q.c = y.c > x.c ? y.c - x.c : 0;
      size_t i = 0, j = 0;
      while (i < x.t.size() || j < y.t.size()) {
        if (j == y.t.size() || (i < x.t.size() && x.t[i].first->id < y.t[j].first->id)) p.t.push_back(x.t[i++]);
        else if (i == x.t.size() || y.t[j].first->id < x.t[i].first->id) q.t.push_back(y.t[j++]);
        else {
          const uint64_t a = x.t[i].second, b = y.t[j].second;
          if (a > b) p.t.emplace_back(x.t[i].first, a - b); else if (b > a) q.t.emplace_back(x.t[i].first, b - a);
          ++i; ++j;
        }
      }
      // Parts of sums that do not wrap do not wrap either.
      Range rp, rq;
      auto part = [&](const sym::Sum& z, Range whole, Range& o) {
        unsigned __int128 lo = z.c, hi = z.c;
        for (auto& t : z.t) { Range k = range(s, t.first, 1); lo += (unsigned __int128)k.first * t.second; hi += (unsigned __int128)k.second * t.second; }
        if (hi > whole.second) hi = whole.second;
        if (lo > hi) lo = hi;
        o = Range((uint64_t)lo, (uint64_t)hi);
      };
      part(p, rx, rp); part(q, ry, rq);
      r = cmp(rp, rq);
    }
  }
  if (r < 0) return -1;
  return neg ? !r : r;
}
static void addC(State& s, E c) {
  if (c->k == sym::Const) return;
  if (c->k == sym::And && c->w == 1) { addC(s, c->a); addC(s, c->b); return; }
  for (E x : s.cs) if (x == c) return;
  s.cs.push_back(c);
  if (c->k == sym::Eq && c->b->k == sym::Const) s.known[c->a] = c->b->c;
  else if (c->k == sym::Xor && c->w == 1 && c->b->k == sym::Const) s.known[c->a] = 0;
  else s.known[c] = 1;
  {
    E q = c; bool n = false;
    if (q->k == sym::Xor && q->w == 1 && q->b->k == sym::Const && q->b->c) { n = true; q = q->a; }
    FRange x, y;
    if ((q->k == sym::FOlt || q->k == sym::FOle) && frange(s, q->a, x, 0) && frange(s, q->b, y, 0)) {
      E lo = n ? q->b : q->a, hi = n ? q->a : q->b;      // lo <= hi
      if (n) std::swap(x, y);
      auto put = [&](E e, double l, double h) {
        auto it = s.fbounds.emplace(e, FRange(-INFINITY, INFINITY)).first;
        it->second.first = std::max(it->second.first, l); it->second.second = std::min(it->second.second, h);
      };
      if (lo->k != sym::Const) put(lo, -INFINITY, y.second);
      if (hi->k != sym::Const) put(hi, x.first, INFINITY);
    }
  }
  const bool aC = c->a && c->a->k == sym::Const, bC = c->b && c->b->k == sym::Const;
  if (c->k == sym::Ult && bC) bound(s, c->a, 0, c->b->c - 1);
  else if (c->k == sym::Ule && bC) bound(s, c->a, 0, c->b->c);
  else if (c->k == sym::Ult && aC) bound(s, c->b, c->a->c + 1, ~0ull);
  else if (c->k == sym::Ule && aC) bound(s, c->b, c->a->c, ~0ull);
  else if (c->k == sym::Eq && bC) bound(s, c->a, c->b->c, c->b->c);
  else if (c->k == sym::Xor && c->w == 1 && bC && c->a->k == sym::Eq && c->a->b->k == sym::Const && c->a->b->c == 0) bound(s, c->a->a, 1, ~0ull);
  else if (c->k == sym::Xor && c->w == 1 && bC && c->a->k == sym::Eq && c->a->b->k == sym::Const && c->a->b->c == sym::mask(c->a->b->w)) bound(s, c->a->a, 0, c->a->b->c - 1);
}

static std::string where(State& s) {
  std::string r;
  for (size_t i = s.stack.size(); i-- > 0;) {
    Frame& f = s.stack[i];
    const DInst* d = nullptr;
    if ((size_t)f.ip < f.f->bb[(size_t)f.bb].in.size()) d = &f.f->bb[(size_t)f.bb].in[(size_t)f.ip];
    std::string n = demangle(f.f->F->getName().str());
    if (n.size() > 90) n = n.substr(0, 87) + "...";
    if (!r.empty()) r += " <- ";
    r += n;
    if (d && d->I->getDebugLoc()) {
      auto* L = d->I->getDebugLoc().get();
      r += "@" + std::string(L->getFilename()) + ":" + std::to_string(L->getLine());
    }
    if (r.size() > 900) { r += " ..."; break; }
  }
  return r;
}

static std::string hex(uint64_t v) { char b[32]; snprintf(b, sizeof b, "%llx", (unsigned long long)v); return b; }
static void dumpInputs(State& s, std::vector<std::string>& out) {
  for (auto& i : s.inputs) {
    std::string l = i.name + " " + std::to_string(i.w) + " " + std::to_string(i.v.size());
    for (E e : i.v) l += " " + hex(evalM(s, e));
    out.push_back(l);
  }
}
static void dumpTrace(State& s, std::vector<std::string>& out) {
  for (auto& v : s.trace) out.push_back(hex(v.e ? evalM(s, v.e) : v.c));
}
static std::map<std::string, int> violSeen;
static unsigned maxViol = 1;
static std::string js(const std::string& s) {
  std::string r = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
static std::string jsList(const std::vector<std::string>& v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + js(v[i]);
  return r + "]";
}
static void report(State& s, const std::string& kind, const std::string& msg) {
  if (violSeen[kind + msg]++) return;
  Violation v; v.kind = kind; v.msg = msg; v.loc = where(s);
  dumpInputs(s, v.inputs); dumpTrace(s, v.trace);
  violations.push_back(v);
  if (opt.verbose) {
    fprintf(stderr, "VIOLATION %s: %s\n  at %s\n", kind.c_str(), msg.c_str(), v.loc.c_str());
    for (auto& l : v.inputs) fprintf(stderr, "   %s\n", l.c_str());
  }
  {  // at once, so that nothing is lost if this run is ended later
    std::ofstream o(opt.out + ".viol", std::ios::app);
    std::ostringstream os;
    os << "{\"kind\":" << js(v.kind) << ",\"msg\":" << js(v.msg) << ",\"loc\":" << js(v.loc)
       << ",\"inputs\":" << jsList(v.inputs) << ",\"trace\":" << jsList(v.trace) << "}\n";
    o << os.str() << std::flush;
  }
  if (++sh->nviol >= maxViol) sh->stop = 1;
}

struct Dead : std::runtime_error { using runtime_error::runtime_error; };   // path ends
struct Redo {};                                                             // path forked; re-execute later

[[noreturn]] static void memError(State& s, const std::string& m) { report(s, "memory", m); throw Dead(m); }

static MemObj* newObj(State& s, uint64_t size, uint64_t align, MK kind, bool zero) {
  if (align < 16) align = 16;
  auto* o = new MemObj;
  o->base = (s.nextAddr + align - 1) / align * align;
  o->size = size; o->kind = kind; o->seq = ++s.seq;
  s.nextAddr = o->base + size + 32;
  o->b.assign(size, 0);
  o->f.assign(size, zero ? 0 : 2);
  s.mem.emplace(o->base, ObjRef(o));
  return o;
}

static MemObj* findObj(State& s, uint64_t a, uint64_t n, bool write, const char* what) {
  ++st.memchecks;
  auto it = s.mem.upper_bound(a);
  if (it != s.mem.begin()) {
    --it;
    MemObj* o = it->second.p;
    if (a >= o->base && a + n <= o->base + o->size && n <= o->size) {
      if (write) {
        if (o->ro) memError(s, std::string(what) + ": write to constant memory");
        if (o->refs > 1) {
          auto* c = new MemObj(*o); c->refs = 0;
          it->second = ObjRef(c);
          o = c;
        }
      }
      return o;
    }
    if (a >= o->base && a <= o->base + o->size + 31)
      memError(s, std::string(what) + ": out of bounds (" + std::to_string(n) + " bytes at offset " + std::to_string(a - o->base) + " of a " + std::to_string(o->size) + "-byte " + (o->kind == HEAP ? "heap" : o->kind == STACK ? "stack" : "global") + " object)");
  }
  auto d = s.dead.upper_bound(a);
  if (d != s.dead.begin()) {
    --d;
    if (a >= d->first && a < d->first + std::max<uint64_t>(d->second, 1)) memError(s, std::string(what) + ": use after free");
  }
  if (a < 4096) memError(s, std::string(what) + ": null pointer dereference");
  memError(s, std::string(what) + ": wild pointer");
}

static Val loadByte(State& s, MemObj* o, uint64_t i) {
  if (o->f[i] == 0) return C(o->b[i]);
  if (o->f[i] == 1) return mk(o->s[i]);
  return mk(sym::mkVar("uninit!" + std::to_string(o->seq) + "!" + std::to_string(i), 8));
}
static void storeByte(MemObj* o, uint64_t i, const Val& v) {
  if (!v.e) { o->b[i] = (uint8_t)v.c; o->f[i] = 0; }
  else {
    if (o->s.empty()) o->s.assign(o->size, nullptr);
    o->s[i] = v.e; o->f[i] = 1;
  }
}
static Val loadInt(State& s, MemObj* o, uint64_t off, unsigned w) {
  unsigned n = (w + 7) / 8;
  bool conc = true;
  for (unsigned i = 0; i < n; ++i) if (o->f[off + i]) { conc = false; break; }
  if (conc) {
    uint64_t v = 0;
    for (unsigned i = 0; i < n; ++i) v |= (uint64_t)o->b[off + i] << (8 * i);
    return C(v & sym::mask(w));
  }
  E e = nullptr;
  for (unsigned i = 0; i < n; ++i) {
    E b = toE(loadByte(s, o, off + i), 8);
    e = e ? sym::mkConcat(b, e) : b;
  }
  if (e->w > w) e = sym::mkExtract(e, 0, w);
  return mk(e);
}
static void storeInt(MemObj* o, uint64_t off, const Val& v, unsigned w) {
  unsigned n = (w + 7) / 8;
  if (!v.e) {
    for (unsigned i = 0; i < n; ++i) { o->b[off + i] = (uint8_t)(v.c >> (8 * i)); o->f[off + i] = 0; }
    return;
  }
  E e = v.e;
  if (n * 8 > e->w) e = sym::mkZExt(e, n * 8);
  for (unsigned i = 0; i < n; ++i) storeByte(o, off + i, mk(sym::mkExtract(e, 8 * i, 8)));
}

// ---- forking helpers ----
static State* forkState(State& s) { ++st.forks; return new State(s); }

// Make v concrete in s, forking for the other feasible values (complete enumeration).
static uint64_t concrete(State& s, Val& v) {
  if (!v.e) return v.c;
  auto k = s.known.find(v.e);
  if (k != s.known.end()) { v = C(k->second); return v.c; }
  uint64_t x = evalM(s, v.e);
  E eq = sym::mkBin(sym::Eq, v.e, sym::mkConst(x, v.e->w));
  std::vector<std::pair<uint32_t, uint64_t>> m;
  auto r = solver->check(s.cs, sym::mkNot(eq), &m);
  if (r == Solver::SAT) {
    for (auto x : sym::varsOf(v.e))
      if (sym::varName(x).compare(0, 7, "uninit!") == 0) {
        report(s, "uninit", "an address, a size or an index depends on uninitialised memory");
        throw Dead("uninit");
      }
    if (++s.enumCount > opt.maxEnum) { st.inconclusive.insert("value enumeration limit at " + where(s)); throw Dead("enum"); }
    State* n = forkState(s);
    n->cs.push_back(sym::mkNot(eq));
    setModel(*n, m);
    work.push_back(n);
  }
  s.known[v.e] = x;
  if (r != Solver::UNSAT) addC(s, eq);
  v = C(x);
  return x;
}

static bool hasF(E c) {
  if (!c) return false;
  if (c->k >= sym::FAdd) return true;
  return c->w == 1 && (hasF(c->a) || hasF(c->b));
}
// Decide a branch; may fork. Returns the side taken by s.
static bool decide(State& s, Val v, const std::function<void(State&, bool)>& other) {
  if (!v.e) return v.c & 1;
  E c = v.e;
  auto k = s.known.find(c);
  if (k != s.known.end()) return k->second & 1;
  { int q = quick(s, c); if (q >= 0) { ++st.q_interval; s.known[c] = (uint64_t)q; return q; } }
  bool side = evalM(s, c) & 1;
  E no = side ? sym::mkNot(c) : c;
  std::vector<std::pair<uint32_t, uint64_t>> m;
  // Floating point with one variable: the ends of its interval are cheap witnesses.
  if (sym::varsOf(c).size() == 1 && hasF(c)) {
    const uint32_t var = sym::varsOf(c)[0];
    E x = c;
    while (x->k != sym::Var) { E y = nullptr; for (E z : {x->a, x->b, x->d}) if (z && !sym::varsOf(z).empty()) y = z; x = y; }
    const Range q = range(s, x);
    for (uint64_t v : {q.first, q.second}) {
      Model t = *s.model;
      if (t.size() <= var) t.resize(sym::nbVars(), 0);
      t[var] = v;
      const uint64_t g = ++genCounter;
      bool ok = sym::evalExpr(no, t, g) & 1;
      for (E y : s.cs) ok = ok && (sym::evalExpr(y, t, g) & 1);
      if (!ok) continue;
      State* n = forkState(s);
      addC(*n, no);
      setModel(*n, {{var, v}});
      other(*n, !side);
      work.push_back(n);
      addC(s, side ? c : sym::mkNot(c));
      return side;
    }
  }
  if (getenv("NTC_Q")) fprintf(stderr, "Q %s\n   %s\n", where(s).c_str(), sym::toStr(c, 4).c_str());
  auto r = solver->check(s.cs, no, &m);
  if (r == Solver::UNKNOWN) { /* recorded as inconclusive; keep the known-feasible side */ }
  if (r == Solver::SAT) {
    State* n = forkState(s);
    addC(*n, no);
    setModel(*n, m);
    other(*n, !side);
    work.push_back(n);
    addC(s, side ? c : sym::mkNot(c));
  } else if (r == Solver::UNSAT) {
    s.known[c] = side;
  }
  return side;
}

// ------------------------------------------------------------------------------------------------
// Interpreter
// ------------------------------------------------------------------------------------------------
static Val& SL(Frame& f, int i) { return f.slots[(size_t)i]; }
static const Val& get(Frame& f, const Opnd& o, int k = 0) {
  return o.slot >= 0 ? f.slots[(size_t)(o.slot + k)] : (k == 0 ? o.c : o.cv[(size_t)k]);
}
// concretise an operand in place (so that it stays concrete)
static uint64_t conc(State& s, Frame& f, const Opnd& o) {
  Val v = get(f, o);
  if (!v.e) return v.c;
  uint64_t x = concrete(s, v);
  if (o.slot >= 0) f.slots[(size_t)o.slot] = C(x);
  return x;
}

static Val bin(sym::K k, const Val& a, const Val& b, unsigned w) {
  if (!a.e && !b.e) return C(sym::foldBin(k, a.c, b.c, w));
  return mk(sym::mkBin(k, toE(a, w), toE(b, w)));
}
static Val vnot(const Val& a) { return a.e ? mk(sym::mkNot(a.e)) : C(!(a.c & 1)); }

static void gotoBB(State& s, Frame& f, int to) {
  int from = f.bb;
  DBlock& B = f.f->bb[(size_t)to];
  if (!B.phis.empty()) {
    static thread_local std::vector<Val> tmp;
    tmp.clear();
    for (auto& p : B.phis) { const Opnd& o = p.in.at(from); for (int k = 0; k < p.nd; ++k) tmp.push_back(get(f, o, k)); }
    size_t j = 0;
    for (auto& p : B.phis) for (int k = 0; k < p.nd; ++k) f.slots[(size_t)(p.dst + k)] = tmp[j++];
  }
  f.bb = to; f.ip = 0;
  (void)s;
}

static void popFrame(State& s) {
  Frame& f = s.stack.back();
  for (uint64_t a : f.allocas) { auto it = s.mem.find(a); s.dead[a] = it->second.p->size; s.mem.erase(it); }
  s.stack.pop_back();
}

static void pushFrame(State& s, const Function* F, const std::vector<std::vector<Val>>& args, const CallBase* cb = nullptr) {
  if (s.stack.size() > 2000) { report(s, "memory", "stack overflow (recursion deeper than 2000)"); throw Dead("recursion"); }
  DFunc* d = decode(F);
  Frame f; f.f = d; f.slots.resize((size_t)d->nslots);
  for (size_t i = 0; i < d->argSlot.size(); ++i)
    for (int k = 0; k < d->argN[i]; ++k) f.slots[(size_t)(d->argSlot[i] + k)] = i < args.size() && (size_t)k < args[i].size() ? args[i][(size_t)k] : C(0);
  s.stack.push_back(std::move(f));
  if (cb) {
    for (unsigned i = 0; i < cb->arg_size() && i < d->argSlot.size(); ++i) {
      if (cb->isByValArgument(i)) {
        uint64_t sz = DL->getTypeAllocSize(cb->getParamByValType(i));
        uint64_t src = args[i][0].c;
        MemObj* o = newObj(s, sz, 16, STACK, false);
        uint64_t nb = o->base;
        MemObj* so = findObj(s, src, sz, false, "byval copy");
        for (uint64_t k = 0; k < sz; ++k) storeByte(o, k, loadByte(s, so, src - so->base + k));
        s.stack.back().allocas.push_back(nb);
        s.stack.back().slots[(size_t)d->argSlot[i]] = C(nb);
      }
    }
  }
}

static void finishCall(State& s, const std::vector<Val>& res) {   // top frame's current instruction is a call/invoke that returned
  Frame& f = s.stack.back();
  DInst& d = f.f->bb[(size_t)f.bb].in[(size_t)f.ip];
  for (int k = 0; k < d.nd; ++k) SL(f, d.dst + k) = (size_t)k < res.size() ? res[(size_t)k] : C(0);
  if (d.op == Instruction::Invoke) gotoBB(s, f, d.s0); else ++f.ip;
}

// ---- exceptions ----
static std::map<std::string, std::string> extBase = {
  {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"},
  {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt12length_error", "_ZTISt11logic_error"},
  {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"},
  {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"},
  {"_ZTISt8bad_cast", "_ZTISt9exception"},
};
static std::map<uint64_t, const GlobalVariable*> gvAt;
static bool tiMatch(const GlobalVariable* t, const GlobalVariable* want) {
  if (!t) return false;
  if (t == want || t->getName() == want->getName()) return true;
  if (t->hasInitializer()) {
    auto* init = t->getInitializer();
    for (unsigned i = 2; i < init->getNumOperands(); ++i) {
      auto* g = dyn_cast<GlobalVariable>(init->getOperand(i)->stripPointerCasts());
      if (g && g->getName().starts_with("_ZTI") && tiMatch(g, want)) return true;
    }
    return false;
  }
  auto it = extBase.find(t->getName().str());
  while (it != extBase.end()) {
    if (it->second == want->getName()) return true;
    it = extBase.find(it->second);
  }
  return false;
}
static uint32_t tiSelector(const GlobalVariable* g) { return (uint32_t)(gaddr.at(g) & 0x7fffffff); }

// returns: 0 nothing, 1 cleanup, 2 catch
static int padMatch(const LandingPadInst* lp, const GlobalVariable* ti, uint32_t& sel) {
  for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
    const Constant* c = lp->getClause(i);
    if (lp->isCatch(i)) {
      auto* g = dyn_cast<GlobalVariable>(c->stripPointerCasts());
      if (!g) { sel = 1; return 2; }
      if (tiMatch(ti, g)) { sel = tiSelector(g); return 2; }
    } else {   // filter: an empty filter is noexcept
      sel = 0x7ffffffe; return 2;
    }
  }
  sel = 0;
  return lp->isCleanup() ? 1 : 0;
}
static const LandingPadInst* padOf(Frame& f) {
  DInst& d = f.f->bb[(size_t)f.bb].in[(size_t)f.ip];
  if (d.op != Instruction::Invoke) return nullptr;
  return cast<InvokeInst>(d.I)->getLandingPadInst();
}
static void unwind(State& s, uint64_t obj) {
  const GlobalVariable* ti = nullptr;
  auto it = gvAt.find(s.exc[obj].ti);
  if (it != gvAt.end()) ti = it->second;
  std::string tn = ti ? demangle(ti->getName().str()) : "?";
  bool found = false;
  for (size_t i = s.stack.size(); i-- > 0 && !found;) {
    uint32_t sel;
    if (auto* lp = padOf(s.stack[i])) { if (padMatch(lp, ti, sel) == 2) { found = true; break; } }
    if (s.stack[i].f->nounwind) break;
  }
  if (!found) { report(s, "exception", "exception escapes (std::terminate): " + tn); throw Dead("uncaught"); }
  while (true) {
    Frame& f = s.stack.back();
    if (auto* lp = padOf(f)) {
      uint32_t sel;
      int r = padMatch(lp, ti, sel);
      if (r) {
        DInst& d = f.f->bb[(size_t)f.bb].in[(size_t)f.ip];
        gotoBB(s, f, d.s1);
        DInst& l = f.f->bb[(size_t)f.bb].in[(size_t)f.ip];
        if (l.op != Instruction::LandingPad) throw std::runtime_error("landing pad expected");
        SL(f, l.dst) = C(obj); SL(f, l.dst + 1) = C(r == 2 ? sel : 0);
        ++f.ip;
        return;
      }
    }
    popFrame(s);
  }
}

// ---- builtins ----
using Args = std::vector<std::vector<Val>>;
struct Ctx { State& s; Frame& f; const DInst& d; };
// A builtin returns true if it produced `res` (call completes), false if control moved elsewhere.
using Builtin = std::function<bool(Ctx&, Args&, std::vector<Val>& res)>;
static std::map<std::string, Builtin> builtins;

static uint64_t argC(Ctx& c, Args& a, size_t i) {
  if (a[i][0].e) { uint64_t x = concrete(c.s, a[i][0]); if (c.d.o[i].slot >= 0) c.f.slots[(size_t)c.d.o[i].slot] = C(x); }
  return a[i][0].c;
}
static std::string cstr(State& s, uint64_t p) {
  std::string r;
  while (true) {
    MemObj* o = findObj(s, p, 1, false, "string");
    Val v = loadByte(s, o, p - o->base);
    if (v.e) return r + "<sym>";
    if (!v.c) return r;
    r += (char)v.c; ++p;
  }
}
static void doFree(State& s, uint64_t p, uint8_t how, const char* what) {
  if (!p) return;
  auto it = s.mem.find(p);
  if (it == s.mem.end()) {
    if (s.dead.count(p)) memError(s, std::string(what) + ": double free");
    memError(s, std::string(what) + ": invalid free");
  }
  if (it->second.p->kind != HEAP) memError(s, std::string(what) + ": free of non-heap memory");
  if (it->second.p->how != how) memError(s, std::string(what) + ": mismatched allocation/deallocation functions");
  s.dead[p] = it->second.p->size;
  s.mem.erase(it);
}
// fast path keeping uninitialised bytes uninitialised
static void moveMem(State& s, uint64_t d, uint64_t src, uint64_t n, const char* what) {
  if (!n) return;
  MemObj* so = findObj(s, src, n, false, what);
  MemObj* o = findObj(s, d, n, true, what);
  if (s.mem.size()) { auto it = s.mem.upper_bound(src); --it; so = it->second.p; }
  uint64_t di = d - o->base, si = src - so->base;
  std::vector<uint8_t> tb(so->b.begin() + (long)si, so->b.begin() + (long)(si + n)), tf(so->f.begin() + (long)si, so->f.begin() + (long)(si + n));
  bool hasSym = false;
  for (auto x : tf) if (x == 1) { hasSym = true; break; }
  std::vector<E> ts;
  if (hasSym) ts.assign(so->s.begin() + (long)si, so->s.begin() + (long)(si + n));
  std::copy(tb.begin(), tb.end(), o->b.begin() + (long)di);
  std::copy(tf.begin(), tf.end(), o->f.begin() + (long)di);
  if (hasSym) {
    if (o->s.empty()) o->s.assign(o->size, nullptr);
    std::copy(ts.begin(), ts.end(), o->s.begin() + (long)di);
  }
  // uninitialised bytes keep their identity through a named variable only when they are read;
  // a copied uninitialised byte is a different unknown, which over-approximates.
}

static std::string uniq(State& s, const std::string& n) {
  unsigned k = s.nameCount[n]++;
  return k ? n + "#" + std::to_string(k) : n;
}

struct ConcreteInput { std::string name; std::vector<uint64_t> v; };
static std::vector<ConcreteInput> concIn;
static size_t concPos = 0;
static bool concNext(const std::string& name, size_t n, std::vector<uint64_t>& out) {
  if (opt.concrete.empty()) return false;
  out.assign(n, 0);
  if (concPos < concIn.size()) {
    if (concIn[concPos].name != name) { fprintf(stderr, "replay: expected %s got %s\n", name.c_str(), concIn[concPos].name.c_str()); }
    for (size_t i = 0; i < n && i < concIn[concPos].v.size(); ++i) out[i] = concIn[concPos].v[i];
    ++concPos;
  }
  return true;
}

static void endPath(State& s, bool sample) {
  ++st.paths;
  if (sample && sampleRuns.size() < opt.samples && (st.paths & (st.paths - 1)) == 0) {
    Violation v; dumpInputs(s, v.inputs); dumpTrace(s, v.trace); sampleRuns.push_back(v);
  }
  if (!opt.concrete.empty()) { std::vector<std::string> t; dumpTrace(s, t); for (auto& x : t) printf("TRACE %s\n", x.c_str()); }
}

// sym_alloc_fail: -1 never; n >= 0: n allocations succeed, then one fails.
static uint64_t allocFailAt = 0;
static bool allocFails(State& s) {
  if (!allocFailAt) return false;
  MemObj* o = s.mem[allocFailAt].p;
  int64_t v = (int64_t)loadInt(s, o, 0, 64).c;
  if (v < 0) return false;
  o = findObj(s, allocFailAt, 8, true, "sym_alloc_fail");
  storeInt(o, 0, C((uint64_t)(v - 1)), 64);
  return v == 0;
}

static void initBuiltins() {
  auto& B = builtins;
  auto alloc = [](uint8_t how, bool zero, bool nothrow = false) {
    return [how, zero, nothrow](Ctx& c, Args& a, std::vector<Val>& r) {
      uint64_t n = argC(c, a, 0);
      if (allocFails(c.s)) {
        if (nothrow) { r.push_back(C(0)); return true; }
        pushFrame(c.s, M->getFunction("rt_bad_alloc"), {});
        return false;
      }
      if (n > (64u << 20)) { report(c.s, "memory", "allocation of " + std::to_string(n) + " bytes"); throw Dead("huge alloc"); }
      MemObj* o = newObj(c.s, n, 16, HEAP, zero);
      o->how = how;
      r.push_back(C(o->base));
      return true;
    };
  };
  B["_Znwm"] = alloc(1, false); B["_Znam"] = alloc(2, false); B["malloc"] = [](Ctx& c, Args& a, std::vector<Val>& r) { MemObj* o = newObj(c.s, argC(c, a, 0), 16, HEAP, false); o->how = 3; r.push_back(C(o->base)); return true; };
  B["_ZnwmRKSt9nothrow_t"] = alloc(1, false, true); B["_ZnamRKSt9nothrow_t"] = alloc(2, false, true);
  auto fr = [](uint8_t how, const char* n) {
    return [how, n](Ctx& c, Args& a, std::vector<Val>&) { doFree(c.s, argC(c, a, 0), how, n); return true; };
  };
  B["_ZdlPv"] = B["_ZdlPvm"] = B["_ZdlPvRKSt9nothrow_t"] = fr(1, "operator delete");
  B["_ZdaPv"] = B["_ZdaPvm"] = fr(2, "operator delete[]");
  B["free"] = fr(3, "free");
  B["posix_memalign"] = [](Ctx& c, Args& a, std::vector<Val>& r) {
    uint64_t p = argC(c, a, 0), al = argC(c, a, 1), n = argC(c, a, 2);
    if (allocFails(c.s)) { r.push_back(C(12)); return true; }
    if (n > (64u << 20)) { report(c.s, "memory", "allocation of " + std::to_string(n) + " bytes"); throw Dead("huge alloc"); }
    MemObj* o = newObj(c.s, n, al, HEAP, false);
    o->how = 3;
    uint64_t b = o->base;
    MemObj* q = findObj(c.s, p, 8, true, "posix_memalign");
    storeInt(q, p - q->base, C(b), 64);
    r.push_back(C(0));
    return true;
  };
  B["memcmp"] = B["bcmp"] = [](Ctx& c, Args& a, std::vector<Val>& r) {
    uint64_t p = argC(c, a, 0), q = argC(c, a, 1), n = argC(c, a, 2);
    Val res = C(0);
    for (uint64_t i = n; i-- > 0;) {
      MemObj* o = findObj(c.s, p + i, 1, false, "memcmp");
      Val x = loadByte(c.s, o, p + i - o->base);
      o = findObj(c.s, q + i, 1, false, "memcmp");
      Val y = loadByte(c.s, o, q + i - o->base);
      E ex = sym::mkZExt(toE(x, 8), 32), ey = sym::mkZExt(toE(y, 8), 32);
      res = mk(sym::mkIte(sym::mkBin(sym::Eq, ex, ey), toE(res, 32), sym::mkBin(sym::Sub, ex, ey)));
    }
    r.push_back(res);
    return true;
  };
  B["strlen"] = [](Ctx& c, Args& a, std::vector<Val>& r) {
    uint64_t p = argC(c, a, 0), n = 0;
    while (true) {
      MemObj* o = findObj(c.s, p + n, 1, false, "strlen");
      Val v = loadByte(c.s, o, p + n - o->base);
      if (concrete(c.s, v) == 0) break;
      ++n;
    }
    r.push_back(C(n));
    return true;
  };
  auto nop = [](Ctx&, Args&, std::vector<Val>& r) { r.push_back(C(0)); return true; };
  for (const char* n : {"_ZNSt9exceptionD2Ev", "_ZNSt9exceptionD1Ev", "_ZNSt9bad_allocD1Ev", "_ZNSt9bad_allocD2Ev", "__cxa_free_exception",
                        "_ZNSt12length_errorD1Ev", "_ZNSt11logic_errorD1Ev", "_ZNSt12out_of_rangeD1Ev", "_ZNSt16invalid_argumentD1Ev",
                        "_ZNSt13runtime_errorC1EPKc", "_ZNSt13runtime_errorD1Ev", "_ZNSt13runtime_errorD2Ev", "__cxa_atexit",
                        "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "__cxa_guard_release", "puts", "printf", "fflush",
                        "_ZNSt6localeC1Ev", "_ZNSt6localeD1Ev", "_ZNSt6localeC1ERKS_"})
    B[n] = nop;
  B["_ZNKSt9exception4whatEv"] = B["_ZNKSt13runtime_error4whatEv"] = B["_ZNKSt9bad_alloc4whatEv"] = [](Ctx& c, Args&, std::vector<Val>& r) {
    MemObj* o = newObj(c.s, 15, 16, GLOBAL, true);
    const char* t = "std::exception";
    for (int i = 0; i < 15; ++i) o->b[(size_t)i] = (uint8_t)t[i];
    r.push_back(C(o->base));
    return true;
  };
  B["__cxa_guard_acquire"] = [](Ctx& c, Args& a, std::vector<Val>& r) {
    uint64_t p = argC(c, a, 0);
    MemObj* o = findObj(c.s, p, 1, true, "guard");
    Val v = loadByte(c.s, o, p - o->base);
    r.push_back(C(v.c ? 0 : 1));
    storeByte(o, p - o->base, C(1));
    return true;
  };
  B["_ZSt9terminatev"] = [](Ctx& c, Args&, std::vector<Val>&) -> bool { report(c.s, "exception", "std::terminate called"); throw Dead("terminate"); };
  B["abort"] = [](Ctx& c, Args&, std::vector<Val>&) -> bool { report(c.s, "abort", "abort called"); throw Dead("abort"); };
  B["__assert_fail"] = [](Ctx& c, Args& a, std::vector<Val>&) -> bool {
    report(c.s, "assert", "assertion failed: " + cstr(c.s, argC(c, a, 0)) + " (" + cstr(c.s, argC(c, a, 1)) + ":" + std::to_string(argC(c, a, 2)) + ")");
    throw Dead("assert");
  };
  B["__cxa_allocate_exception"] = [](Ctx& c, Args& a, std::vector<Val>& r) {
    MemObj* o = newObj(c.s, argC(c, a, 0), 16, EXC, false);
    r.push_back(C(o->base));
    return true;
  };
  B["__cxa_throw"] = [](Ctx& c, Args& a, std::vector<Val>&) {
    uint64_t o = argC(c, a, 0);
    ExcInfo i; i.ti = argC(c, a, 1); i.dtor = argC(c, a, 2);
    c.s.exc[o] = i;
    unwind(c.s, o);
    return false;
  };
  B["__cxa_begin_catch"] = [](Ctx& c, Args& a, std::vector<Val>& r) {
    uint64_t o = argC(c, a, 0);
    c.s.caught.push_back(o);
    r.push_back(C(o));
    return true;
  };
  B["__cxa_get_exception_ptr"] = [](Ctx& c, Args& a, std::vector<Val>& r) { r.push_back(C(argC(c, a, 0))); return true; };
  B["__cxa_end_catch"] = [](Ctx& c, Args&, std::vector<Val>&) {
    uint64_t o = c.s.caught.back();
    c.s.caught.pop_back();
    auto& i = c.s.exc[o];
    if (i.rethrown) { i.rethrown = false; return true; }
    if (!i.dtor) return true;
    const Function* F = fnAt.at(i.dtor);
    if (F->isDeclaration()) return true;
    pushFrame(c.s, F, {{C(o)}});
    return false;
  };
  B["__cxa_rethrow"] = [](Ctx& c, Args&, std::vector<Val>&) {
    uint64_t o = c.s.caught.back();
    c.s.exc[o].rethrown = true;
    unwind(c.s, o);
    return false;
  };

  // ---- harness interface ----
  B["sym_int"] = [](Ctx& c, Args& a, std::vector<Val>& r) {
    std::string n = cstr(c.s, argC(c, a, 0));
    unsigned w = (unsigned)argC(c, a, 1);
    std::vector<uint64_t> cv;
    if (concNext(n, 1, cv)) { c.s.inputs.push_back({n, w, {sym::mkConst(cv[0], w)}}); r.push_back(C(cv[0] & sym::mask(w))); return true; }
    E v = sym::mkVar(uniq(c.s, n), w);
    c.s.inputs.push_back({n, w, {v}});
    r.push_back(mk(sym::mkZExt(v, 64)));
    return true;
  };
  B["sym_bytes"] = [](Ctx& c, Args& a, std::vector<Val>&) {
    uint64_t p = argC(c, a, 0), n = argC(c, a, 1);
    std::string nm = cstr(c.s, argC(c, a, 2));
    Input in{nm, 8, {}};
    std::vector<uint64_t> cv;
    bool cc = concNext(nm, n, cv);
    std::string u = cc ? nm : uniq(c.s, nm);
    if (n) {
      MemObj* o = findObj(c.s, p, n, true, "sym_bytes");
      for (uint64_t i = 0; i < n; ++i) {
        E v = cc ? sym::mkConst(cv[i], 8) : sym::mkVar(u + "[" + std::to_string(i) + "]", 8);
        in.v.push_back(v);
        storeByte(o, p - o->base + i, mk(v));
      }
    }
    c.s.inputs.push_back(in);
    return true;
  };
  B["sym_choice"] = [](Ctx& c, Args& a, std::vector<Val>& r) {
    uint64_t n = argC(c, a, 0);
    std::string nm = cstr(c.s, argC(c, a, 1));
    std::vector<uint64_t> cv;
    if (concNext(nm, 1, cv)) { c.s.inputs.push_back({nm, 32, {sym::mkConst(cv[0], 32)}}); r.push_back(C(cv[0])); return true; }
    if (n == 0) throw Dead("empty choice");
    std::string u = uniq(c.s, nm);
    E v = sym::mkVar(u, 32);
    for (uint64_t i = n; i-- > 1;) {
      State* t = forkState(c.s);
      t->inputs.push_back({nm, 32, {v}});
      addC(*t, sym::mkBin(sym::Eq, v, sym::mkConst(i, 32)));
      setModel(*t, {{(uint32_t)v->c, i}});
      finishCall(*t, {C(i)});
      work.push_back(t);
    }
    c.s.inputs.push_back({nm, 32, {v}});
    addC(c.s, sym::mkBin(sym::Eq, v, sym::mkConst(0, 32)));
    setModel(c.s, {{(uint32_t)v->c, 0}});
    r.push_back(C(0));
    return true;
  };
  B["sym_assume"] = [](Ctx& c, Args& a, std::vector<Val>&) {
    Val v = a[0][0];
    if (!v.e) { if (!v.c) { ++st.assumed_away; throw Dead("assume"); } return true; }
    E cnd = sym::mkNot(sym::mkBin(sym::Eq, v.e, sym::mkConst(0, v.e->w)));
    if (cnd->k == sym::Const) { if (!cnd->c) { ++st.assumed_away; throw Dead("assume"); } return true; }
    if (!evalM(c.s, cnd)) {
      std::vector<std::pair<uint32_t, uint64_t>> m;
      auto r = solver->check(c.s.cs, cnd, &m);
      if (r != Solver::SAT) { ++st.assumed_away; throw Dead("assume"); }
      setModel(c.s, m);
    }
    addC(c.s, cnd);
    return true;
  };
  B["sym_check"] = [](Ctx& c, Args& a, std::vector<Val>&) {
    Val v = a[0][0];
    std::string msg = cstr(c.s, argC(c, a, 1));
    ++st.checks; ++st.checkMsgs[msg];
    if (!v.e) {
      ++st.checks_folded;
      if (!v.c) { report(c.s, "check", msg); throw Dead("check"); }
      return true;
    }
    E cnd = sym::mkNot(sym::mkBin(sym::Eq, v.e, sym::mkConst(0, v.e->w)));
    if (cnd->k == sym::Const) {
      ++st.checks_folded;
      if (!cnd->c) { report(c.s, "check", msg); throw Dead("check"); }
      return true;
    }
    if (quick(c.s, cnd) == 1) { ++st.checks_folded; return true; }
    ++st.checks_solver;
    std::vector<std::pair<uint32_t, uint64_t>> m;
    auto r = solver->check(c.s.cs, sym::mkNot(cnd), &m);
    if (r == Solver::SAT) {
      setModel(c.s, m);
      report(c.s, "check", msg);
      throw Dead("check");
    }
    if (r == Solver::UNSAT) c.s.known[cnd] = 1;
    return true;
  };
  B["sym_cover"] = [](Ctx& c, Args& a, std::vector<Val>&) { ++st.covers[cstr(c.s, argC(c, a, 0))]; return true; };
  B["sym_trace"] = [](Ctx& c, Args& a, std::vector<Val>&) { c.s.trace.push_back(a[0][0]); return true; };
  B["sym_param"] = [](Ctx& c, Args& a, std::vector<Val>& r) {
    std::string n = cstr(c.s, argC(c, a, 0));
    auto it = opt.params.find(n);
    r.push_back(C((uint64_t)(it != opt.params.end() ? it->second : (long long)argC(c, a, 1))));
    return true;
  };
  B["sym_concrete"] = [](Ctx& c, Args& a, std::vector<Val>& r) { r.push_back(C(argC(c, a, 0))); return true; };
  // sym_ok(p, n): do the n bytes at p lie in one live object?
  B["sym_ok"] = [](Ctx& c, Args& a, std::vector<Val>& r) {
    uint64_t p = argC(c, a, 0), n = argC(c, a, 1);
    auto it = c.s.mem.upper_bound(p);
    bool ok = false;
    if (it != c.s.mem.begin()) { --it; MemObj* o = it->second.p; ok = p >= o->base && p + n <= o->base + o->size; }
    r.push_back(C(ok));
    return true;
  };
  B["sym_heap"] = [](Ctx& c, Args&, std::vector<Val>& r) {   // live heap objects
    uint64_t n = 0;
    for (auto& o : c.s.mem) if (o.second.p->kind == HEAP) ++n;
    r.push_back(C(n));
    return true;
  };
  // A value that the following assumption determines; it is not an input of the run.
  B["sym_witness"] = [](Ctx& c, Args& a, std::vector<Val>& r) {
    unsigned w = (unsigned)argC(c, a, 0);
    r.push_back(mk(sym::mkZExt(sym::mkVar(uniq(c.s, "witness"), w), 64)));
    return true;
  };
  B["sym_is_symbolic"] = [](Ctx&, Args& a, std::vector<Val>& r) { r.push_back(C(a[0][0].e != nullptr)); return true; };
  B["sym_symbolic"] = [](Ctx&, Args&, std::vector<Val>& r) { r.push_back(C(1)); return true; };
  B["sym_end"] = [](Ctx& c, Args&, std::vector<Val>&) -> bool { endPath(c.s, true); throw Dead("end"); };
}

static void intrinsic(Ctx& c, const IntrinsicInst* ii, Args& a, std::vector<Val>& res) {
  const DInst& d = c.d;
  unsigned w = d.w;
  auto A = [&](size_t i) -> Val& { return a[i][0]; };
  auto min = [&](sym::K k, bool mx) {
    for (int l = 0; l < d.nd; ++l) {
      Val x = a[0][(size_t)l], y = a[1][(size_t)l];
      Val lt = bin(k, x, y, w);
      if (!lt.e) res.push_back((lt.c != 0) == !mx ? x : y);
      else res.push_back(mk(mx ? sym::mkIte(lt.e, toE(y, w), toE(x, w)) : sym::mkIte(lt.e, toE(x, w), toE(y, w))));
    }
  };
  switch (ii->getIntrinsicID()) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value:
    case Intrinsic::dbg_label: case Intrinsic::dbg_assign: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch:
    case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::assume: return;
    case Intrinsic::stacksave: case Intrinsic::invariant_start: res.push_back(C(0)); return;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
      { uint64_t x = argC(c, a, 0), y = argC(c, a, 1), n = argC(c, a, 2);
        moveMem(c.s, x, y, n, ii->getIntrinsicID() == Intrinsic::memmove ? "memmove" : "memcpy"); return; }
    case Intrinsic::memset: {
      uint64_t p = argC(c, a, 0), n = argC(c, a, 2);
      if (!n) return;
      MemObj* o = findObj(c.s, p, n, true, "memset");
      for (uint64_t i = 0; i < n; ++i) storeByte(o, p - o->base + i, A(1));
      return;
    }
    case Intrinsic::umin: min(sym::Ult, false); return;
    case Intrinsic::umax: min(sym::Ult, true); return;
    case Intrinsic::smin: min(sym::Slt, false); return;
    case Intrinsic::smax: min(sym::Slt, true); return;
    case Intrinsic::abs: {
      Val neg = bin(sym::Slt, A(0), C(0), w), m = bin(sym::Sub, C(0), A(0), w);
      res.push_back(neg.e ? mk(sym::mkIte(neg.e, toE(m, w), toE(A(0), w))) : (neg.c ? m : A(0)));
      return;
    }
    case Intrinsic::bswap: {
      E x = toE(A(0), w), r = nullptr;
      for (unsigned i = 0; i < w / 8; ++i) { E b = sym::mkExtract(x, 8 * i, 8); r = r ? sym::mkConcat(r, b) : b; }
      res.push_back(mk(r));
      return;
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      uint64_t sft = argC(c, a, 2) % w;
      bool left = ii->getIntrinsicID() == Intrinsic::fshl;
      if (!sft) { res.push_back(left ? A(0) : A(1)); return; }
      unsigned l = (unsigned)(left ? sft : w - sft);
      res.push_back(bin(sym::Or, bin(sym::Shl, A(0), C(l), w), bin(sym::LShr, A(1), C(w - l), w), w));
      return;
    }
    case Intrinsic::ctpop: {
      E x = toE(A(0), w), r = sym::mkConst(0, w);
      for (unsigned i = 0; i < w; ++i) r = sym::mkBin(sym::Add, r, sym::mkZExt(sym::mkExtract(x, i, 1), w));
      res.push_back(mk(r)); return;
    }
    case Intrinsic::ctlz: case Intrinsic::cttz: {
      E x = toE(A(0), w), r = sym::mkConst(w, w);
      bool lz = ii->getIntrinsicID() == Intrinsic::ctlz;
      for (unsigned i = 0; i < w; ++i) {
        unsigned bit = lz ? i : w - 1 - i;     // innermost first
        r = sym::mkIte(sym::mkExtract(x, bit, 1), sym::mkConst(lz ? w - 1 - bit : bit, w), r);
      }
      res.push_back(mk(r)); return;
    }
    case Intrinsic::expect: res.push_back(A(0)); return;
    case Intrinsic::is_constant: res.push_back(C(0)); return;
    case Intrinsic::objectsize: res.push_back(C(~0ull)); return;
    case Intrinsic::threadlocal_address: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: res.push_back(A(0)); return;
    case Intrinsic::ceil: res.push_back(mk(sym::mkFUn(sym::FCeil, toE(A(0), 64), 64))); return;
    case Intrinsic::floor: {      // -ceil(-x)
      Val n = bin(sym::Xor, A(0), C(1ull << 63), 64);
      res.push_back(bin(sym::Xor, mk(sym::mkFUn(sym::FCeil, toE(n, 64), 64)), C(1ull << 63), 64)); return;
    }
    case Intrinsic::trunc: res.push_back(C(sym::fromD(std::trunc(sym::asD(argC(c, a, 0)))))); return;
    case Intrinsic::round: res.push_back(C(sym::fromD(std::round(sym::asD(argC(c, a, 0)))))); return;
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: res.push_back(C(sym::fromD(std::nearbyint(sym::asD(argC(c, a, 0)))))); return;
    case Intrinsic::lround: case Intrinsic::llround: res.push_back(C((uint64_t)std::llround(sym::asD(argC(c, a, 0))))); return;
    case Intrinsic::sqrt: res.push_back(C(sym::fromD(std::sqrt(sym::asD(argC(c, a, 0)))))); return;
    case Intrinsic::minnum: case Intrinsic::maxnum: {
      const bool mn = ii->getIntrinsicID() == Intrinsic::minnum;
      E x = toE(A(0), 64), y = toE(A(1), 64);
      E r = sym::mkIte(mn ? sym::mkBin(sym::FOlt, x, y) : sym::mkBin(sym::FOlt, y, x), x, y);
      res.push_back(mk(sym::mkIte(sym::mkBin(sym::FUno, y, y), x, sym::mkIte(sym::mkBin(sym::FUno, x, x), y, r)))); return;
    }
    case Intrinsic::fabs: res.push_back(bin(sym::And, A(0), C(0x7fffffffffffffffull), 64)); return;
    case Intrinsic::fmuladd: {
      Val m = bin(sym::FMul, A(0), A(1), 64);
      res.push_back(bin(sym::FAdd, m, A(2), 64)); return;
    }
    case Intrinsic::eh_typeid_for: {
      auto* g = dyn_cast<GlobalVariable>(ii->getArgOperand(0)->stripPointerCasts());
      res.push_back(C(tiSelector(g)));
      return;
    }
    case Intrinsic::trap: report(c.s, "trap", "llvm.trap reached"); throw Dead("trap");
    case Intrinsic::uadd_with_overflow: {
      Val r = bin(sym::Add, A(0), A(1), w); res.push_back(r); res.push_back(bin(sym::Ult, r, A(0), w)); return;
    }
    case Intrinsic::usub_with_overflow: {
      res.push_back(bin(sym::Sub, A(0), A(1), w)); res.push_back(bin(sym::Ult, A(0), A(1), w)); return;
    }
    case Intrinsic::umul_with_overflow: {
      Val r = bin(sym::Mul, A(0), A(1), w);
      res.push_back(r);
      if (!A(0).e && !A(1).e) {
        unsigned __int128 p = (unsigned __int128)A(0).c * A(1).c;
        res.push_back(C(w >= 64 ? (uint64_t)(p >> 64) != 0 : (uint64_t)(p >> w) != 0));
      } else {
        // overflow iff a != 0 and r / a != b
        Val q = bin(sym::UDiv, r, A(0), w);
        Val nz = vnot(bin(sym::Eq, A(0), C(0), w));
        res.push_back(bin(sym::And, nz, vnot(bin(sym::Eq, q, A(1), w)), 1));
      }
      return;
    }
    case Intrinsic::usub_sat: {
      Val lt = bin(sym::Ult, A(0), A(1), w), r = bin(sym::Sub, A(0), A(1), w);
      res.push_back(lt.e ? mk(sym::mkIte(lt.e, sym::mkConst(0, w), toE(r, w))) : (lt.c ? C(0) : r));
      return;
    }
    case Intrinsic::uadd_sat: {
      Val r = bin(sym::Add, A(0), A(1), w), lt = bin(sym::Ult, r, A(0), w);
      res.push_back(lt.e ? mk(sym::mkIte(lt.e, sym::mkConst(~0ull, w), toE(r, w))) : (lt.c ? C(sym::mask(w)) : r));
      return;
    }
    default:
      throw std::runtime_error("unsupported intrinsic " + ii->getCalledFunction()->getName().str());
  }
}

static std::map<const Function*, int> execd;

static void doCall(State& s, Frame& f, const DInst& d) {
  const CallBase* cb = cast<CallBase>(d.I);
  const Function* F = d.callee;
  size_t na = cb->arg_size();
  if (!F) {
    uint64_t p = conc(s, f, d.o[na]);
    auto it = fnAt.find(p);
    if (it == fnAt.end()) memError(s, "call through an invalid function pointer");
    F = it->second;
  }
  Args args(na);
  for (size_t i = 0; i < na; ++i) {
    int n = d.o[i].slot >= 0 ? nleaves(cb->getArgOperand((unsigned)i)->getType()) : (int)d.o[i].cv.size();
    for (int k = 0; k < n; ++k) args[i].push_back(get(f, d.o[i], k));
  }
  if (F->isIntrinsic()) {
    Ctx c{s, f, d};
    std::vector<Val> res;
    intrinsic(c, cast<IntrinsicInst>(d.I), args, res);
    finishCall(s, res);
    return;
  }
  if (F->isDeclaration()) {
    auto it = builtins.find(F->getName().str());
    if (it == builtins.end()) throw std::runtime_error("unmodelled external function " + demangle(F->getName().str()));
    Ctx c{s, f, d};
    std::vector<Val> res;
    if (it->second(c, args, res)) finishCall(s, res);
    return;
  }
  for (unsigned i = 0; i < na; ++i) if (cb->isByValArgument(i)) { concrete(s, args[i][0]); }
  pushFrame(s, F, args, cb);
}

// Execute one instruction of s. Throws Dead when the path ends.
static void step(State& s) {
  Frame& f = s.stack.back();
  const DInst& d = f.f->bb[(size_t)f.bb].in[(size_t)f.ip];
  auto setAll = [&](sym::K k) {
    for (int l = 0; l < d.nd; ++l) SL(f, d.dst + l) = bin(k, get(f, d.o[0], l), get(f, d.o[1], l), d.lw[(size_t)l]);
    ++f.ip;
  };
  auto divGuard = [&] {
    Val z = bin(sym::Eq, get(f, d.o[1]), C(0), d.w);
    if (!z.e) { if (z.c) { report(s, "arith", "division by zero"); throw Dead("div"); } return; }
    std::vector<std::pair<uint32_t, uint64_t>> m;
    auto r = solver->check(s.cs, z.e, &m);
    if (r == Solver::SAT) {
      State t(s); addC(t, z.e); setModel(t, m);
      report(t, "arith", "division by zero");
    }
    addC(s, sym::mkNot(z.e));
    if (!evalM(s, sym::mkNot(z.e))) {
      std::vector<std::pair<uint32_t, uint64_t>> m2;
      if (solver->check(s.cs, sym::mkConst(1, 1), &m2) == Solver::SAT && solver->check(s.cs, sym::mkNot(z.e), &m2) == Solver::SAT) setModel(s, m2);
      else throw Dead("div");
    }
  };
  switch (d.op) {
    case Instruction::Add: setAll(sym::Add); return;
    case Instruction::Sub: setAll(sym::Sub); return;
    case Instruction::Mul: setAll(sym::Mul); return;
    case Instruction::UDiv: divGuard(); setAll(sym::UDiv); return;
    case Instruction::SDiv: divGuard(); setAll(sym::SDiv); return;
    case Instruction::URem: divGuard(); setAll(sym::URem); return;
    case Instruction::SRem: divGuard(); setAll(sym::SRem); return;
    case Instruction::And: setAll(sym::And); return;
    case Instruction::Or: setAll(sym::Or); return;
    case Instruction::Xor: setAll(sym::Xor); return;
    case Instruction::Shl: setAll(sym::Shl); return;
    case Instruction::LShr: setAll(sym::LShr); return;
    case Instruction::AShr: setAll(sym::AShr); return;
    case Instruction::FAdd: setAll(sym::FAdd); return;
    case Instruction::FSub: setAll(sym::FSub); return;
    case Instruction::FMul: setAll(sym::FMul); return;
    case Instruction::FDiv: setAll(sym::FDiv); return;
    case Instruction::FNeg: SL(f, d.dst) = bin(sym::Xor, get(f, d.o[0]), C(1ull << 63), 64); ++f.ip; return;
    case Instruction::ICmp: {
      for (int l = 0; l < d.nd; ++l) {
        Val a = get(f, d.o[0], l), b = get(f, d.o[1], l), r;
        switch ((CmpInst::Predicate)d.k) {
          case CmpInst::ICMP_EQ: r = bin(sym::Eq, a, b, d.w); break;
          case CmpInst::ICMP_NE: r = vnot(bin(sym::Eq, a, b, d.w)); break;
          case CmpInst::ICMP_ULT: r = bin(sym::Ult, a, b, d.w); break;
          case CmpInst::ICMP_ULE: r = bin(sym::Ule, a, b, d.w); break;
          case CmpInst::ICMP_UGT: r = bin(sym::Ult, b, a, d.w); break;
          case CmpInst::ICMP_UGE: r = bin(sym::Ule, b, a, d.w); break;
          case CmpInst::ICMP_SLT: r = bin(sym::Slt, a, b, d.w); break;
          case CmpInst::ICMP_SLE: r = bin(sym::Sle, a, b, d.w); break;
          case CmpInst::ICMP_SGT: r = bin(sym::Slt, b, a, d.w); break;
          case CmpInst::ICMP_SGE: r = bin(sym::Sle, b, a, d.w); break;
          default: throw std::runtime_error("icmp");
        }
        SL(f, d.dst + l) = r;
      }
      ++f.ip;
      return;
    }
    case Instruction::FCmp: {
      if (d.w != 64) throw std::runtime_error("float compare");
      Val a = get(f, d.o[0]), b = get(f, d.o[1]), r;
      auto lt = [&](Val x, Val y) { return bin(sym::FOlt, x, y, 64); };
      auto le = [&](Val x, Val y) { return bin(sym::FOle, x, y, 64); };
      auto eq = bin(sym::FOeq, a, b, 64);
      auto un = bin(sym::FUno, a, b, 64);
      auto orr = [&](Val x, Val y) { return bin(sym::Or, x, y, 1); };
      switch ((CmpInst::Predicate)d.k) {
        case CmpInst::FCMP_FALSE: r = C(0); break;
        case CmpInst::FCMP_TRUE: r = C(1); break;
        case CmpInst::FCMP_OEQ: r = eq; break;
        case CmpInst::FCMP_OGT: r = lt(b, a); break;
        case CmpInst::FCMP_OGE: r = le(b, a); break;
        case CmpInst::FCMP_OLT: r = lt(a, b); break;
        case CmpInst::FCMP_OLE: r = le(a, b); break;
        case CmpInst::FCMP_ONE: r = vnot(orr(eq, un)); break;
        case CmpInst::FCMP_ORD: r = vnot(un); break;
        case CmpInst::FCMP_UNO: r = un; break;
        case CmpInst::FCMP_UEQ: r = orr(eq, un); break;
        case CmpInst::FCMP_UGT: r = vnot(le(a, b)); break;
        case CmpInst::FCMP_UGE: r = vnot(lt(a, b)); break;
        case CmpInst::FCMP_ULT: r = vnot(le(b, a)); break;
        case CmpInst::FCMP_ULE: r = vnot(lt(b, a)); break;
        case CmpInst::FCMP_UNE: r = vnot(eq); break;
        default: throw std::runtime_error("fcmp");
      }
      SL(f, d.dst) = r; ++f.ip;
      return;
    }
    case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast:
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Freeze: {
      for (int l = 0; l < d.nd; ++l) {
        Val v = get(f, d.o[0], l);
        unsigned from = d.op == Instruction::Freeze ? d.lw[(size_t)l] : d.sw[std::min((size_t)l, d.sw.size() - 1)], to = d.lw[(size_t)l];
        if (d.op == Instruction::BitCast && (d.sw.size() != d.lw.size())) throw std::runtime_error("vector bitcast");
        Val r;
        if (!v.e) r = C((d.op == Instruction::SExt ? (uint64_t)sym::sext(v.c, from) : v.c) & sym::mask(to));
        else if (to < from) r = mk(sym::mkExtract(v.e, 0, to));
        else if (d.op == Instruction::SExt) r = mk(sym::mkSExt(v.e, to));
        else r = mk(sym::mkZExt(v.e, to));
        SL(f, d.dst + l) = r;
      }
      ++f.ip;
      return;
    }
    case Instruction::UIToFP: case Instruction::SIToFP:
      if (d.w != 64) throw std::runtime_error("float");
      SL(f, d.dst) = mk(sym::mkFUn(d.op == Instruction::UIToFP ? sym::UIToFP : sym::SIToFP, toE(get(f, d.o[0]), d.sw[0]), 64));
      ++f.ip; return;
    case Instruction::FPToUI: case Instruction::FPToSI:
      if (d.sw[0] != 64) throw std::runtime_error("float");
      SL(f, d.dst) = mk(sym::mkFUn(d.op == Instruction::FPToUI ? sym::FPToUI : sym::FPToSI, toE(get(f, d.o[0]), 64), d.w));
      ++f.ip; return;
    case Instruction::Alloca: {
      uint64_t n = conc(s, f, d.o[0]);
      MemObj* o = newObj(s, d.k * n, d.sc[0], STACK, false);
      f.allocas.push_back(o->base);
      SL(f, d.dst) = C(o->base);
      ++f.ip;
      return;
    }
    case Instruction::Load: {
      uint64_t a = conc(s, f, d.o[0]);
      MemObj* o = findObj(s, a, d.k, false, "load");
      for (int l = 0; l < d.nd; ++l) SL(f, d.dst + l) = loadInt(s, o, a - o->base + d.lo[(size_t)l], d.lw[(size_t)l]);
      ++f.ip;
      return;
    }
    case Instruction::Store: {
      uint64_t a = conc(s, f, d.o[1]);
      MemObj* o = findObj(s, a, d.k, true, "store");
      for (size_t l = 0; l < d.lw.size(); ++l) storeInt(o, a - o->base + d.lo[l], get(f, d.o[0], (int)l), d.lw[l]);
      ++f.ip;
      return;
    }
    case Instruction::GetElementPtr: {
      Val r = bin(sym::Add, get(f, d.o[0]), C(d.k), 64);
      for (size_t i = 0; i < d.sc.size(); ++i) {
        Val x = get(f, d.o[i + 1]);
        unsigned w = d.sw[i];
        Val y = !x.e ? C((uint64_t)sym::sext(x.c, w)) : (w < 64 ? mk(sym::mkSExt(x.e, 64)) : x);
        r = bin(sym::Add, r, bin(sym::Mul, y, C(d.sc[i]), 64), 64);
      }
      SL(f, d.dst) = r;
      ++f.ip;
      return;
    }
    case Instruction::Select: {
      Val c = get(f, d.o[0]);
      if (c.e) { auto k = s.known.find(c.e); if (k != s.known.end()) c = C(k->second); }
      for (int l = 0; l < d.nd; ++l) {
        if (!c.e) SL(f, d.dst + l) = get(f, d.o[(c.c & 1) ? 1 : 2], l);
        else SL(f, d.dst + l) = mk(sym::mkIte(c.e, toE(get(f, d.o[1], l), d.lw[(size_t)l]), toE(get(f, d.o[2], l), d.lw[(size_t)l])));
      }
      ++f.ip;
      return;
    }
    case Instruction::Br: {
      if (d.s1 < 0) { gotoBB(s, f, d.s0); return; }
      int a = d.s0, b = d.s1;
      bool t = decide(s, get(f, d.o[0]), [&](State& n, bool side) { gotoBB(n, n.stack.back(), side ? a : b); });
      Frame& g = s.stack.back();
      gotoBB(s, g, t ? a : b);
      return;
    }
    case Instruction::Switch: {
      Val v = get(f, d.o[0]);
      if (v.e) { auto k = s.known.find(v.e); if (k != s.known.end()) v = C(k->second); }
      if (!v.e) {
        for (auto& c : d.cases) if (c.first == v.c) { gotoBB(s, f, c.second); return; }
        gotoBB(s, f, d.s0);
        return;
      }
      // group cases by destination
      std::map<int, E> g;
      E none = sym::mkConst(1, 1);
      for (auto& c : d.cases) {
        E e = sym::mkBin(sym::Eq, v.e, sym::mkConst(c.first, d.w));
        auto it = g.find(c.second);
        if (it == g.end()) g[c.second] = e; else it->second = sym::mkBin(sym::Or, it->second, e);
        none = sym::mkBin(sym::And, none, sym::mkNot(e));
      }
      auto it = g.find(d.s0);
      if (it == g.end()) g[d.s0] = none; else it->second = sym::mkBin(sym::Or, it->second, none);
      int mine = -1;
      for (auto& kv : g) {
        if (mine < 0 && evalM(s, kv.second)) { mine = kv.first; continue; }
        std::vector<std::pair<uint32_t, uint64_t>> m;
        if (solver->check(s.cs, kv.second, &m) == Solver::SAT) {
          State* n = forkState(s);
          addC(*n, kv.second);
          setModel(*n, m);
          gotoBB(*n, n->stack.back(), kv.first);
          work.push_back(n);
        }
      }
      addC(s, g[mine]);
      gotoBB(s, f, mine);
      return;
    }
    case Instruction::Call: case Instruction::Invoke: doCall(s, f, d); return;
    case Instruction::Ret: {
      std::vector<Val> res;
      if (!d.o.empty()) { int n = nleaves(d.I->getOperand(0)->getType()); for (int k = 0; k < n; ++k) res.push_back(get(f, d.o[0], k)); }
      popFrame(s);
      if (s.stack.empty()) throw Dead("ret");
      finishCall(s, res);
      return;
    }
    case Instruction::ExtractValue:
      for (int l = 0; l < d.nd; ++l) SL(f, d.dst + l) = get(f, d.o[0], (int)d.k + l);
      ++f.ip; return;
    case Instruction::InsertValue: {
      for (int l = 0; l < d.nd; ++l) SL(f, d.dst + l) = get(f, d.o[0], l);
      for (int l = 0; l < (int)d.sc[0]; ++l) SL(f, d.dst + (int)d.k + l) = get(f, d.o[1], l);
      ++f.ip; return;
    }
    case Instruction::ExtractElement: SL(f, d.dst) = get(f, d.o[0], (int)d.k); ++f.ip; return;
    case Instruction::InsertElement:
      for (int l = 0; l < d.nd; ++l) SL(f, d.dst + l) = get(f, d.o[0], l);
      SL(f, d.dst + (int)d.k) = get(f, d.o[1]);
      ++f.ip; return;
    case Instruction::ShuffleVector:
      for (int l = 0; l < d.nd; ++l) {
        int64_t m = (int64_t)d.sc[(size_t)l];
        SL(f, d.dst + l) = m < 0 ? C(0) : m < (int64_t)d.k ? get(f, d.o[0], (int)m) : get(f, d.o[1], (int)(m - (int64_t)d.k));
      }
      ++f.ip; return;
    case Instruction::Resume: {
      uint64_t o = conc(s, f, d.o[0]);
      popFrame(s);
      unwind(s, o);
      return;
    }
    case Instruction::Fence: ++f.ip; return;
    case Instruction::Unreachable:
      report(s, "unreachable", "unreachable code reached (undefined behaviour)");
      throw Dead("unreachable");
    default: {
      std::string t; raw_string_ostream os(t); d.I->print(os);
      throw std::runtime_error("unsupported instruction " + t);
    }
  }
}

// Run s until it ends or `stop` asks to yield.
static bool runState(State* s, bool yieldOnFork) {
  size_t w0 = work.size();
  try {
    while (true) {
      step(*s);
      ++st.steps;
      if (++s->steps > opt.maxSteps) {
        report(*s, "nontermination", "path exceeds " + std::to_string(opt.maxSteps) + " instructions");
        throw Dead("steps");
      }
      if ((st.steps & 0xfff) == 0) {
        if (sh->stop) break;
        if (now() - t0 > opt.budget) { st.inconclusive.insert("time budget exhausted"); sh->stop = 1; break; }
      }
      if (yieldOnFork && work.size() != w0) return true;
    }
  } catch (Dead& e) {
    if (std::string(e.what()) == "ret") endPath(*s, true);
    else if (std::string(e.what()) != "end" && !opt.concrete.empty()) { endPath(*s, false); printf("DEAD %s\n", e.what()); }
  } catch (std::exception& e) {
    st.inconclusive.insert(std::string("engine: ") + e.what() + " at " + where(*s));
    if (opt.verbose) fprintf(stderr, "ENGINE: %s at %s\n", e.what(), where(*s).c_str());
  }
  delete s;
  return false;
}

// ------------------------------------------------------------------------------------------------
// Output (a line-based format: merged by the parent, consumed by the Python driver)
// ------------------------------------------------------------------------------------------------
static void writeOut(const std::string& file) {
  std::ofstream o(file);
  o << "{\"paths\":" << st.paths << ",\"steps\":" << st.steps << ",\"forks\":" << st.forks << ",\"assumed_away\":" << st.assumed_away
    << ",\"q_interval\":" << st.q_interval << ",\"q_total\":" << st.q_total << ",\"q_sat\":" << st.q_sat << ",\"q_unsat\":" << st.q_unsat << ",\"q_unknown\":" << st.q_unknown
    << ",\"q_cache\":" << st.q_cache << ",\"checks\":" << st.checks << ",\"checks_solver\":" << st.checks_solver
    << ",\"checks_folded\":" << st.checks_folded << ",\"mem_checks\":" << st.memchecks << ",\"solver_s\":" << st.solver_s
    << ",\"solver_max\":" << st.solver_max << ",\"wall_s\":" << (now() - t0) << ",\"exprs\":" << sym::nbExprs();
  o << ",\"covers\":{";
  bool first = true;
  for (auto& c : st.covers) { o << (first ? "" : ",") << js(c.first) << ":" << c.second; first = false; }
  o << "},\"check_msgs\":{";
  first = true;
  for (auto& c : st.checkMsgs) { o << (first ? "" : ",") << js(c.first) << ":" << c.second; first = false; }
  o << "},\"inconclusive\":" << jsList(std::vector<std::string>(st.inconclusive.begin(), st.inconclusive.end()));
  std::vector<std::string> fn;
  for (auto& d : dfuncs) fn.push_back(demangle(d.first->getName().str()));
  std::sort(fn.begin(), fn.end());
  o << ",\"functions\":" << jsList(fn);
  auto viol = [&](const std::vector<Violation>& vs) {
    o << "[";
    for (size_t i = 0; i < vs.size(); ++i) {
      auto& v = vs[i];
      o << (i ? "," : "") << "{\"kind\":" << js(v.kind) << ",\"msg\":" << js(v.msg) << ",\"loc\":" << js(v.loc)
        << ",\"inputs\":" << jsList(v.inputs) << ",\"trace\":" << jsList(v.trace) << "}";
    }
    o << "]";
  };
  o << ",\"violations\":"; viol(violations);
  o << ",\"samples\":"; viol(sampleRuns);
  o << "}\n";
}

int main(int argc, char** argv) {
  t0 = now();
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&] { return std::string(argv[++i]); };
    if (a == "-e") opt.entry = val();
    else if (a == "-o") opt.out = val();
    else if (a == "-j") opt.jobs = (unsigned)std::stoul(val());
    else if (a == "-t") opt.budget = std::stod(val());
    else if (a == "-q") opt.solverMs = (unsigned)std::stoul(val());
    else if (a == "-s") opt.maxSteps = std::stoull(val());
    else if (a == "-split") opt.split = (unsigned)std::stoul(val());
    else if (a == "-samples") opt.samples = (unsigned)std::stoul(val());
    else if (a == "-raw") sym::rawXor = true;
    else if (a == "-maxviol") maxViol = (unsigned)std::stoul(val());
    else if (a == "-c") opt.concrete = val();
    else if (a == "-v") opt.verbose = true;
    else if (a == "-P") { std::string p = val(); auto e = p.find('='); opt.params[p.substr(0, e)] = std::stoll(p.substr(e + 1)); }
    else opt.file = a;
  }
  sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  new (sh) Shared{{0}, {0}, {0}};
  if (!opt.concrete.empty()) {
    std::ifstream in(opt.concrete);
    std::string line;
    while (std::getline(in, line)) {
      std::istringstream is(line);
      ConcreteInput ci; unsigned w; size_t n;
      if (!(is >> ci.name >> w >> n)) continue;
      std::string h;
      while (is >> h) ci.v.push_back(std::stoull(h, nullptr, 16));
      concIn.push_back(ci);
    }
  }
  LLVMContext ctx;
  SMDiagnostic err;
  auto mod = parseIRFile(opt.file, err, ctx);
  if (!mod) { err.print(argv[0], errs()); return 3; }
  M = mod.get();
  DL = &M->getDataLayout();
  solver = new Solver;
  initBuiltins();

  auto* s = new State;
  try {
    // functions get fake addresses
    uint64_t fa = 0x10000;
    for (auto& F : *M) { gaddr[&F] = fa; fnAt[fa] = &F; fa += 16; }
    std::vector<GlobalVariable*> gs;
    for (auto& g : M->globals()) {
      if (g.getName().starts_with("llvm.")) continue;
      uint64_t sz = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 8;
      if (!g.hasInitializer()) sz = std::max<uint64_t>(sz, 256);     // opaque external object
      MemObj* o = newObj(*s, sz, 16, GLOBAL, true);
      gaddr[&g] = o->base;
      gvAt[o->base] = &g;
      gs.push_back(&g);
    }
    for (auto* g : gs) {
      if (!g->hasInitializer()) continue;
      MemObj* o = s->mem[gaddr[g]].p;
      Type* t = g->getValueType();
      if (isa<ConstantAggregateZero>(g->getInitializer()) || isa<UndefValue>(g->getInitializer())) { o->ro = g->isConstant(); continue; }
      std::vector<unsigned> lw; std::vector<uint64_t> lo; std::vector<Val> cv;
      leaves(t, 0, lw, &lo);
      try { constLeaves(g->getInitializer(), cv); }
      catch (std::exception& e) { if (opt.verbose) fprintf(stderr, "global %s: %s\n", g->getName().str().c_str(), e.what()); continue; }
      for (size_t i = 0; i < lw.size(); ++i) storeInt(o, lo[i], cv[i], lw[i]);
      o->ro = g->isConstant();
    }
    s->gen = ++genCounter;
    if (auto* g = M->getNamedGlobal("sym_alloc_fail")) allocFailAt = gaddr[g];
    // constructors, then the harness
    std::vector<const Function*> seqF;
    if (auto* gc = M->getNamedGlobal("llvm.global_ctors")) {
      auto* arr = dyn_cast<ConstantArray>(gc->getInitializer());
      if (arr) for (auto& o : arr->operands()) if (auto* F = dyn_cast<Function>(cast<ConstantStruct>(o)->getOperand(1))) seqF.push_back(F);
    }
    const Function* H = M->getFunction(opt.entry);
    if (!H || H->isDeclaration()) { fprintf(stderr, "no entry %s\n", opt.entry.c_str()); return 3; }
    for (auto* F : seqF) {
      pushFrame(*s, F, {});
      try { while (true) step(*s); } catch (Dead& e) { if (!s->stack.empty()) { fprintf(stderr, "global constructor failed: %s\n", e.what()); return 3; } }
    }
    pushFrame(*s, H, {});
  } catch (std::exception& e) { fprintf(stderr, "init: %s\n", e.what()); return 3; }

  // Phase 1: breadth-first until the frontier is wide enough
  std::vector<State*> frontier{s};
  size_t head = 0;
  if (opt.jobs > 1) {
    while (head < frontier.size() && frontier.size() - head < opt.split && !sh->stop) {
      State* x = frontier[head++];
      work.clear();
      bool alive = runState(x, true);
      for (auto* n : work) frontier.push_back(n);
      work.clear();
      if (alive) frontier.push_back(x);
    }
    frontier.erase(frontier.begin(), frontier.begin() + (long)head);
  }
  if (opt.jobs <= 1 || frontier.empty() || sh->stop) {
    work.swap(frontier);
    while (!work.empty() && !sh->stop) {
      State* x = work.back(); work.pop_back();
      runState(x, false);
    }
    writeOut(opt.out);
  } else {
    // Phase 2: workers take frontier states from a shared counter
    std::vector<pid_t> kids;
    for (unsigned j = 0; j < opt.jobs; ++j) {
      pid_t p = fork();
      if (p == 0) {
        Stats base; std::swap(base, st);     // children report only their own work
        violations.clear(); sampleRuns.clear();
        st.inconclusive.clear();
        while (!sh->stop) {
          uint64_t i = sh->next++;
          if (i >= frontier.size()) break;
          work.clear();
          work.push_back(frontier[i]);
          while (!work.empty() && !sh->stop) {
            State* x = work.back(); work.pop_back();
            runState(x, false);
          }
        }
        writeOut(opt.out + "." + std::to_string(j));
        _exit(0);
      }
      kids.push_back(p);
    }
    int bad = 0;
    for (auto p : kids) { int r; waitpid(p, &r, 0); if (!WIFEXITED(r) || WEXITSTATUS(r)) ++bad; }
    if (bad) st.inconclusive.insert(std::to_string(bad) + " worker(s) died");
    writeOut(opt.out);      // parent part; the driver merges out, out.0, out.1, ...
  }
  _exit(0);
}
