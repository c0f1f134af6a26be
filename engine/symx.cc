// symx: symbolic executor for LLVM IR over doubles-as-reals or IEEE doubles.
#include <pthread.h>
#include <sys/resource.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <random>
#include <sstream>

#include "expr.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"

using namespace symx;
using llvm::cast;
using llvm::dyn_cast;
using llvm::isa;

// ---------------------------------------------------------------------------
struct Unsupported {
  std::string msg;
};
struct Violation {
  std::string kind, msg;
};
struct PathStop {
  std::string why;
};

struct Leaf {
  Kind k;
  uint8_t w;     // bits
  uint32_t off;  // byte offset
  uint8_t bytes() const { return (w + 7) / 8; }
  bool unsupported = false;
};

struct Obj {
  std::vector<uint8_t> data, init;
  std::vector<Expr*> sym;
  std::vector<uint8_t> symoff;
  std::vector<uint8_t> prot;
  bool live = true;
  bool constant = false;
  char kind = 'h';  // h heap, s stack, g global, f function, t typeinfo
  std::string name;
  bool hasSym = false;
  bool tls = false;  // thread-local global
  bool isStatic = false;  // heap block that belongs to a static object
  void Resize(size_t n, bool inited) {
    data.assign(n, 0);
    init.assign(n, inited ? 1 : 0);
  }
};

struct FuncInfo;
struct Ins {
  int op = 0;  // llvm opcode
  int sub = 0;
  Leaf res{K_I, 64, 0};
  int32_t dst = -1;
  int ndst = 0;
  std::vector<int32_t> ops;      // flattened operand leaves
  std::vector<Leaf> leaves;      // for load/store/phi/select/ret
  std::vector<int32_t> opstart;  // operand -> index into ops
  int64_t goff = 0;              // gep constant offset
  std::vector<int64_t> gscale;
  int bb1 = -1, bb2 = -1;
  std::vector<std::pair<uint64_t, int>> cases;
  llvm::Instruction* I = nullptr;
  FuncInfo* callee = nullptr;
  uint8_t w1 = 0;  // source width
};
struct Block {
  bool seen = false;
  std::vector<Ins> ins;
  llvm::BasicBlock* bb;
};
struct FuncInfo {
  llvm::Function* F = nullptr;
  bool lowered = false;
  std::vector<Block> blocks;
  std::vector<Val> consts;
  int nslots = 0;
  int argslots = 0;
  std::string name;
  bool executed = false;
  std::string dem;
};

struct Frame {
  FuncInfo* f;
  int bb = 0, ip = 0, prev = -1;
  std::vector<Val> r;
  std::vector<uint32_t> allocas;
  int32_t retdst = -1;
  int nret = 0;
};

// ---------------------------------------------------------------------------
static llvm::LLVMContext g_ctx;
static std::unique_ptr<llvm::Module> g_mod;
static const llvm::DataLayout* DL;
static std::unordered_map<const llvm::Function*, FuncInfo*> g_funcs;
static std::vector<Obj*> g_pristine;  // initial objects
static std::unordered_map<const llvm::GlobalValue*, uint32_t> g_gvobj;
static std::unordered_map<uint32_t, FuncInfo*> g_objfunc;
static std::unordered_map<std::string, uint32_t> g_typeinfo;  // by name

struct Options {
  std::string entry;
  std::vector<int64_t> args;
  unsigned tmo = 4000, btmo = 500;
  uint64_t maxpaths = 200000;
  double budget = 600;
  uint64_t maxsteps = 400000000;
  int maxviol = 1;
  uint64_t seed = 1;
  bool noGlobalStores = false;
  bool forkSelect = true;
  bool lazy = false, generic = false, reuse = false;
  bool round = false;  // real mode: constants are rounded like the machine does
  bool verbose = false, verbose2 = false;
  std::string out;
  uint64_t confirm = 0;
} opt;

struct Stats {
  uint64_t paths = 0, endpaths = 0, infeasible = 0, nonfinite = 0, throws = 0;
  uint64_t steps = 0, forks = 0;
  uint64_t oblig = 0, obligConcrete = 0, obligNorm = 0, obligSmt = 0;
  uint64_t branchSmt = 0;
  std::map<std::string, uint64_t> reach, reachSat, reachTried, obligMsg;
  std::set<std::string> funcs, externs, globalStores, lines;
  uint64_t confirmed = 0, confirmTried = 0;
  uint64_t loads = 0, stores = 0, symloads = 0;
} st;

static void Flatten(llvm::Type* t, uint32_t off, std::vector<Leaf>* out) {
  if (t->isDoubleTy()) {
    out->push_back({K_F, 64, off});
  } else if (t->isFloatTy()) {
    Leaf l{K_F, 32, off};
    out->push_back(l);
  } else if (t->isPointerTy()) {
    out->push_back({K_I, 64, off});
  } else if (auto* it = dyn_cast<llvm::IntegerType>(t)) {
    Leaf l{K_I, (uint8_t)std::min(it->getBitWidth(), 64u), off};
    if (it->getBitWidth() > 64) l.unsupported = true;
    out->push_back(l);
  } else if (auto* s = dyn_cast<llvm::StructType>(t)) {
    auto* sl = DL->getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); i++)
      Flatten(s->getElementType(i), off + sl->getElementOffset(i), out);
  } else if (auto* a = dyn_cast<llvm::ArrayType>(t)) {
    uint64_t sz = DL->getTypeAllocSize(a->getElementType());
    for (uint64_t i = 0; i < a->getNumElements(); i++)
      Flatten(a->getElementType(), off + i * sz, out);
  } else if (auto* v = dyn_cast<llvm::FixedVectorType>(t)) {
    uint64_t sz = DL->getTypeAllocSize(v->getElementType());
    for (unsigned i = 0; i < v->getNumElements(); i++)
      Flatten(v->getElementType(), off + i * sz, out);
  } else if (t->isVoidTy() || t->isMetadataTy() || t->isLabelTy()) {
  } else {
    Leaf l{K_F, 64, off};
    l.unsupported = true;
    out->push_back(l);
  }
}
static int NLeaves(llvm::Type* t) {
  std::vector<Leaf> l;
  Flatten(t, 0, &l);
  return (int)l.size();
}
static uint64_t MaskW(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static int64_t SExtW(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ull << (w - 1);
  v &= MaskW(w);
  return (int64_t)((v ^ m) - m);
}

// Globals -----------------------------------------------------------------------
static uint32_t NewPristine(Obj* o) {
  g_pristine.push_back(o);
  return (uint32_t)g_pristine.size() - 1;
}
static uint64_t AddrOfGV(const llvm::GlobalValue* gv) {
  if (auto* ga = dyn_cast<llvm::GlobalAlias>(gv))
    return AddrOfGV(cast<llvm::GlobalValue>(
        ga->getAliasee()->stripPointerCasts()));
  auto it = g_gvobj.find(gv);
  if (it == g_gvobj.end()) throw Unsupported{"unknown global"};
  return (uint64_t)it->second << 32;
}

static Val EvalConst(const llvm::Constant* c);
static void EvalConstLeaves(const llvm::Constant* c, std::vector<Val>* out) {
  llvm::Type* t = c->getType();
  if (isa<llvm::UndefValue>(c)) {  // includes poison
    std::vector<Leaf> l;
    Flatten(t, 0, &l);
    for (auto& x : l) out->push_back(Val{0, g_pool.Undef(x.k, x.w)});
    return;
  }
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
    if (isa<llvm::ConstantAggregateZero>(c)) {
      int n = NLeaves(t);
      for (int i = 0; i < n; i++) out->push_back(CI(0));
      return;
    }
    unsigned n = t->isStructTy()  ? t->getStructNumElements()
                 : t->isArrayTy() ? t->getArrayNumElements()
                                  : cast<llvm::FixedVectorType>(t)->getNumElements();
    for (unsigned i = 0; i < n; i++)
      EvalConstLeaves(c->getAggregateElement(i), out);
    return;
  }
  out->push_back(EvalConst(c));
}
static Val EvalConst(const llvm::Constant* c) {
  if (auto* ci = dyn_cast<llvm::ConstantInt>(c)) {
    if (ci->getBitWidth() > 64) return Val{0, g_pool.Undef(K_I, 64)};
    return CI(ci->getZExtValue());
  }
  if (auto* cf = dyn_cast<llvm::ConstantFP>(c)) {
    if (c->getType()->isDoubleTy() || c->getType()->isFloatTy())
      return CI(cf->getValueAPF().bitcastToAPInt().getZExtValue());
    return Val{0, g_pool.Undef(K_F, 64)};
  }
  if (isa<llvm::ConstantPointerNull>(c)) return CI(0);
  if (auto* gv = dyn_cast<llvm::GlobalValue>(c)) return CI(AddrOfGV(gv));
  if (auto* ce = dyn_cast<llvm::ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case llvm::Instruction::GetElementPtr: {
        llvm::APInt off(64, 0);
        auto* g = cast<llvm::GEPOperator>(ce);
        if (!g->accumulateConstantOffset(*DL, off))
          throw Unsupported{"const gep"};
        Val b = EvalConst(cast<llvm::Constant>(g->getPointerOperand()));
        return CI(b.c + (uint64_t)off.getSExtValue());
      }
      case llvm::Instruction::BitCast:
      case llvm::Instruction::PtrToInt:
      case llvm::Instruction::IntToPtr:
      case llvm::Instruction::AddrSpaceCast:
        return EvalConst(ce->getOperand(0));
      case llvm::Instruction::Trunc: {
        Val v = EvalConst(ce->getOperand(0));
        v.c &= MaskW(ce->getType()->getIntegerBitWidth());
        return v;
      }
      case llvm::Instruction::Sub:
        return CI(EvalConst(ce->getOperand(0)).c - EvalConst(ce->getOperand(1)).c);
      case llvm::Instruction::Add:
        return CI(EvalConst(ce->getOperand(0)).c + EvalConst(ce->getOperand(1)).c);
      default:
        throw Unsupported{"const expr"};
    }
  }
  if (isa<llvm::UndefValue>(c)) {
    return Val{0, g_pool.Undef(c->getType()->isFloatingPointTy() ? K_F : K_I, 64)};
  }
  if (c->isNullValue()) return CI(0);
  throw Unsupported{"constant kind"};
}

static void InitGlobalMem(Obj* o, uint32_t off, const llvm::Constant* c) {
  if (isa<llvm::UndefValue>(c)) return;
  if (c->isNullValue()) {
    uint64_t n = DL->getTypeStoreSize(c->getType());
    for (uint64_t i = 0; i < n; i++) o->init[off + i] = 1;
    return;
  }
  std::vector<Leaf> l;
  Flatten(c->getType(), off, &l);
  std::vector<Val> v;
  EvalConstLeaves(c, &v);
  for (size_t i = 0; i < l.size(); i++) {
    if (v[i].e) continue;
    unsigned n = l[i].bytes();
    memcpy(&o->data[l[i].off], &v[i].c, n);
    for (unsigned j = 0; j < n; j++) o->init[l[i].off + j] = 1;
  }
}

static uint32_t TypeInfoObj(const std::string& name) {
  auto it = g_typeinfo.find(name);
  if (it != g_typeinfo.end()) return it->second;
  Obj* o = new Obj();
  o->Resize(64, true);
  o->kind = 't';
  o->name = name;
  o->constant = true;
  uint32_t id = NewPristine(o);
  g_typeinfo[name] = id;
  return id;
}

// Library objects the module only declares: streams whose output is discarded and the
// virtual tables of the standard exceptions.
static void InitLibraryGlobal(Obj* o, const std::function<uint64_t(const char*)>& fn,
                              const std::function<uint64_t()>& ctype) {
  auto put = [&](uint32_t off, uint64_t v) { memcpy(&o->data[off], &v, 8); };
  const std::string& n = o->name;
  if (n == "_ZSt4cout" || n == "_ZSt4cerr" || n == "_ZSt4clog") {
    put(0, ctype() + 24);  // vtable: offset of the virtual base
    put(8 + 8, 6);         // ios_base::_M_precision
    o->data[8 + 224] = ' ';
    o->data[8 + 225] = 1;
    put(8 + 240, ctype() + 1000);
  } else if (n.rfind("_ZTVSt", 0) == 0 && n.find("info") == std::string::npos) {
    put(16, fn("_ZNSt9exceptionD1Ev"));
    put(24, fn("_ZNSt9exceptionD0Ev"));
    put(32, fn("_ZNKSt9exception4whatEv"));
  }
}

static uint64_t g_exvtable;  // virtual table of a standard exception

static void LoadGlobals() {
  {
    auto* pt = llvm::PointerType::get(g_ctx, 0);
    auto* vt = llvm::FunctionType::get(llvm::Type::getVoidTy(g_ctx), {pt}, false);
    g_mod->getOrInsertFunction("_ZNSt9exceptionD1Ev", vt);
    g_mod->getOrInsertFunction("_ZNSt9exceptionD0Ev", vt);
    g_mod->getOrInsertFunction("_ZNKSt9exception4whatEv", llvm::FunctionType::get(pt, {pt}, false));
    auto* at = llvm::ArrayType::get(llvm::Type::getInt8Ty(g_ctx), 64);
    if (!g_mod->getNamedGlobal("_ZTVSt13runtime_error"))
      new llvm::GlobalVariable(*g_mod, at, true, llvm::GlobalValue::ExternalLinkage, nullptr,
                               "_ZTVSt13runtime_error");
  }
  g_pristine.push_back(new Obj());  // id 0 = null
  g_pristine[0]->live = false;
  for (auto& F : *g_mod) {
    Obj* o = new Obj();
    o->kind = 'f';
    o->name = F.getName().str();
    o->constant = true;
    uint32_t id = NewPristine(o);
    g_gvobj[&F] = id;
    auto* fi = new FuncInfo();
    fi->F = &F;
    fi->name = o->name;
    fi->dem = llvm::demangle(fi->name);
    g_funcs[&F] = fi;
    g_objfunc[id] = fi;
  }
  for (auto& G : g_mod->globals()) {
    std::string nm = G.getName().str();
    if (!G.hasInitializer() && nm.rfind("_ZTI", 0) == 0) {
      g_gvobj[&G] = TypeInfoObj(nm);
      continue;
    }
    Obj* o = new Obj();
    o->kind = 'g';
    o->name = nm;
    uint64_t n = DL->getTypeAllocSize(G.getValueType());
    o->Resize(std::max<uint64_t>(n, 1), false);
    if (!G.hasInitializer()) {
      o->Resize(std::max<uint64_t>(n, 4096), true);
    }
    o->constant = G.isConstant();
    o->tls = G.isThreadLocal();
    uint32_t id = NewPristine(o);
    if (!G.hasInitializer()) {
      static uint64_t ct = 0;
      InitLibraryGlobal(
          o, [](const char* f) { return AddrOfGV(g_mod->getFunction(f)); },
          [&]() {
            if (!ct) {  // a vtable with the virtual base at 8, and at 1000 a ctype<char>
              Obj* c = new Obj();
              c->kind = 'g';
              c->name = "ctype";
              c->Resize(2048, true);
              c->data[0] = 8;
              c->data[1000 + 56] = 1;
              for (int i = 0; i < 256; i++) c->data[1000 + 57 + i] = i;
              ct = (uint64_t)NewPristine(c) << 32;
            }
            return ct;
          });
      if (nm == "_ZTVSt13runtime_error") g_exvtable = ((uint64_t)id << 32) + 16;
    }
    g_gvobj[&G] = id;
    if (nm.rfind("_ZTI", 0) == 0) g_typeinfo[nm] = id;
  }
  for (auto& G : g_mod->globals())
    if (G.hasInitializer()) {
      Obj* o = g_pristine[g_gvobj[&G]];
      InitGlobalMem(o, 0, G.getInitializer());
      // padding is harmless in globals
      std::fill(o->init.begin(), o->init.end(), 1);
    }
}

// Lowering ------------------------------------------------------------------------
struct Lowerer {
  FuncInfo* fi;
  std::unordered_map<const llvm::Value*, int> slot;
  std::unordered_map<const llvm::BasicBlock*, int> bbix;

  int32_t ConstSlot(const Val& v) {
    fi->consts.push_back(v);
    return -(int32_t)fi->consts.size();
  }
  void Operand(const llvm::Value* v, std::vector<int32_t>* out) {
    if (auto* c = dyn_cast<llvm::Constant>(v)) {
      std::vector<Val> vs;
      EvalConstLeaves(c, &vs);
      for (auto& x : vs) out->push_back(ConstSlot(x));
      return;
    }
    if (isa<llvm::MetadataAsValue>(v) || isa<llvm::InlineAsm>(v)) return;
    auto it = slot.find(v);
    if (it == slot.end()) throw Unsupported{"operand slot"};
    int n = NLeaves(v->getType());
    for (int i = 0; i < n; i++) out->push_back(it->second + i);
  }
  void Lower() {
    llvm::Function& F = *fi->F;
    int s = 0;
    for (auto& a : F.args()) {
      slot[&a] = s;
      s += NLeaves(a.getType());
    }
    fi->argslots = s;
    int b = 0;
    for (auto& bb : F) {
      bbix[&bb] = b++;
      for (auto& I : bb) {
        int n = NLeaves(I.getType());
        if (n) {
          slot[&I] = s;
          s += n;
        }
      }
    }
    fi->nslots = s;
    fi->blocks.resize(b);
    for (auto& bb : F) {
      Block& B = fi->blocks[bbix[&bb]];
      B.bb = &bb;
      for (auto& I : bb) {
        Ins x;
        x.I = &I;
        x.op = I.getOpcode();
        x.ndst = NLeaves(I.getType());
        if (x.ndst) x.dst = slot[&I];
        Flatten(I.getType(), 0, &x.leaves);
        if (!x.leaves.empty()) x.res = x.leaves[0];
        switch (x.op) {
          case llvm::Instruction::Br: {
            auto* br = cast<llvm::BranchInst>(&I);
            if (br->isConditional()) {
              Operand(br->getCondition(), &x.ops);
              x.bb1 = bbix[br->getSuccessor(0)];
              x.bb2 = bbix[br->getSuccessor(1)];
            } else {
              x.bb1 = bbix[br->getSuccessor(0)];
            }
            break;
          }
          case llvm::Instruction::Switch: {
            auto* sw = cast<llvm::SwitchInst>(&I);
            Operand(sw->getCondition(), &x.ops);
            x.w1 = sw->getCondition()->getType()->getIntegerBitWidth();
            x.bb1 = bbix[sw->getDefaultDest()];
            for (auto& c : sw->cases())
              x.cases.push_back({c.getCaseValue()->getZExtValue(),
                                 bbix[c.getCaseSuccessor()]});
            break;
          }
          case llvm::Instruction::PHI: {
            auto* p = cast<llvm::PHINode>(&I);
            for (unsigned i = 0; i < p->getNumIncomingValues(); i++) {
              x.opstart.push_back((int)x.ops.size());
              Operand(p->getIncomingValue(i), &x.ops);
              x.cases.push_back({(uint64_t)bbix[p->getIncomingBlock(i)], (int)i});
            }
            break;
          }
          case llvm::Instruction::GetElementPtr: {
            auto* g = cast<llvm::GetElementPtrInst>(&I);
            if (g->getType()->isVectorTy()) {
              x.op = -1;
              break;
            }
            Operand(g->getPointerOperand(), &x.ops);
            for (auto gi = llvm::gep_type_begin(g), ge = llvm::gep_type_end(g);
                 gi != ge; ++gi) {
              llvm::Value* ix = gi.getOperand();
              if (auto* st = gi.getStructTypeOrNull()) {
                x.goff += DL->getStructLayout(st)->getElementOffset(
                    cast<llvm::ConstantInt>(ix)->getZExtValue());
              } else {
                int64_t sz = DL->getTypeAllocSize(gi.getIndexedType());
                if (auto* ci = dyn_cast<llvm::ConstantInt>(ix)) {
                  x.goff += ci->getSExtValue() * sz;
                } else {
                  Operand(ix, &x.ops);
                  x.gscale.push_back(sz);
                  x.cases.push_back({ix->getType()->getIntegerBitWidth(), 0});
                }
              }
            }
            break;
          }
          case llvm::Instruction::Store: {
            auto* si = cast<llvm::StoreInst>(&I);
            Operand(si->getPointerOperand(), &x.ops);
            Operand(si->getValueOperand(), &x.ops);
            x.leaves.clear();
            Flatten(si->getValueOperand()->getType(), 0, &x.leaves);
            break;
          }
          case llvm::Instruction::Load:
            Operand(cast<llvm::LoadInst>(&I)->getPointerOperand(), &x.ops);
            break;
          case llvm::Instruction::Alloca: {
            auto* a = cast<llvm::AllocaInst>(&I);
            x.goff = DL->getTypeAllocSize(a->getAllocatedType());
            Operand(a->getArraySize(), &x.ops);
            break;
          }
          case llvm::Instruction::ExtractValue: {
            auto* e = cast<llvm::ExtractValueInst>(&I);
            std::vector<int32_t> all;
            Operand(e->getAggregateOperand(), &all);
            int start = LeafIndex(e->getAggregateOperand()->getType(),
                                  e->getIndices());
            for (int i = 0; i < x.ndst; i++) x.ops.push_back(all[start + i]);
            break;
          }
          case llvm::Instruction::InsertValue: {
            auto* e = cast<llvm::InsertValueInst>(&I);
            std::vector<int32_t> all, v;
            Operand(e->getAggregateOperand(), &all);
            Operand(e->getInsertedValueOperand(), &v);
            int start = LeafIndex(e->getType(), e->getIndices());
            for (size_t i = 0; i < v.size(); i++) all[start + i] = v[i];
            x.ops = all;
            break;
          }
          case llvm::Instruction::Call:
          case llvm::Instruction::Invoke: {
            auto* cb = cast<llvm::CallBase>(&I);
            for (unsigned i = 0; i < cb->arg_size(); i++) {
              x.opstart.push_back((int)x.ops.size());
              Operand(cb->getArgOperand(i), &x.ops);
            }
            x.opstart.push_back((int)x.ops.size());
            llvm::Value* cv = cb->getCalledOperand()->stripPointerCasts();
            if (auto* ga = dyn_cast<llvm::GlobalAlias>(cv))
              cv = ga->getAliasee()->stripPointerCasts();
            if (auto* cf = dyn_cast<llvm::Function>(cv))
              x.callee = g_funcs[cf];
            else
              Operand(cb->getCalledOperand(), &x.ops);
            if (auto* inv = dyn_cast<llvm::InvokeInst>(&I)) {
              x.bb1 = bbix[inv->getNormalDest()];
              x.bb2 = bbix[inv->getUnwindDest()];
            }
            break;
          }
          case llvm::Instruction::LandingPad:
            break;
          default: {
            for (unsigned i = 0; i < I.getNumOperands(); i++) {
              if (isa<llvm::BasicBlock>(I.getOperand(i))) continue;
              x.opstart.push_back((int)x.ops.size());
              Operand(I.getOperand(i), &x.ops);
            }
            x.opstart.push_back((int)x.ops.size());
            if (I.getNumOperands()) {
              std::vector<Leaf> l;
              Flatten(I.getOperand(0)->getType(), 0, &l);
              if (!l.empty()) x.w1 = l[0].w;
              if (x.op == llvm::Instruction::Ret) x.leaves = l;
            }
            if (auto* cmp = dyn_cast<llvm::CmpInst>(&I))
              x.sub = (int)cmp->getPredicate();
          }
        }
        B.ins.push_back(std::move(x));
      }
    }
    fi->lowered = true;
  }
  int LeafIndex(llvm::Type* t, llvm::ArrayRef<unsigned> idx) {
    int start = 0;
    for (unsigned k : idx) {
      if (auto* s = dyn_cast<llvm::StructType>(t)) {
        for (unsigned i = 0; i < k; i++) start += NLeaves(s->getElementType(i));
        t = s->getElementType(k);
      } else {
        auto* a = cast<llvm::ArrayType>(t);
        start += k * NLeaves(a->getElementType());
        t = a->getElementType();
      }
    }
    return start;
  }
};

// ---------------------------------------------------------------------------
struct CexVar {
  std::string name;
  char kind;  // f, i, b, c(hoice)
  std::string value;
};
struct Cex {
  std::string kind, msg;
  std::vector<CexVar> vars;
  std::string note;
  std::vector<int> prefix;
};
struct Report {
  std::vector<Cex> cex;
  std::vector<Cex> witness;
  std::vector<std::string> inconclusive;
} rep;

static double Elapsed() {
  static auto t0 = std::chrono::steady_clock::now();
  return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0)
      .count();
}

static std::vector<Assign> g_witness;  // pool of assignments
static std::map<std::vector<uint32_t>, Res> g_qcache;
static std::mt19937_64 g_rng;

static Res CachedCheck(std::vector<Expr*> conds, unsigned tmo, Model* m) {
  std::vector<uint32_t> key;
  for (auto* c : conds) key.push_back(c->id);
  std::sort(key.begin(), key.end());
  key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = g_qcache.find(key);
  if (it != g_qcache.end() && (!m || it->second != SAT)) return it->second;
  Res r = SmtCheck(conds, g_mode == M_REAL ? std::min(tmo, 500u) : tmo, m,
                   g_mode != M_REAL || opt.round);
  if (r == UNKNOWN && g_mode == M_REAL) {
    r = SmtCheck(conds, tmo, m, true);
    if (r == UNKNOWN && tmo >= 2000) r = SmtCheck(conds, tmo, m, false);
  }
  if (r == SAT && m && g_mode != M_FPUF) g_witness.push_back(m->as);
  g_qcache[key] = r;
  return r;
}

static std::map<std::string, long> g_forks;
static double RandVal() {
  static const double small[] = {0, 1, -1, 2, -2, 3, 0.5, -0.5, 4, -3, 1.5, 5};
  if (g_mode != M_REAL && g_rng() % 8 == 0) {
    static const double odd[] = {NAN, INFINITY, -INFINITY, 1e-14, 1e300, -0.0};
    return odd[g_rng() % 6];
  }
  uint64_t k = g_rng() % 4;
  if (k < 2) return small[g_rng() % 12];
  if (k == 2) return (double)((int64_t)(g_rng() % 129) - 64) / 8.0;
  return (double)((int64_t)(g_rng() % 2001) - 1000) / 128.0;
}

class Exec {
 public:
  std::vector<int> prefix, dec;
  std::vector<std::vector<int>>* work;
  std::vector<Obj*> objs;
  std::vector<char> owned;
  std::vector<Frame> fr;
  std::vector<Expr*> pc;
  std::set<Expr*> pcset;
  SignCtx sg;
  std::map<std::string, int> occ;
  std::vector<std::pair<std::string, Expr*>> inputs;  // name -> var
  std::vector<std::pair<std::string, int>> choices;
  uint64_t steps = 0;
  size_t nextDec = 0;
  bool pathNonFinite = false;
  // exception state
  struct Exc {
    uint64_t obj;
    uint32_t ti;
  };
  std::map<uint64_t, uint32_t> excType;
  std::vector<uint64_t> caught;
  double lastClock = 0;
  std::vector<std::pair<std::string, std::string>> notes;

  Exec(std::vector<int> pre, std::vector<std::vector<int>>* w)
      : prefix(std::move(pre)), work(w) {
    objs = g_pristine;
    owned.assign(objs.size(), 0);
  }
  ~Exec() {
    for (size_t i = 0; i < objs.size(); i++)
      if (owned[i]) delete objs[i];
  }

  // --- memory
  uint32_t NewObj(size_t n, char kind, bool inited) {
    Obj* o = new Obj();
    o->Resize(n, inited);
    o->kind = kind;
    objs.push_back(o);
    owned.push_back(1);
    return (uint32_t)objs.size() - 1;
  }
  // --reuse: a stack slot of the same instruction at the same depth, and a heap block
  // of the same size freed last, get the address they had before.
  std::map<std::pair<const void*, size_t>, uint32_t> lastSlot;
  std::map<size_t, std::vector<uint32_t>> freed;
  uint32_t Again(uint32_t id, size_t n) {
    Obj* old = objs[id];
    Obj* o = new Obj();
    o->Resize(n, false);
    o->kind = old->kind;
    if (owned[id]) delete old;
    objs[id] = o;
    owned[id] = 1;
    return id;
  }
  std::string Where() {
    std::string s;
    for (int i = (int)fr.size() - 1, k = 0; i >= 0 && k < 4; i--, k++) {
      if (k) s += " <- ";
      std::string d = fr[i].f->dem;
      size_t p = d.find('(');
      if (d.size() > 120) d = d.substr(0, 120) + "..";
      (void)p;
      s += d;
    }
    return s;
  }
  Obj* Acc(uint64_t addr, uint64_t n, bool write, uint32_t* off) {
    uint32_t id = (uint32_t)(addr >> 32);
    *off = (uint32_t)addr;
    if (id == 0 || id >= objs.size())
      throw Violation{"memory", "access through an invalid pointer in " + Where()};
    Obj* o = objs[id];
    if (!o->live)
      throw Violation{"memory", "use after free/scope in " + Where()};
    if ((uint64_t)*off + n > o->data.size())
      throw Violation{"memory",
                      "out-of-bounds " + std::string(write ? "write" : "read") +
                          " (offset " + std::to_string(*off) + "+" +
                          std::to_string(n) + " of " +
                          std::to_string(o->data.size()) + ") in " + Where()};
    if (write) {
      if (o->constant && o->kind == 'g')
        throw Violation{"memory", "write to constant data in " + Where()};
      if (o->kind == 'g' && o->name.rfind("sx_", 0) != 0) {
        if (st.globalStores.insert(o->name).second || true) {
          // (Eigen's table of cache sizes is written once, with constants)
          if (opt.noGlobalStores && fr.size() > 0 && mainStarted && guardDepth == 0 &&
              o->name.rfind("_ZGV", 0) != 0 && !o->tls && o->name.find("N5Eigen8internal20manage_caching_sizes") == std::string::npos)
            throw Violation{"global", "store to global " + o->name + " in " +
                                          Where()};
        }
      }
      if (o->isStatic && opt.noGlobalStores && guardDepth == 0)
        throw Violation{"global", "store to global heap block of a static object in " + Where()};
      if (!owned[id]) {
        o = new Obj(*o);
        objs[id] = o;
        owned[id] = 1;
      }
      if (!o->prot.empty())
        for (uint64_t i = 0; i < n; i++)
          if (o->prot[*off + i])
            throw Violation{"protected", "write to protected input data in " +
                                             Where()};
    }
    return o;
  }
  bool mainStarted = false;
  int guardDepth = 0;  // initialisations of function-level statics in progress

  Val LoadLeaf(Obj* o, uint32_t off, const Leaf& l) {
    st.loads++;
    unsigned n = l.bytes();
    if (l.unsupported) {
      return Val{0, g_pool.Undef(l.k, l.w)};
    }
    bool anySym = false;
    if (o->hasSym)
      for (unsigned i = 0; i < n; i++)
        if (o->sym[off + i]) anySym = true;
    bool allInit = true;
    for (unsigned i = 0; i < n; i++)
      if (!o->init[off + i]) allInit = false;
    if (!anySym && allInit) {
      uint64_t c = 0;
      memcpy(&c, &o->data[off], n);
      if (l.k == K_I) c &= MaskW(l.w);
      return CI(c);
    }
    st.symloads++;
    if (!anySym) {
      bool none = true;
      for (unsigned i = 0; i < n; i++)
        if (o->init[off + i]) none = false;
      if (none) return Val{0, g_pool.Undef(l.k, l.w)};
    }
    if (anySym && allInit) {
      Expr* e = o->sym[off];
      if (e && o->symoff[off] == 0 && (unsigned)(e->w + 7) / 8 == n) {
        bool same = true;
        for (unsigned i = 1; i < n; i++)
          if (o->sym[off + i] != e || o->symoff[off + i] != i) same = false;
        if (same) return Coerce(e, l);
      }
      // narrow read of an integer expression
      if (e && e->kind == K_I && e->op != O_BYTES && l.k == K_I) {
        bool same = true;
        for (unsigned i = 1; i < n; i++)
          if (o->sym[off + i] != e || o->symoff[off + i] != o->symoff[off] + i)
            same = false;
        if (same && o->symoff[off] == 0) {
          Leaf full{K_I, e->w, 0};
          Val v{0, e};
          return CastInt(v, e->w, l.w, false);
        }
      }
    }
    std::vector<ByteRef> b;
    for (unsigned i = 0; i < n; i++) {
      ByteRef r{0, 0, 0, nullptr};
      if (o->hasSym && o->sym[off + i]) {
        r.kind = 1;
        r.e = o->sym[off + i];
        r.off = o->symoff[off + i];
      } else if (!o->init[off + i]) {
        r.kind = 2;
      } else {
        r.c = o->data[off + i];
      }
      b.push_back(r);
    }
    return Val{0, g_pool.Bytes(b)};
  }
  Val Coerce(Expr* e, const Leaf& l) {
    if (e->kind == K_I && l.k == K_I && e->w != l.w && e->op != O_UNDEF) {
      Val v{0, e};
      return CastInt(v, e->w, l.w, false);
    }
    if (e->op == O_UNDEF) return Val{0, g_pool.Undef(l.k, l.w)};
    return Val{0, e};
  }
  void StoreByteRef(Obj* o, uint32_t off, const ByteRef& r) {
    if (r.kind == 1) {
      EnsureSym(o);
      o->sym[off] = r.e;
      o->symoff[off] = r.off;
      o->init[off] = 1;
    } else if (r.kind == 2) {
      if (o->hasSym) o->sym[off] = nullptr;
      o->init[off] = 0;
    } else {
      if (o->hasSym) o->sym[off] = nullptr;
      o->init[off] = 1;
      o->data[off] = r.c;
    }
  }
  void EnsureSym(Obj* o) {
    if (!o->hasSym) {
      o->sym.assign(o->data.size(), nullptr);
      o->symoff.assign(o->data.size(), 0);
      o->hasSym = true;
    }
  }
  void StoreLeaf(Obj* o, uint32_t off, const Leaf& l, const Val& v) {
    st.stores++;
    unsigned n = l.bytes();
    if (v.e) {
      if (v.e->op == O_UNDEF) {
        for (unsigned i = 0; i < n; i++) {
          o->init[off + i] = 0;
          if (o->hasSym) o->sym[off + i] = nullptr;
        }
        return;
      }
      if (v.e->op == O_BYTES) {
        for (unsigned i = 0; i < n && i < v.e->bytes->size(); i++)
          StoreByteRef(o, off + i, (*v.e->bytes)[i]);
        return;
      }
      EnsureSym(o);
      for (unsigned i = 0; i < n; i++) {
        o->sym[off + i] = v.e;
        o->symoff[off + i] = i;
        o->init[off + i] = 1;
      }
      return;
    }
    memcpy(&o->data[off], &v.c, n);
    for (unsigned i = 0; i < n; i++) o->init[off + i] = 1;
    if (o->hasSym)
      for (unsigned i = 0; i < n; i++) o->sym[off + i] = nullptr;
  }
  uint64_t Addr(const Val& v, const char* what = "pointer") {
    if (v.e) {
      if (v.e->op == O_UNDEF || v.e->op == O_BYTES)
        throw Violation{"uninit", std::string("uninitialised ") + what + " in " +
                                      Where()};
      if (v.e->kind == K_I && v.e->w > 1) return Conc(v, what);
      throw Unsupported{std::string("symbolic ") + what + " in " + Where()};
    }
    return v.c;
  }
  // Forks over every value a symbolic integer can take on this path.
  std::map<Expr*, uint64_t> conc;
  uint64_t Conc(const Val& v, const char* what) {
    Expr* e = v.e;
    auto it = conc.find(e);
    if (it != conc.end()) return it->second;
    auto is = [&](uint64_t c) { return ICmp(32, v, CI(c), e->w); };
    uint64_t r = 0;
    if (nextDec + 1 < prefix.size()) {
      r = (uint32_t)prefix[nextDec] | (uint64_t)(uint32_t)prefix[nextDec + 1] << 32;
    } else {
      std::vector<uint64_t> vals;
      std::vector<Expr*> ne;
      for (;;) {
        std::vector<Expr*> cs = Slice(ne, e);
        Model m;
        st.branchSmt++;
        Res q = CachedCheck(cs, opt.tmo, &m);
        if (q == UNSAT) break;
        if (q != SAT) throw Unsupported{std::string("undecided symbolic ") + what + " in " + Where()};
        uint64_t c = Evaluator(m.as).I(e) & MaskW(e->w);
        Val eq = is(c);
        if (!eq.e && !(eq.c & 1)) throw Unsupported{"integer model"};
        vals.push_back(c);
        if (!eq.e) break;
        std::vector<Expr*> chk = Slice({eq.e}, e);
        if (CachedCheck(chk, opt.tmo, nullptr) != SAT) throw Unsupported{"integer model"};
        ne.push_back(NotE(eq.e));
        if (vals.size() >= 40) {
          // too many to follow all of them: a few, and say so
          vals.resize(4);
          rep.inconclusive.push_back(std::string("more than 40 values of a symbolic ") + what + " in " + Where());
          break;
        }
      }
      if (vals.empty()) throw PathStop{"infeasible"};
      for (size_t k = 1; k < vals.size(); k++) {
        auto p = dec;
        p.push_back((int)(uint32_t)vals[k]);
        p.push_back((int)(uint32_t)(vals[k] >> 32));
        work->push_back(p);
        st.forks++;
      }
      r = vals[0];
    }
    nextDec += 2;
    dec.push_back((int)(uint32_t)r);
    dec.push_back((int)(uint32_t)(r >> 32));
    Val eq = is(r);
    if (eq.e) AddPC(eq.e);
    conc[e] = r;
    return r;
  }
  Val LoadD(uint64_t addr) {
    uint32_t off;
    Obj* o = Acc(addr, 8, false, &off);
    return LoadLeaf(o, off, Leaf{K_F, 64, 0});
  }
  uint64_t LoadI(uint64_t addr, unsigned bytes) {
    uint32_t off;
    Obj* o = Acc(addr, bytes, false, &off);
    Val v = LoadLeaf(o, off, Leaf{K_I, (uint8_t)(bytes * 8), 0});
    return Addr(v, "integer");
  }
  void StoreI(uint64_t addr, unsigned bytes, uint64_t c) {
    uint32_t off;
    Obj* o = Acc(addr, bytes, true, &off);
    StoreLeaf(o, off, Leaf{K_I, (uint8_t)(bytes * 8), 0}, CI(c));
  }
  void MemCopy(uint64_t d, uint64_t s, uint64_t n) {
    if (!n) return;
    uint32_t so, dof;
    Obj* os = Acc(s, n, false, &so);
    Obj* od = Acc(d, n, true, &dof);
    os = Acc(s, n, false, &so);
    if (os == od) {
      Obj tmp = *os;
      CopyRange(od, dof, &tmp, so, n);
    } else {
      CopyRange(od, dof, os, so, n);
    }
  }
  void CopyRange(Obj* od, uint32_t dof, Obj* os, uint32_t so, uint64_t n) {
    memcpy(&od->data[dof], &os->data[so], n);
    memcpy(&od->init[dof], &os->init[so], n);
    if (os->hasSym) {
      EnsureSym(od);
      memcpy(&od->sym[dof], &os->sym[so], n * sizeof(Expr*));
      memcpy(&od->symoff[dof], &os->symoff[so], n);
    } else if (od->hasSym) {
      std::fill(od->sym.begin() + dof, od->sym.begin() + dof + n, nullptr);
    }
  }
  std::string CStr(uint64_t a, size_t max = 4000) {
    std::string s;
    for (size_t i = 0; i < max; i++) {
      uint32_t off;
      Obj* o = Acc(a + i, 1, false, &off);
      if (!o->init[off])
        throw Violation{"uninit", "uninitialised string byte in " + Where()};
      if (!o->data[off]) break;
      s.push_back((char)o->data[off]);
    }
    return s;
  }

  // --- constraints
  void AddPC(Expr* c) {
    if (c->op == O_BAND && c->w == 1) {
      AddPC(c->a[0]);
      AddPC(c->a[1]);
      return;
    }
    if (c->op == O_NOT && c->a[0]->op == O_BOR && c->a[0]->w == 1) {
      AddPC(NotE(c->a[0]->a[0]));
      AddPC(NotE(c->a[0]->a[1]));
      return;
    }
    if (c->op == O_ICONST) return;
    if (pcset.insert(c).second) {
      pc.push_back(c);
      if (g_mode == M_REAL) sg.AddFact(c);
      else AddFpFact(c);
    }
  }
  // What the path says about the order of IEEE values.
  std::map<std::pair<Expr*, Expr*>, bool> fporder;  // (x, y): x < y, else x <= y
  std::map<Expr*, double> fplo, fphi;
  std::set<Expr*> fpnum;  // not NaN
  void AddFpFact(Expr* c) {
    bool neg = c->op == O_NOT;
    if (neg) c = c->a[0];
    if (c->op != O_FCMP) return;
    Expr *x = c->a[0], *y = c->a[1];
    int q = c->pred;
    if (neg) {
      if ((q != 4 && q != 5) || !FpNum(x) || !FpNum(y)) return;
      std::swap(x, y);
      q = q == 4 ? 5 : 4;
    }
    fpnum.insert(x);
    fpnum.insert(y);
    if (q == 1) {
      FpLe(x, y, false);
      FpLe(y, x, false);
    } else if (q == 4 || q == 5) {
      FpLe(x, y, q == 4);
    }
  }
  void FpLe(Expr* x, Expr* y, bool strict) {
    bool& s = fporder[{x, y}];
    s = s || strict;
    double b;
    if (FpBound(y, false, &b) && (!fphi.count(x) || b < fphi[x])) fphi[x] = b;
    if (FpBound(x, true, &b) && (!fplo.count(y) || b > fplo[y])) fplo[y] = b;
  }
  bool FpNum(Expr* x, int d = 0) {
    if (fpnum.count(x)) return true;
    if (x->op == O_FCONST) {
      double v = AsD(CI(x->bits));
      return v == v;
    }
    if (d > 6) return false;
    if (x->op == O_ITE) return FpNum(x->a[1], d + 1) && FpNum(x->a[2], d + 1);
    if (x->op == O_FNEG || x->op == O_FABS) return FpNum(x->a[0], d + 1);
    return x->op == O_SITOFP || x->op == O_UITOFP;
  }
  bool FpBound(Expr* x, bool lower, double* out, int d = 0) {
    if (x->op == O_FCONST) {
      *out = AsD(CI(x->bits));
      return *out == *out;
    }
    auto& m = lower ? fplo : fphi;
    auto it = m.find(x);
    if (it != m.end()) {
      *out = it->second;
      return true;
    }
    if (d > 6 || x->op != O_ITE) return false;
    double a, b;
    if (!FpBound(x->a[1], lower, &a, d + 1) || !FpBound(x->a[2], lower, &b, d + 1))
      return false;
    *out = lower ? std::min(a, b) : std::max(a, b);
    return true;
  }
  // Is x < y (strict) or x <= y known?
  bool FpKnown(Expr* x, Expr* y, bool strict) {
    auto it = fporder.find({x, y});
    if (it != fporder.end() && (it->second || !strict)) return true;
    if (x == y) return !strict && FpNum(x);
    double a, b;
    return FpNum(x) && FpNum(y) && FpBound(x, false, &a) && FpBound(y, true, &b) &&
           (strict ? a < b : a <= b);
  }
  int FpDecide(int q, Expr* x, Expr* y) {
    switch (q) {
      case 1:
        if (FpKnown(x, y, true) || FpKnown(y, x, true)) return 0;
        return x == y && FpNum(x) ? 1 : -1;
      case 4:
        if (FpKnown(x, y, true)) return 1;
        return FpKnown(y, x, false) || x == y ? 0 : -1;
      case 5:
        if (FpKnown(x, y, false)) return 1;
        return FpKnown(y, x, true) ? 0 : -1;
      case 6:
        if (FpKnown(x, y, true) || FpKnown(y, x, true)) return 1;
        return x == y ? 0 : -1;
      case 7:
        return FpNum(x) && FpNum(y) ? 1 : -1;
    }
    return -1;
  }
  // Conditions of the path connected to the given variables.
  std::vector<Expr*> Slice(std::vector<Expr*> goals, Expr* about = nullptr) {
    std::set<uint32_t> vs;
    if (about) vs.insert(about->vars.begin(), about->vars.end());
    for (auto* g : goals) vs.insert(g->vars.begin(), g->vars.end());
    std::vector<Expr*> out = goals;
    std::vector<char> used(pc.size(), 0);
    bool ch = true;
    while (ch) {
      ch = false;
      for (size_t i = 0; i < pc.size(); i++) {
        if (used[i]) continue;
        bool hit = pc[i]->vars.empty();
        for (uint32_t v : pc[i]->vars)
          if (vs.count(v)) {
            hit = true;
            break;
          }
        if (hit) {
          used[i] = 1;
          out.push_back(pc[i]);
          for (uint32_t v : pc[i]->vars)
            if (vs.insert(v).second) ch = true;
        }
      }
    }
    return out;
  }
  bool HoldsOn(const Assign& a, const std::vector<Expr*>& cs) {
    Evaluator ev(a);
    for (auto* c : cs)
      if (!ev.I(c)) return false;
    return true;
  }
  // Quick search for an assignment satisfying all conditions.
  bool Witness(const std::vector<Expr*>& cs, Assign* out, int tries) {
    for (size_t k = 0; k < g_witness.size() && k < 64; k++) {
      const Assign& a = g_witness[g_witness.size() - 1 - k];
      if (HoldsOn(a, cs)) {
        if (out) *out = a;
        return true;
      }
    }
    std::set<uint32_t> vs;
    for (auto* c : cs) vs.insert(c->vars.begin(), c->vars.end());
    for (int t = 0; t < tries; t++) {
      Assign a;
      bool small = t % 2 == 0;
      for (uint32_t v : vs) {
        Expr* e = g_pool.all[v];
        if (e->kind == K_F)
          a.f[v] = small ? RandVal() : RandVal() * (1 + (double)(g_rng() % 3));
        else
          a.i[v] = e->w == 1 ? g_rng() % 2 : (g_rng() % 8);
      }
      if (HoldsOn(a, cs)) {
        if (out) *out = a;
        g_witness.push_back(a);
        return true;
      }
    }
    return false;
  }
  Res Feasible(Expr* c, unsigned tmo) {
    std::vector<Expr*> cs = Slice({c});
    if (Witness(cs, nullptr, 6)) return SAT;
    st.branchSmt++;
    Model m;
    return CachedCheck(cs, tmo, &m);
  }
  int Choose(int lo, int hi) {
    int v;
    if (nextDec < prefix.size()) {
      v = prefix[nextDec++];
      dec.push_back(v);
      return v;
    }
    for (int k = hi; k > lo; k--) {
      auto p = dec;
      p.push_back(k);
      work->push_back(p);
      st.forks++;
    }
    nextDec++;
    dec.push_back(lo);
    return lo;
  }
  bool Decide(Val c, const char* what = "branch") {
    if (!c.e) return c.c & 1;
    Expr* e = c.e;
    if (e->op == O_UNDEF || e->op == O_BYTES)
      throw Violation{"uninit", std::string(what) +
                                    " depends on an uninitialised value in " +
                                    Where()};
    return DecideE(e);
  }
  bool DecideE(Expr* e) {
    if (e->op == O_NOT) return !DecideE(e->a[0]);
    if (e->op == O_BAND && e->w == 1 && (g_mode == M_REAL || opt.lazy))
      return DecideE(e->a[0]) && DecideE(e->a[1]);
    if (e->op == O_BOR && e->w == 1 && (g_mode == M_REAL || opt.lazy))
      return DecideE(e->a[0]) || DecideE(e->a[1]);
    if (e->op == O_ICONST) return e->bits & 1;
    if (pcset.count(e)) return true;
    Expr* ne = NotE(e);
    if (pcset.count(ne)) return false;
    if (opt.lazy && e->op == O_FCMP) {
      int d = FpDecide(e->pred, e->a[0], e->a[1]);
      if (d >= 0) return d;
    }
    if (g_mode == M_REAL && (e->op == O_LT || e->op == O_LE || e->op == O_EQ)) {
      Expr *lt = g_pool.Make(O_LT, K_I, 1, {e->a[0], e->a[1]}),
           *gt = g_pool.Make(O_LT, K_I, 1, {e->a[1], e->a[0]});
      Expr* eq = g_pool.Make(O_EQ, K_I, 1,
                             e->a[0]->id < e->a[1]->id
                                 ? std::vector<Expr*>{e->a[0], e->a[1]}
                                 : std::vector<Expr*>{e->a[1], e->a[0]});
      if (pcset.count(lt)) return e->op != O_EQ;
      if (pcset.count(gt)) return false;
      if (pcset.count(eq)) return e->op != O_LT;
      const Poly* a = PolyOf(e->a[0]);
      const Poly* b = PolyOf(e->a[1]);
      if (a && b) {
        Poly d = PSub(*a, *b);
        if (d.empty()) return e->op != O_LT;
        if (d.size() == 1 && d.begin()->first.empty()) {
          int s = sgn(d.begin()->second);
          return e->op == O_EQ ? false : s < 0;
        }
        // constant with radicals
        bool cons = true;
        for (auto& kv : d)
          for (auto& x : kv.first) {
            auto& at = g_atoms[x.first];
            if (at.type != 1 || at.p.size() != 1 ||
                !at.p.begin()->first.empty())
              cons = false;
          }
        if (cons) {
          AlgNum n;
          for (auto& kv : d) {
            AlgNum t(kv.second);
            for (auto& x : kv.first) {
              auto s = AlgSqrt(AlgNum(g_atoms[x.first].p.begin()->second));
              for (int q = 0; q < x.second; q++) t = AlgMul(t, *s);
            }
            n = AlgAdd(n, t);
          }
          int s = n.sign();
          return e->op == O_LT ? s < 0 : e->op == O_LE ? s <= 0 : s == 0;
        }
      }
      if (e->op != O_EQ) {
        mpq_class q;
        if (e->a[1]->op == O_NUM && e->a[1]->num->rational()) {
          const mpq_class c = e->a[1]->num->rat();
          if (sg.Bound(e->a[0], true, &q) && q > c) return false;
          if (sg.Bound(e->a[0], false, &q) && q < c) return true;
        } else if (e->a[0]->op == O_NUM && e->a[0]->num->rational()) {
          const mpq_class c = e->a[0]->num->rat();
          if (sg.Bound(e->a[1], true, &q) && q > c) return true;
          if (sg.Bound(e->a[1], false, &q) && q < c) return false;
        }
      }
      // sign knowledge against zero
      auto isz = [](Expr* x) { return x->op == O_NUM && x->num->zero(); };
      if (isz(e->a[1])) {  // x < 0, x <= 0, x == 0
        int m = sg.Mask(e->a[0]);
        if (e->op == O_LT && !(m & 1)) return false;
        if (e->op == O_LT && m == 1) return true;
        if (e->op == O_LE && m == 4) return false;
        if (e->op == O_LE && !(m & 4)) return true;
        if (e->op == O_EQ && !(m & 2)) return false;
      }
      if (isz(e->a[0])) {  // 0 < x, 0 <= x
        int m = sg.Mask(e->a[1]);
        if (e->op == O_LE && !(m & 1)) return true;
        if (e->op == O_LE && m == 1) return false;
        if (e->op == O_LT && m == 4) return true;
        if (e->op == O_LT && !(m & 4)) return false;
        if (e->op == O_EQ && !(m & 2)) return false;
      }
    }
    if (opt.generic && g_mode == M_REAL && e->op == O_EQ &&
        Feasible(ne, opt.btmo) != UNSAT)
      return false;  // only points where no symbolic value is exactly zero
    if (opt.generic && g_mode == M_FPUF && e->op == O_FCMP && e->pred == 1) {
      AddPC(ne);
      return false;
    }
    bool r;
    if (nextDec < prefix.size()) {
      r = prefix[nextDec++];
      dec.push_back(r);
      AddPC(r ? e : ne);
      return r;
    }
    Res t = SAT, f = SAT;
    if (!opt.lazy) {
      t = Feasible(e, opt.btmo);
      if (t != UNSAT) f = Feasible(ne, opt.btmo);
    }
    if (t != UNSAT && f != UNSAT) {
      auto p = dec;
      p.push_back(0);
      work->push_back(p);
      st.forks++;
      if (opt.verbose2) g_forks[Where().substr(0, 160) + " :: " + Show(e, 2).substr(0, 100)]++;
      r = true;
    } else {
      r = t != UNSAT;
    }
    nextDec++;
    dec.push_back(r);
    AddPC(r ? e : ne);
    return r;
  }

  // --- integer helpers
  Expr* EI(const Val& v, uint8_t w) { return g_pool.FromVal(v, K_I, w); }
  bool Undef(const Val& v) {
    return v.e && (v.e->op == O_UNDEF || v.e->op == O_BYTES);
  }
  Val UndefV(Kind k, uint8_t w) { return Val{0, g_pool.Undef(k, w)}; }
  Val CastInt(Val v, uint8_t from, uint8_t to, bool sext) {
    if (!v.e) {
      uint64_t c = sext ? (uint64_t)SExtW(v.c, from) : v.c;
      return CI(c & MaskW(to));
    }
    if (v.e->op == O_UNDEF) return UndefV(K_I, to);
    if (from == to) return v;
    if (v.e->op == O_BYTES) return BytesCast(v, to);
    if (v.e->kind == K_F) throw Unsupported{"integer view of a double"};
    if (to < from) {
      if ((v.e->op == O_ZEXT || v.e->op == O_SEXT) && v.e->a[0]->w == to)
        return Val{0, v.e->a[0]};
      return Val{0, g_pool.Make(O_TRUNC, K_I, to, {v.e})};
    }
    return Val{0, g_pool.Make(sext ? O_SEXT : O_ZEXT, K_I, to, {v.e})};
  }
  Val BytesCast(Val v, uint8_t to) {
    // truncation of assembled bytes
    auto& b = *v.e->bytes;
    unsigned n = (to + 7) / 8;
    if (n <= b.size()) {
      bool conc = true, und = false;
      uint64_t c = 0;
      for (unsigned i = 0; i < n; i++) {
        if (b[i].kind == 0) c |= (uint64_t)b[i].c << (8 * i);
        else conc = false;
        if (b[i].kind == 2) und = true;
      }
      if (conc) return CI(c & MaskW(to));
      if (und) return UndefV(K_I, to);
      if (b[0].kind == 1 && b[0].off == 0 && (unsigned)(b[0].e->w + 7) / 8 == n)
        return CastInt(Val{0, b[0].e}, b[0].e->w, to, false);
    }
    return UndefV(K_I, to);
  }
  Val ByteShift(Val v, unsigned bytesDown) {
    auto& b = *v.e->bytes;
    std::vector<ByteRef> o;
    for (unsigned i = 0; i < b.size(); i++) {
      if (i + bytesDown < b.size()) o.push_back(b[i + bytesDown]);
      else o.push_back(ByteRef{0, 0, 0, nullptr});
    }
    bool conc = true;
    uint64_t c = 0;
    for (unsigned i = 0; i < o.size(); i++) {
      if (o[i].kind) conc = false;
      c |= (uint64_t)o[i].c << (8 * i);
    }
    if (conc) return CI(c);
    return Val{0, g_pool.Bytes(o)};
  }
  Val IBin(int op, Val a, Val b, uint8_t w) {
    using namespace llvm;
    if (!a.e && !b.e) {
      uint64_t x = a.c & MaskW(w), y = b.c & MaskW(w), r = 0;
      int64_t sx = SExtW(x, w), sy = SExtW(y, w);
      switch (op) {
        case Instruction::Add: r = x + y; break;
        case Instruction::Sub: r = x - y; break;
        case Instruction::Mul: r = x * y; break;
        case Instruction::And: r = x & y; break;
        case Instruction::Or: r = x | y; break;
        case Instruction::Xor: r = x ^ y; break;
        case Instruction::Shl: r = y >= w ? 0 : x << y; break;
        case Instruction::LShr: r = y >= w ? 0 : x >> y; break;
        case Instruction::AShr: r = (uint64_t)(sx >> std::min<uint64_t>(y, 63)); break;
        case Instruction::UDiv:
        case Instruction::SDiv:
        case Instruction::URem:
        case Instruction::SRem:
          if (!y) throw Violation{"memory", "integer division by zero in " + Where()};
          if (op == Instruction::UDiv) r = x / y;
          else if (op == Instruction::URem) r = x % y;
          else if (sy == -1) r = op == Instruction::SDiv ? (uint64_t)(0 - (uint64_t)sx) : 0;
          else r = (uint64_t)(op == Instruction::SDiv ? sx / sy : sx % sy);
          break;
        default: throw Unsupported{"int op"};
      }
      return CI(r & MaskW(w));
    }
    // identities that keep undefined bits out
    if (op == Instruction::And) {
      if ((!a.e && a.c == 0) || (!b.e && b.c == 0)) return CI(0);
      if (!b.e && b.c == MaskW(w)) return a;
      if (!a.e && a.c == MaskW(w)) return b;
    }
    if (op == Instruction::Or) {
      if (!a.e && a.c == 0) return b;
      if (!b.e && b.c == 0) return a;
      if (w == 1 && ((!a.e && a.c) || (!b.e && b.c))) return CI(1);
    }
    if ((op == Instruction::Xor || op == Instruction::Add ||
         op == Instruction::Sub || op == Instruction::Shl ||
         op == Instruction::LShr || op == Instruction::AShr) &&
        !b.e && b.c == 0)
      return a;
    if (op == Instruction::LShr && a.e && a.e->op == O_BYTES && !b.e &&
        b.c % 8 == 0)
      return ByteShift(a, b.c / 8);
    if (op == Instruction::And && a.e && a.e->op == O_BYTES && !b.e) {
      for (unsigned k = 8; k < w; k += 8)
        if (b.c == MaskW(k)) return CastInt(BytesCast(a, k), k, w, false);
    }
    if (Undef(a) || Undef(b)) return UndefV(K_I, w);
    if (w == 1 && op == Instruction::Xor) {
      if (!b.e && b.c) return Val{0, NotE(a.e)};
      if (!a.e && a.c) return Val{0, NotE(b.e)};
    }
    if ((a.e && a.e->kind == K_F) || (b.e && b.e->kind == K_F)) {
      Expr* f = a.e && a.e->kind == K_F ? a.e : b.e;
      Val o = a.e == f ? b : a;
      if (!o.e && op == Instruction::And && o.c == 0x7fffffffffffffffull)
        return FAbs(Val{0, f});
      if (!o.e && op == Instruction::Xor && o.c == 0x8000000000000000ull)
        return FNeg(Val{0, f});
      throw Unsupported{"bit operation on a symbolic double in " + Where()};
    }
    static const std::map<int, Op> m = {
        {Instruction::Add, O_BADD},   {Instruction::Sub, O_BSUB},
        {Instruction::Mul, O_BMUL},   {Instruction::And, O_BAND},
        {Instruction::Or, O_BOR},     {Instruction::Xor, O_BXOR},
        {Instruction::Shl, O_BSHL},   {Instruction::LShr, O_BLSHR},
        {Instruction::AShr, O_BASHR}, {Instruction::UDiv, O_BUDIV},
        {Instruction::SDiv, O_BSDIV}, {Instruction::URem, O_BUREM},
        {Instruction::SRem, O_BSREM}};
    Expr *x = EI(a, w), *y = EI(b, w);
    if ((op == Instruction::Add || op == Instruction::Mul ||
         op == Instruction::And || op == Instruction::Or ||
         op == Instruction::Xor) &&
        y->id < x->id)
      std::swap(x, y);
    return Val{0, g_pool.Make(m.at(op), K_I, w, {x, y})};
  }
  // -0.0 is told from 0.0 by its reciprocal; a NaN counts as positive.
  Val SignBit(Val a) {
    if (Undef(a)) return UndefV(K_I, 1);
    if (!a.e) return CI(std::signbit(AsD(a)));
    Val lt = FCmp(4, a, CD(0));
    if (g_mode == M_REAL) return lt;
    Val z = IBin(llvm::Instruction::And, FCmp(1, a, CD(0)), FCmp(4, FBin(O_FDIV, CD(1), a), CD(0)), 1);
    return IBin(llvm::Instruction::Or, lt, z, 1);
  }
  Val ICmp(int p, Val a, Val b, uint8_t w) {
    if (!a.e && !b.e) {
      uint64_t x = a.c & MaskW(w), y = b.c & MaskW(w);
      int64_t sx = SExtW(x, w), sy = SExtW(y, w);
      bool r = false;
      switch (p) {
        case 32: r = x == y; break;
        case 33: r = x != y; break;
        case 34: r = x > y; break;
        case 35: r = x >= y; break;
        case 36: r = x < y; break;
        case 37: r = x <= y; break;
        case 38: r = sx > sy; break;
        case 39: r = sx >= sy; break;
        case 40: r = sx < sy; break;
        case 41: r = sx <= sy; break;
      }
      return CI(r);
    }
    if (Undef(a) || Undef(b)) return UndefV(K_I, 1);
    if ((a.e && a.e->kind == K_F) || (b.e && b.e->kind == K_F)) {
      if (p == 32 || p == 33) {
        // identity of doubles carried as integers: equal expressions only
        if (a.e == b.e) return CI(p == 32);
      }
      // sign bit
      if (w == 64 && !b.e && p == 40 && b.c == 0) return SignBit(a);
      if (w == 64 && !b.e && p == 38 && b.c == ~0ull) return IBin(llvm::Instruction::Xor, SignBit(a), CI(1), 1);
      throw Unsupported{"integer comparison of a symbolic double in " + Where()};
    }
    Expr *x = EI(a, w), *y = EI(b, w);
    if (x == y) return CI(p == 32 || p == 35 || p == 37 || p == 39 || p == 41);
    // (zext i1 b) ==/!= const
    if ((p == 32 || p == 33) && (!b.e || !a.e)) {
      Expr* s = a.e ? a.e : b.e;
      uint64_t c = a.e ? b.c : a.c;
      if (s->op == O_ZEXT && s->a[0]->w == 1) {
        if (c > 1) return CI(p == 33);
        bool pos = (c == 1) == (p == 32);
        return Val{0, pos ? s->a[0] : NotE(s->a[0])};
      }
      if (s->w == 1) {
        bool pos = (c == 1) == (p == 32);
        return Val{0, pos ? s : NotE(s)};
      }
    }
    if (p == 33)
      return Val{0, NotE(g_pool.Make(O_ICMP, K_I, 1, {x, y}, 32))};
    return Val{0, g_pool.Make(O_ICMP, K_I, 1, {x, y}, (uint8_t)p)};
  }

  // --- floating point
  Expr* EF(const Val& v) { return g_pool.FromVal(v, K_F, 64); }
  Val Nat(double d) { return CD(d); }
  int SignOf(const Val& v) {  // sign by forking
    if (IsNum(v)) return NumOf(v).sign();
    Expr* z = g_pool.Num(AlgNum());
    if (DecideE(g_pool.Make(O_LT, K_I, 1, {z, v.e}))) return 1;
    if (DecideE(g_pool.Make(O_LT, K_I, 1, {v.e, z}))) return -1;
    return 0;
  }
  double DSign(const Val& v) {  // a double standing for v in inf arithmetic
    if (!v.e) return AsD(v);
    return (double)SignOf(v);
  }
  Val FMixed(Op op, Val a, Val b) {
    // at least one operand is concrete inf/nan, the other may be symbolic
    if ((IsNonFinite(a) && std::isnan(AsD(a))) ||
        (IsNonFinite(b) && std::isnan(AsD(b))))
      return Nat(NAN);
    double x, y;
    if (op == O_FADD || op == O_FSUB) {
      x = a.e ? 0.0 : AsD(a);
      y = b.e ? 0.0 : AsD(b);
      return Nat(op == O_FADD ? x + y : x - y);
    }
    x = DSign(a);
    y = DSign(b);
    return Nat(op == O_FMUL ? x * y : x / y);
  }
  Val FCoerce(Val v) {
    if (v.e && v.e->kind == K_I && v.e->op == O_BYTES) return UndefV(K_F, 64);
    return v;
  }
  Val FBin(Op op, Val a, Val b) {
    a = FCoerce(a);
    b = FCoerce(b);
    if (Undef(a) || Undef(b)) return UndefV(K_F, 64);
    if (!a.e && !b.e) {
      double x = AsD(a), y = AsD(b), r;
      switch (op) {
        case O_FADD: r = x + y; break;
        case O_FSUB: r = x - y; break;
        case O_FMUL: r = x * y; break;
        default: r = x / y; break;
      }
      if (g_mode != M_REAL || opt.round) return Nat(r);
      if (!std::isfinite(x) || !std::isfinite(y)) return Nat(r);
      if (op == O_FDIV && y == 0) return Nat(r);
    }
    if (g_mode == M_REAL) {
      if (IsNonFinite(a) || IsNonFinite(b)) return FMixed(op, a, b);
      bool na = IsNum(a), nb = IsNum(b);
      if (na && nb) {
        AlgNum x = NumOf(a), y = NumOf(b);
        if (op == O_FADD) return NumVal(AlgAdd(x, y));
        if (op == O_FSUB) return NumVal(AlgAdd(x, AlgNeg(y)));
        if (op == O_FMUL) return NumVal(AlgMul(x, y));
        if (y.zero()) return Nat(x.sign() == 0 ? NAN : x.sign() * INFINITY);
        auto i = AlgInv(y);
        if (i) return NumVal(AlgMul(x, *i));
        return Val{0, g_pool.Make(O_FDIV, K_F, 64, {EF(a), EF(b)})};
      }
      auto isc = [&](const Val& v, int k) {
        return IsNum(v) && NumOf(v).rational() && NumOf(v).rat() == k;
      };
      if (op == O_FADD) {
        if (isc(a, 0)) return b;
        if (isc(b, 0)) return a;
      } else if (op == O_FSUB) {
        if (isc(b, 0)) return a;
        if (a.e == b.e && a.e) return CD(0);
        if (isc(a, 0)) return FNeg(b);
      } else if (op == O_FMUL) {
        if (isc(a, 0) || isc(b, 0)) return CD(0);
        if (isc(a, 1)) return b;
        if (isc(b, 1)) return a;
        if (isc(a, -1)) return FNeg(b);
        if (isc(b, -1)) return FNeg(a);
        if (a.e == b.e && a.e->op == O_FSQRT) return Val{0, a.e->a[0]};
      } else {
        if (isc(b, 1)) return a;
        if (nb && NumOf(b).zero()) {
          int s = SignOf(a);
          return Nat(s == 0 ? NAN : s * INFINITY);
        }
        if (!nb) {
          // divisor may vanish: fork
          Expr* z = g_pool.Num(AlgNum());
          Expr* d = b.e;
          if (!sg.NonZero(d)) {
            Expr* eq = g_pool.Make(O_EQ, K_I, 1,
                                   d->id < z->id ? std::vector<Expr*>{d, z}
                                                 : std::vector<Expr*>{z, d});
            if (DecideE(eq)) {
              int s = SignOf(a);
              return Nat(s == 0 ? NAN : s * INFINITY);
            }
          }
        }
        if (isc(a, 0)) return CD(0);
      }
    }
    Expr *x = EF(a), *y = EF(b);
    if ((op == O_FADD || op == O_FMUL) && y->id < x->id) std::swap(x, y);
    return Simp(g_pool.Make(op, K_F, 64, {x, y}));
  }
  // Replaces an expression by the variable or constant it equals.
  Val Simp(Expr* e) {
    if (g_mode != M_REAL || e->vars.size() > 12) return Val{0, e};
    const Poly *p = PolyOf(e->a[0]), *q = PolyOf(e->a[1]);
    if (!p || !q || p->size() > 12 || q->size() > 12) return Val{0, e};
    const Poly* r = PolyOf(e);
    if (!r || r->size() > 1) return Val{0, e};
    if (r->empty()) return CD(0);
    auto& t = *r->begin();
    if (t.first.empty()) return NumVal(AlgNum(t.second));
    if (t.first.size() == 1 && t.first[0].second == 1 && t.second == 1) {
      auto& at = g_atoms[t.first[0].first];
      if (at.type == 0) return Val{0, at.e};
    }
    return Val{0, e};
  }
  Val FNeg(Val a) {
    a = FCoerce(a);
    if (Undef(a)) return UndefV(K_F, 64);
    if (!a.e) return Nat(-AsD(a));
    if (a.e->op == O_NUM) return NumVal(AlgNeg(*a.e->num));
    if (a.e->op == O_FNEG) return Val{0, a.e->a[0]};
    return Val{0, g_pool.Make(O_FNEG, K_F, 64, {a.e})};
  }
  Val FAbs(Val a) {
    a = FCoerce(a);
    if (Undef(a)) return UndefV(K_F, 64);
    if (!a.e) return Nat(std::fabs(AsD(a)));
    if (a.e->op == O_NUM)
      return a.e->num->sign() < 0 ? NumVal(AlgNeg(*a.e->num)) : a;
    if (a.e->op == O_FABS || (g_mode == M_REAL && sg.NonNeg(a.e))) return a;
    if (a.e->op == O_FNEG) return FAbs(Val{0, a.e->a[0]});
    return Val{0, g_pool.Make(O_FABS, K_F, 64, {a.e})};
  }
  Val FSqrt(Val a) {
    a = FCoerce(a);
    if (Undef(a)) return UndefV(K_F, 64);
    if (!a.e) {
      double x = AsD(a);
      if (g_mode != M_REAL || opt.round || !(x >= 0) || std::isinf(x))
        return Nat(std::sqrt(x));
    }
    if (g_mode == M_REAL) {
      if (IsNum(a)) {
        AlgNum n = NumOf(a);
        if (n.sign() < 0) return Nat(NAN);
        auto s = AlgSqrt(n);
        if (s) return NumVal(*s);
        return Val{0, g_pool.Make(O_FSQRT, K_F, 64, {EF(a)})};
      }
      if (a.e->op == O_FMUL && a.e->a[0] == a.e->a[1])
        return FAbs(Val{0, a.e->a[0]});
      if (!sg.NonNeg(a.e)) {
        Expr* z = g_pool.Num(AlgNum());
        if (DecideE(g_pool.Make(O_LT, K_I, 1, {a.e, z}))) return Nat(NAN);
      }
    }
    return Val{0, g_pool.Make(O_FSQRT, K_F, 64, {EF(a)})};
  }
  Val FCmp(int p, Val a, Val b) {
    a = FCoerce(a);
    b = FCoerce(b);
    if (p == 0) return CI(0);
    if (p == 15) return CI(1);
    if (Undef(a) || Undef(b)) return UndefV(K_I, 1);
    if (!a.e && !b.e) {
      double x = AsD(a), y = AsD(b);
      bool uno = std::isnan(x) || std::isnan(y);
      bool r = ((p & 1) && x == y) || ((p & 2) && x > y) || ((p & 4) && x < y) ||
               ((p & 8) && uno);
      return CI(r);
    }
    if (g_mode == M_REAL) {
      if (IsNonFinite(a) || IsNonFinite(b)) {
        double x = a.e ? 0.0 : AsD(a), y = b.e ? 0.0 : AsD(b);
        bool uno = std::isnan(x) || std::isnan(y);
        bool r = ((p & 1) && x == y) || ((p & 2) && x > y) ||
                 ((p & 4) && x < y) || ((p & 8) && uno);
        return CI(r);
      }
      int q = p & 7;  // finite: ordered
      if (q == 0) return CI(0);
      if (q == 7) return CI(1);
      Expr *x = EF(a), *y = EF(b);
      if (x == y) return CI(q & 1);
      if (x->op == O_NUM && y->op == O_NUM) {
        int s = AlgAdd(*x->num, AlgNeg(*y->num)).sign();
        return CI(((q & 1) && s == 0) || ((q & 2) && s > 0) || ((q & 4) && s < 0));
      }
      auto mkeq = [&]() {
        return g_pool.Make(O_EQ, K_I, 1, x->id < y->id ? std::vector<Expr*>{x, y}
                                                       : std::vector<Expr*>{y, x});
      };
      switch (q) {
        case 1: return Val{0, mkeq()};
        case 2: return Val{0, g_pool.Make(O_LT, K_I, 1, {y, x})};
        case 3: return Val{0, g_pool.Make(O_LE, K_I, 1, {y, x})};
        case 4: return Val{0, g_pool.Make(O_LT, K_I, 1, {x, y})};
        case 5: return Val{0, g_pool.Make(O_LE, K_I, 1, {x, y})};
        default: return Val{0, NotE(mkeq())};
      }
    }
    Expr *x = EF(a), *y = EF(b);
    int q = p;
    // normalise > to <
    if ((q & 2) && !(q & 4)) {
      std::swap(x, y);
      q = (q & ~2) | 4;
    }
    if (((q & 6) == 0 || (q & 6) == 6) && y->id < x->id) std::swap(x, y);
    // canonical positive/negative form: keep ordered form, negate unordered
    if (q & 8) {
      int c = (~q) & 15;  // complement is ordered
      if (c == 0) return CI(1);
      if ((c & 2) && !(c & 4)) {
        std::swap(x, y);
        c = (c & ~2) | 4;
      }
      int d = opt.lazy ? -1 : FpDecide(c, x, y);
      if (d >= 0) return CI(!d);
      return Val{0, NotE(g_pool.Make(O_FCMP, K_I, 1, {x, y}, (uint8_t)c))};
    }
    int d = opt.lazy ? -1 : FpDecide(q, x, y);
    if (d >= 0) return CI(d);
    return Val{0, g_pool.Make(O_FCMP, K_I, 1, {x, y}, (uint8_t)q)};
  }
  Val Select(Val c, Val a, Val b, const Leaf& l) {
    if (!c.e) return (c.c & 1) ? a : b;
    if (Undef(c))
      return UndefV(l.k, l.w);
    if (a.e == b.e && (a.e || a.c == b.c)) return a;
    if (l.k == K_I && l.w == 1 && !Undef(a) && !Undef(b)) {
      // logical and/or
      if (!b.e && b.c == 0) return IBin(llvm::Instruction::And, c, a, 1);
      if (!a.e && (a.c & 1)) return IBin(llvm::Instruction::Or, c, b, 1);
      if (!a.e && a.c == 0)
        return IBin(llvm::Instruction::And, Val{0, NotE(c.e)}, b, 1);
      if (!b.e && (b.c & 1))
        return IBin(llvm::Instruction::Or, Val{0, NotE(c.e)}, a, 1);
      return Val{0, g_pool.Make(O_ITE, K_I, 1, {c.e, EI(a, 1), EI(b, 1)})};
    }
    if (l.k == K_F && l.w == 32) return DecideE(c.e) ? a : b;
    if ((g_mode == M_REAL && opt.forkSelect) || (opt.lazy && l.k != K_F)) return DecideE(c.e) ? a : b;
    if (Undef(a) || Undef(b)) return DecideE(c.e) ? a : b;
    if (l.k == K_I && l.w == 64 && (!a.e || !b.e))  // pointers stay concrete
      return DecideE(c.e) ? a : b;
    if (l.k == K_F) return Val{0, g_pool.Make(O_ITE, K_F, 64, {c.e, EF(a), EF(b)})};
    return Val{0, g_pool.Make(O_ITE, K_I, l.w, {c.e, EI(a, l.w), EI(b, l.w)})};
  }

  // --- properties
  std::vector<CexVar> Describe(const Assign& a, const std::map<std::string, std::string>& txt) {
    std::vector<CexVar> o;
    for (auto& c : choices)
      o.push_back({c.first, 'c', std::to_string(c.second)});
    for (auto& in : inputs) {
      CexVar v;
      v.name = in.first;
      char buf[64];
      if (in.second->kind == K_F) {
        auto it = a.f.find(in.second->id);
        snprintf(buf, sizeof buf, "%a", it == a.f.end() ? 0.0 : it->second);
        v.kind = 'f';
      } else {
        auto it = a.i.find(in.second->id);
        snprintf(buf, sizeof buf, "%llu",
                 (unsigned long long)(it == a.i.end() ? 0 : it->second));
        v.kind = 'i';
      }
      v.value = buf;
      o.push_back(v);
    }
    return o;
  }
  void Record(const std::string& kind, const std::string& msg, const Assign& a,
              const std::string& note) {
    Cex c;
    c.kind = kind;
    c.msg = msg;
    c.vars = Describe(a, {});
    c.note = note;
    c.prefix = dec;
    rep.cex.push_back(c);
  }
  Expr* BoundE(Expr* v, double b) {
    Expr* hi = EF(CD(b));
    Expr* lo = EF(CD(-b));
    if (g_mode == M_REAL)
      return g_pool.Make(O_BAND, K_I, 1,
                         {g_pool.Make(O_LE, K_I, 1, {lo, v}),
                          g_pool.Make(O_LE, K_I, 1, {v, hi})});
    return g_pool.Make(O_BAND, K_I, 1,
                       {g_pool.Make(O_FCMP, K_I, 1, {lo, v}, 5),
                        g_pool.Make(O_FCMP, K_I, 1, {v, hi}, 5)});
  }
  // A model over the reals whose rounding satisfies the conditions in IEEE arithmetic.
  bool RealModel(const std::vector<Expr*>& cs, Assign* a) {
    std::set<uint32_t> vs;
    for (auto* c : cs) vs.insert(c->vars.begin(), c->vars.end());
    std::vector<Expr*> fl;
    for (uint32_t v : vs)
      if (g_pool.all[v]->kind == K_F) fl.push_back(g_pool.all[v]);
    static const double nice[] = {0.5, 0.25, 1, 2, 0.125, 4, 1.5, 0, 1e-3, 1e-6, 1e-10};
    auto t0 = std::chrono::steady_clock::now();
    for (int t = 0; t < 40; t++) {
      std::vector<Expr*> c2 = cs;
      if (t >= 2) {
        std::shuffle(fl.begin(), fl.end(), g_rng);
        size_t fix = std::min(fl.size(), (size_t)(t - 1) / 2 % 6 + 1);
        for (size_t i = 0; i < fix; i++)
          c2.push_back(g_pool.Make(O_FCMP, K_I, 1, {fl[i], EF(CD(nice[g_rng() % 11]))}, 1));
      }
      Model m;
      Res r = SmtCheck(c2, t < 2 ? 2000 : 1000, &m, false, false, t % 2 + 1);
      if (r == SAT && HoldsOn(m.as, cs)) {
        *a = m.as;
        g_witness.push_back(*a);
        return true;
      }
      if (r == UNSAT && t == 1) return false;
      if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > 15) break;
    }
    return false;
  }
  // Finds values for everything on this path that satisfy goal (may be null).
  // Completes a partial assignment for unrelated variables.
  bool FullModel(const std::vector<Expr*>& goals, Assign* a, unsigned tmo,
                 unsigned exact = 10000) {
    std::vector<Expr*> cs = pc;
    for (auto* g : goals) cs.push_back(g);
    if (Witness(cs, a, 200)) return true;
    // bounded first for replay-friendly numbers
    std::vector<Expr*> bs = cs;
    for (auto& in : inputs)
      if (in.second->kind == K_F) bs.push_back(BoundE(in.second, 64));
    if (g_mode == M_FPUF) {
      // the abstraction's model first, then IEEE arithmetic bit by bit
      for (int k = 0; k < 2; k++) {
        Model m;
        Res r = CachedCheck(k ? cs : bs, tmo, &m);
        if (k && r == UNSAT) return false;
        if (r == SAT && HoldsOn(m.as, cs)) {
          *a = m.as;
          return true;
        }
      }
      if (RealModel(cs, a)) return true;
      for (int k = 0; k < 2; k++) {
        Model m;
        if (SmtCheck(k ? cs : bs, exact, &m, false, true) == SAT) {
          *a = m.as;
          g_witness.push_back(*a);
          return true;
        }
      }
      return false;
    }
    Model m;
    if (CachedCheck(bs, tmo, &m) == SAT) {
      *a = m.as;
      return true;
    }
    Model m2;
    if (CachedCheck(cs, tmo, &m2) == SAT) {
      *a = m2.as;
      return true;
    }
    return false;
  }
  // Inputs that may violate an undecided obligation, for native replay (only a
  // reproduced one counts): models of the path's conditions as far as the solver
  // gets, the remaining inputs filled in.
  void Candidates(const std::string& msg, const std::vector<Expr*>& goals) {
    static int batches = 0;
    if (g_mode != M_FPUF || opt.out.empty() || batches >= 6) return;
    std::vector<Expr*> cs = pc;
    for (auto* g : goals) cs.push_back(g);
    std::vector<Assign> as;
    for (size_t k = cs.size(); k; k /= 2) {
      Model m;
      std::vector<Expr*> part(cs.begin(), cs.begin() + k);
      if (SmtCheck(part, 1500, &m, false, false, 1) == SAT) {
        as.push_back(m.as);
        break;
      }
    }
    for (int t = 0; t < 7; t++) {
      Assign best, a;
      size_t len = 0;
      for (int u = 0; u < 60; u++) {
        a = u % 3 == 0 && !as.empty() ? as[0] : Assign();
        double scale = 1 << g_rng() % 4;
        for (auto& in : inputs) {
          uint32_t v = in.second->id;
          if (in.second->kind == K_F) {
            if (!a.f.count(v)) a.f[v] = t % 2 ? RandVal() : ((double)(g_rng() % 200001) - 100000) / 100000 * scale;
          } else if (!a.i.count(v)) {
            a.i[v] = in.second->w == 1 ? g_rng() % 2 : g_rng() % 8;
          }
        }
        Evaluator ev(a);
        size_t n = 0;
        while (n < cs.size() && ev.I(cs[n])) n++;
        if (n >= len) {
          len = n;
          best = a;
        }
      }
      as.push_back(best);
    }
    std::string name = opt.out + ".cand" + std::to_string(batches++);
    {
      std::ofstream f(name + ".tmp");
      for (auto& a : as) {
        f << "MODEL " << msg << "\n";
        for (auto& v : Describe(a, {})) f << v.name << " " << v.kind << " " << v.value << "\n";
      }
    }
    rename((name + ".tmp").c_str(), name.c_str());
  }
  // Called when some condition is violated on this whole path.
  void PathViolation(const std::string& kind, const std::string& msg) {
    Assign a;
    if (FullModel({}, &a, opt.tmo)) {
      Record(kind, msg, a, "");
      return;
    }
    Res r = CachedCheck(pc, opt.tmo * 4, nullptr);
    if (r == UNSAT) {
      st.infeasible++;
      if (opt.verbose2) {
        std::cerr << "infeasible at " << msg << "\n";
        for (auto* c : pc) std::cerr << "   " << Show(c, getenv("SXD") ? atoi(getenv("SXD")) : 5) << "\n";
      }
      return;
    }
    rep.inconclusive.push_back("path feasibility unknown for: " + msg);
    if (kind == "assert" || kind == "exception") Candidates(msg, {});
  }
  // goalNeg: conditions whose satisfiability with pc refutes the obligation.
  // strong: variant with a margin (may be null). Returns true if proved.
  bool Prove(Expr* goalNeg, Expr* strong, const std::string& msg) {
    std::vector<Expr*> cs = Slice({goalNeg});
    Res r = UNKNOWN;
    Assign a;
    bool wit = false;
    {
      std::vector<Expr*> s2 = Slice({strong ? strong : goalNeg});
      if (Witness(s2, &a, 30)) wit = true;
    }
    if (!wit) {
      Model m;
      r = CachedCheck(cs, opt.tmo, &m);
      if (r == UNKNOWN && cs.size() > 1) {
        // the goal alone, without the path
        Model mm;
        if (CachedCheck({goalNeg}, opt.tmo, &mm) == UNSAT) r = UNSAT;
      }
      if (r == UNKNOWN) {
        Model mm;
        r = SmtCheck(cs, opt.tmo * 5, &mm, true);
      }
    } else {
      r = SAT;
    }
    if (r == UNSAT) {
      st.obligSmt++;
      return true;
    }
    // counterexample, preferring robust and small values
    std::vector<Expr*> g1{strong ? strong : goalNeg};
    if (FullModel(g1, &a, opt.tmo)) {
      Record("assert", msg, a, "");
      return false;
    }
    // search with most inputs fixed
    for (int t = 0; g_mode != M_FPUF && t < 40; t++) {
      std::vector<Expr*> cs2 = pc;
      cs2.push_back(g1[0]);
      std::vector<Expr*> fl;
      for (auto& in : inputs)
        if (in.second->kind == K_F) fl.push_back(in.second);
      std::shuffle(fl.begin(), fl.end(), g_rng);
      size_t keep = t % 4;
      for (size_t i = keep; i < fl.size(); i++) {
        Expr* c = EF(CD(RandVal()));
        if (g_mode == M_REAL)
          cs2.push_back(g_pool.Make(O_EQ, K_I, 1, {fl[i], c}));
        else
          cs2.push_back(g_pool.Make(O_FCMP, K_I, 1, {fl[i], c}, 1));
      }
      Model m;
      if (SmtCheck(cs2, 1000, &m) == SAT) {
        Record("assert", msg, m.as, "");
        return false;
      }
    }
    if (r == SAT && strong) {
      // violated, but not by the margin within reach: decide the tolerant form
      Model m;
      std::vector<Expr*> s2 = Slice({strong});
      for (auto& in : inputs)
        if (in.second->kind == K_F) s2.push_back(BoundE(in.second, 1024));
      Res rr = SmtCheck(s2, opt.tmo * 2, &m);
      if (rr == UNSAT) {
        st.obligSmt++;
        notes.push_back({"tolerance", msg});
        return true;
      }
      Assign b;
      if (FullModel({goalNeg}, &b, opt.tmo)) {
        Record("assert", msg, b, "marginal");
        return false;
      }
    }
    rep.inconclusive.push_back("undecided obligation: " + msg);
    Candidates(msg, {goalNeg});
    if (opt.verbose2) {
      std::cerr << "undecided " << msg << "\n";
      for (auto* c : pc) std::cerr << "   " << Show(c, getenv("SXD") ? atoi(getenv("SXD")) : 5) << "\n";
      std::cerr << " goal " << Show(g1[0], getenv("SXD") ? atoi(getenv("SXD")) : 5) << "\n";
    }
    return false;
  }
  void AssertCond(Val c, const std::string& msg) {
    st.oblig++;
    st.obligMsg[msg]++;
    if (!c.e) {
      if (c.c & 1) {
        st.obligConcrete++;
        return;
      }
      PathViolation("assert", msg);
      throw PathStop{"violated"};
    }
    if (Undef(c)) {
      PathViolation("uninit", msg + " (depends on an uninitialised value)");
      throw PathStop{"violated"};
    }
    if (pcset.count(c.e)) {
      st.obligNorm++;
      return;
    }
    if (Prove(NotE(c.e), nullptr, msg)) {
      AddPC(c.e);
      return;
    }
    throw PathStop{"violated"};
  }
  void AssertEq(Val a, Val b, const std::string& msg) {
    a = FCoerce(a);
    b = FCoerce(b);
    st.oblig++;
    st.obligMsg[msg]++;
    if (Undef(a) || Undef(b)) {
      PathViolation("uninit", msg + " (uninitialised value)");
      throw PathStop{"violated"};
    }
    if (!a.e && !b.e) {
      double x = AsD(a), y = AsD(b);
      if (x == y || (std::isnan(x) && std::isnan(y))) {
        st.obligConcrete++;
        return;
      }
      PathViolation("assert", msg);
      throw PathStop{"violated"};
    }
    if (g_mode == M_REAL) {
      if (IsNonFinite(a) || IsNonFinite(b)) {
        PathViolation("assert", msg + " (non-finite value)");
        throw PathStop{"violated"};
      }
      Expr *x = EF(a), *y = EF(b);
      if (x == y) {
        st.obligNorm++;
        return;
      }
      const Poly* p = PolyOf(x);
      const Poly* q = PolyOf(y);
      if (p && q) {
        bool big;
        if (PolyZero(PSub(*p, *q), &big)) {
          st.obligNorm++;
          // a sample of these is put to z3 as well, unsimplified
          if (st.confirmTried < opt.confirm) {
            st.confirmTried++;
            Expr* eq = g_pool.Make(O_EQ, K_I, 1, {x, y});
            Model m;
            Res r = SmtCheck(Slice({NotE(eq)}), 300, &m, false);
            if (r == UNSAT) st.confirmed++;
            if (r == SAT && HoldsOn(m.as, {NotE(eq)}))
              rep.inconclusive.push_back("normal form disagrees with z3: " + msg);
          }
          return;
        }
      }
      Expr* eq = g_pool.Make(O_EQ, K_I, 1, x->id < y->id
                                               ? std::vector<Expr*>{x, y}
                                               : std::vector<Expr*>{y, x});
      Expr* tol = EF(CD(1.0 / 1024));
      Expr* d1 = g_pool.Make(O_FSUB, K_F, 64, {x, y});
      Expr* d2 = g_pool.Make(O_FSUB, K_F, 64, {y, x});
      Expr* strong = g_pool.Make(O_BOR, K_I, 1,
                                 {g_pool.Make(O_LT, K_I, 1, {tol, d1}),
                                  g_pool.Make(O_LT, K_I, 1, {tol, d2})});
      if (Prove(NotE(eq), strong, msg)) return;
      throw PathStop{"violated"};
    }
    Expr *x = EF(a), *y = EF(b);
    if (x == y) {
      st.obligNorm++;
      return;
    }
    // FP: same value or both NaN
    Val e1 = FCmp(1, a, b);
    Val n1 = FCmp(8, a, a), n2 = FCmp(8, b, b);
    Val both = IBin(llvm::Instruction::And, n1, n2, 1);
    Val ok = IBin(llvm::Instruction::Or, e1, both, 1);
    if (!ok.e) {
      if (ok.c) return;
      PathViolation("assert", msg);
      throw PathStop{"violated"};
    }
    if (Prove(NotE(ok.e), nullptr, msg)) return;
    throw PathStop{"violated"};
  }
  void AssertLe(Val a, Val b, const std::string& msg) {
    a = FCoerce(a);
    b = FCoerce(b);
    st.oblig++;
    st.obligMsg[msg]++;
    if (Undef(a) || Undef(b)) {
      PathViolation("uninit", msg + " (uninitialised value)");
      throw PathStop{"violated"};
    }
    Val c = FCmp(5, a, b);
    if (!c.e) {
      if (c.c) {
        st.obligConcrete++;
        return;
      }
      PathViolation("assert", msg);
      throw PathStop{"violated"};
    }
    if (pcset.count(c.e)) {
      st.obligNorm++;
      return;
    }
    Expr* strong = nullptr;
    if (g_mode == M_REAL && !IsNonFinite(a) && !IsNonFinite(b)) {
      Expr *x = EF(a), *y = EF(b);
      Expr* tol = EF(CD(1.0 / 1024));
      strong = g_pool.Make(
          O_LT, K_I, 1, {tol, g_pool.Make(O_FSUB, K_F, 64, {x, y})});
    }
    if (Prove(NotE(c.e), strong, msg)) {
      if (!opt.round) AddPC(c.e);
      return;
    }
    throw PathStop{"violated"};
  }
  void Assume(Val c) {
    if (!c.e) {
      if (c.c & 1) return;
      throw PathStop{"assume"};
    }
    if (Undef(c)) throw Violation{"uninit", "assumption on uninitialised value"};
    // A decision so that replays stay aligned; the false side is not explored.
    if (pcset.count(c.e)) return;
    if (pcset.count(NotE(c.e))) throw PathStop{"assume"};
    AddPC(c.e);
    if (nextDec >= prefix.size()) {
      // only drop the path when provably infeasible
      std::vector<Expr*> cs = Slice({c.e});
      if (!Witness(cs, nullptr, 20)) {
        Model m;
        if (CachedCheck(cs, opt.btmo, &m) == UNSAT) throw PathStop{"assume"};
      }
    }
  }
  void Reach(const std::string& label) {
    st.reach[label]++;
    // the first few visits are backed by a model of the path
    if (st.reachSat[label] < 1 || (rep.witness.size() < 4 && st.reach[label] % 7 == 3)) {
      Assign a;
      int tried = st.reachTried[label]++;
      if (opt.lazy && tried >= 8) {
        if (Witness(pc, &a, 4)) st.reachSat[label]++;
        return;
      }
      if (opt.lazy ? Witness(pc, &a, 400) || (tried == 7 && FullModel({}, &a, opt.tmo, 3000))
                   : FullModel({}, &a, opt.tmo, tried < 3 ? 3000 : 100)) {
        st.reachSat[label]++;
        if (rep.witness.size() < 6) {
          Cex c;
          c.kind = "witness";
          c.msg = label;
          c.vars = Describe(a, {});
          rep.witness.push_back(c);
        }
      }
    } else {
      st.reachSat[label]++;
    }
  }

#include "run.inc"
};

#include "main.inc"
