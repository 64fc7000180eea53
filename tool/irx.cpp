// irx: normalise a linked LLVM module of the project and dump it as JSON.
//
//   irx IN.bc KNOWN.txt SRCROOT OUT.json
//
// Normalisation: every project function whose qualified name is NOT in KNOWN.txt (a helper that a
// later edit extracted) is inlined into its callers, then mem2reg runs, so that analyses see the
// same SSA shape whether a piece of code is written in place or in a helper.
#include "llvm/ADT/StringExtras.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/IR/Constants.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;
using std::string;

static string SRC;
static bool isRepoFile(StringRef dir, StringRef file) {
  if (file.starts_with("/")) return file.starts_with(SRC);
  string p = (dir + "/" + file).str();
  return StringRef(p).starts_with(SRC);
}
static bool isRepo(const DISubprogram *sp) {
  if (!sp || !sp->getFile()) return false;
  return isRepoFile(sp->getFile()->getDirectory(), sp->getFile()->getFilename());
}
static string relFile(const DIFile *f) {
  if (!f) return "";
  string p = f->getFilename().starts_with("/") ? f->getFilename().str()
                                               : (f->getDirectory() + "/" + f->getFilename()).str();
  if (StringRef(p).starts_with(SRC)) { p = p.substr(SRC.size()); while (!p.empty() && p[0] == '/') p = p.substr(1); }
  // squash "a/../"
  for (;;) { auto k = p.find("/../"); if (k == string::npos) break; auto s = p.rfind('/', k - 1);
    if (s == string::npos) p = p.substr(k + 4); else p = p.substr(0, s + 1) + p.substr(k + 4); }
  return p;
}
static string qualOf(StringRef mangled) {
  ItaniumPartialDemangler D;
  string m = mangled.str();
  if (D.partialDemangle(m.c_str())) return m;
  if (!D.isFunction()) return llvm::demangle(m);
  size_t n = 0;
  char *ctx = D.getFunctionDeclContextName(nullptr, &n);
  string r; if (ctx) { r = ctx; free(ctx); }
  n = 0; char *b = D.getFunctionBaseName(nullptr, &n);
  if (b) { if (!r.empty()) r += "::"; r += b; free(b); }
  return r;
}

// ---- struct field names ---------------------------------------------------
struct FieldInfo { string name; uint64_t off, size; string type; bool base; };
struct RecInfo { string name, file; uint64_t size; std::vector<FieldInfo> f; bool isUnion; unsigned line; };
static std::map<string, RecInfo> RECS;
static string scopeName(const DIScope *s) {
  string r;
  while (s) {
    if (isa<DINamespace>(s) || isa<DICompositeType>(s)) {
      string n = s->getName().str();
      if (n.empty()) n = isa<DINamespace>(s) ? "(anonymous namespace)" : "anon";
      r = r.empty() ? n : n + "::" + r;
    }
    else if (auto sp = dyn_cast<DISubprogram>(s)) { r = sp->getName().str() + (r.empty() ? "" : "::" + r); }
    s = s->getScope();
  }
  return r;
}
static string tyName(const DIType *t) {
  if (!t) return "void";
  if (auto d = dyn_cast<DIDerivedType>(t)) {
    switch (d->getTag()) {
    case dwarf::DW_TAG_pointer_type: return tyName(d->getBaseType()) + "*";
    case dwarf::DW_TAG_reference_type: return tyName(d->getBaseType()) + "&";
    case dwarf::DW_TAG_rvalue_reference_type: return tyName(d->getBaseType()) + "&&";
    case dwarf::DW_TAG_const_type: return "const " + tyName(d->getBaseType());
    case dwarf::DW_TAG_volatile_type: return tyName(d->getBaseType());
    case dwarf::DW_TAG_typedef: return d->getName().str();
    default: return d->getName().empty() ? tyName(d->getBaseType()) : d->getName().str();
    }
  }
  if (auto c = dyn_cast<DICompositeType>(t)) {
    if (c->getTag() == dwarf::DW_TAG_array_type) {
      string r = tyName(c->getBaseType());
      for (auto e : c->getElements())
        if (auto sr = dyn_cast<DISubrange>(e)) {
          auto cnt = sr->getCount();
          if (auto ci = dyn_cast_if_present<ConstantInt *>(cnt)) r += "[" + std::to_string(ci->getSExtValue()) + "]"; else r += "[]";
        }
      return r;
    }
    return scopeName(c);
  }
  return t->getName().str();
}
static uint64_t tySize(const DIType *t) {
  while (t) { if (t->getSizeInBits()) return t->getSizeInBits() / 8; auto d = dyn_cast<DIDerivedType>(t); if (!d) return 0; t = d->getBaseType(); }
  return 0;
}
static void collectRecs(Module &M) {
  DebugInfoFinder F; F.processModule(M);
  for (auto t : F.types()) {
    auto c = dyn_cast<DICompositeType>(t);
    if (!c) continue;
    auto tag = c->getTag();
    if (tag != dwarf::DW_TAG_class_type && tag != dwarf::DW_TAG_structure_type && tag != dwarf::DW_TAG_union_type) continue;
    if (c->isForwardDecl()) continue;
    RecInfo R; R.name = scopeName(c); R.size = c->getSizeInBits() / 8; R.isUnion = tag == dwarf::DW_TAG_union_type;
    R.line = c->getLine();
    if (c->getFile()) R.file = isRepoFile(c->getFile()->getDirectory(), c->getFile()->getFilename()) ? relFile(c->getFile()) : "";
    for (auto e : c->getElements()) {
      auto d = dyn_cast<DIDerivedType>(e); if (!d) continue;
      if (d->isStaticMember()) continue;
      if (d->getTag() == dwarf::DW_TAG_member)
        R.f.push_back({d->getName().str(), d->getOffsetInBits() / 8, tySize(d->getBaseType()), tyName(d->getBaseType()), false});
      else if (d->getTag() == dwarf::DW_TAG_inheritance)
        R.f.push_back({"<" + tyName(d->getBaseType()) + ">", d->getOffsetInBits() / 8, tySize(d->getBaseType()), tyName(d->getBaseType()), true});
    }
    if (!R.name.empty()) { auto it = RECS.find(R.name); if (it == RECS.end() || it->second.file.empty()) RECS[R.name] = R; }
  }
}
static string stName(StructType *st) {
  if (!st->hasName()) return "";
  string n = st->getName().str();
  for (const char *p : {"class.", "struct.", "union."}) if (StringRef(n).starts_with(p)) { n = n.substr(strlen(p)); break; }
  // strip uniquing suffix
  auto k = n.rfind('.');
  while (k != string::npos && k + 1 < n.size() && n.find_first_not_of("0123456789", k + 1) == string::npos) { n = n.substr(0, k); k = n.rfind('.'); }
  if (StringRef(n).ends_with(".base")) n = n.substr(0, n.size() - 5);
  return n;
}

// ---- values ---------------------------------------------------------------
static const DataLayout *DL;
struct FnCtx { std::map<const Value *, int> id; std::map<const BasicBlock *, int> bb; };
static json::Value constant(const Constant *c, int depth);
static bool strOf(const GlobalVariable *g, string &out, string &kind) {
  if (!g->hasInitializer() || !g->isConstant()) return false;
  auto I = g->getInitializer();
  if (auto z = dyn_cast<ConstantAggregateZero>(I)) {
    auto at = dyn_cast<ArrayType>(z->getType()); if (!at || !at->getElementType()->isIntegerTy()) return false;
    if (!g->getName().starts_with(".str")) return false;
    out = ""; kind = "s"; return true;
  }
  auto da = dyn_cast<ConstantDataArray>(I); if (!da) return false;
  unsigned w = da->getElementType()->isIntegerTy() ? da->getElementType()->getIntegerBitWidth() : 0;
  if (w == 8) { if (!da->isString()) return false; out = da->getAsString().str(); if (!out.empty() && out.back() == 0) out.pop_back(); kind = "s"; return true; }
  if (w == 16 || w == 32) {
    if (!g->getName().starts_with(".str")) return false;
    out.clear();
    for (unsigned i = 0; i + 1 < da->getNumElements(); i++) { uint64_t v = da->getElementAsInteger(i);
      if (v < 0x80) out += (char)v; else if (v < 0x800) { out += (char)(0xC0 | (v >> 6)); out += (char)(0x80 | (v & 63)); }
      else { out += (char)(0xE0 | (v >> 12)); out += (char)(0x80 | ((v >> 6) & 63)); out += (char)(0x80 | (v & 63)); } }
    kind = w == 16 ? "s16" : "s32"; return true;
  }
  return false;
}
static string safe(const string &s) { string r = s; if (!json::isUTF8(r)) r = json::fixUTF8(r); return r; }
static json::Value text(const string &kind, const string &s) {   // bytes that are no UTF-8 are given in hexadecimal, too
  json::Object r{{"k", kind}, {"v", safe(s)}};
  if (!json::isUTF8(s)) r["h"] = llvm::toHex(s);
  return r;
}
static json::Value constant(const Constant *c, int depth) {
  if (depth > 12) return json::Object{{"k", "deep"}};
  if (auto i = dyn_cast<ConstantInt>(c)) {
    if (i->getBitWidth() > 64) return json::Object{{"k", "big"}};
    return json::Object{{"k", "i"}, {"v", i->getBitWidth() == 1 ? (int64_t)i->getZExtValue() : i->getSExtValue()}, {"w", (int64_t)i->getBitWidth()}};
  }
  if (isa<ConstantPointerNull>(c)) return json::Object{{"k", "null"}};
  if (isa<UndefValue>(c)) return json::Object{{"k", "undef"}};
  if (auto f = dyn_cast<Function>(c)) return json::Object{{"k", "fn"}, {"n", f->getName()}};
  if (auto a = dyn_cast<GlobalAlias>(c)) return constant(a->getAliasee(), depth + 1);
  if (auto g = dyn_cast<GlobalVariable>(c)) {
    string s, kind; if (strOf(g, s, kind)) { json::Value v = text(kind, s); (*v.getAsObject())["g"] = g->getName(); return v; }
    return json::Object{{"k", "g"}, {"n", g->getName()}};
  }
  if (auto fp = dyn_cast<ConstantFP>(c)) { SmallString<32> s; fp->getValueAPF().toString(s); return json::Object{{"k", "f"}, {"v", s.str()}}; }
  if (auto ce = dyn_cast<ConstantExpr>(c)) {
    json::Array ops; for (auto &o : ce->operands()) ops.push_back(constant(cast<Constant>(o.get()), depth + 1));
    json::Object r{{"k", "ce"}, {"op", ce->getOpcodeName()}, {"ops", std::move(ops)}};
    if (auto g = dyn_cast<GEPOperator>(ce)) {
      APInt off(64, 0); if (g->accumulateConstantOffset(*DL, off)) r["off"] = off.getSExtValue();
      if (auto st = dyn_cast<StructType>(g->getSourceElementType())) r["st"] = stName(st);
    }
    return r;
  }
  if (isa<ConstantAggregateZero>(c)) return json::Object{{"k", "zero"}};
  if (auto da = dyn_cast<ConstantDataArray>(c)) {
    if (da->isString()) return text("bytes", da->getAsString().str());
    json::Array a; if (da->getElementType()->isIntegerTy()) for (unsigned i = 0; i < da->getNumElements() && i < 4096; i++) a.push_back(da->getElementAsAPInt(i).getSExtValue());
    return json::Object{{"k", "arr"}, {"e", std::move(a)}};
  }
  if (auto ca = dyn_cast<ConstantAggregate>(c)) {
    json::Array a; for (auto &o : ca->operands()) a.push_back(constant(cast<Constant>(o.get()), depth + 1));
    return json::Object{{"k", "agg"}, {"e", std::move(a)}};
  }
  return json::Object{{"k", "other"}};
}
static json::Value val(FnCtx &cx, const Value *v) {
  auto it = cx.id.find(v);
  if (it != cx.id.end()) return it->second;
  if (auto c = dyn_cast<Constant>(v)) return constant(c, 0);
  if (auto b = dyn_cast<BasicBlock>(v)) return json::Object{{"k", "bb"}, {"b", cx.bb[b]}};
  return json::Object{{"k", "md"}};
}
static string ty(Type *t) {
  if (t->isVoidTy()) return "void";
  if (t->isPointerTy()) return "ptr";
  if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
  if (auto st = dyn_cast<StructType>(t)) { string n = stName(st); return n.empty() ? "{}" : "%" + n; }
  if (auto at = dyn_cast<ArrayType>(t)) return "[" + std::to_string(at->getNumElements()) + " x " + ty(at->getElementType()) + "]";
  if (t->isFloatTy()) return "float"; if (t->isDoubleTy()) return "double";
  return "?";
}
static json::Value loc(const Instruction &I) {
  auto dl = I.getDebugLoc(); if (!dl) return nullptr;
  json::Array a; a.push_back(relFile(dl->getFile())); a.push_back((int64_t)dl->getLine()); a.push_back((int64_t)dl->getColumn());
  return a;
}
static json::Value gepPath(const GEPOperator *g) {
  // list of [struct, field] steps; array steps are [null, operand index]
  json::Array path;
  Type *t = g->getSourceElementType();
  unsigned k = 0;
  for (auto it = g->idx_begin(); it != g->idx_end(); ++it, ++k) {
    if (k == 0) { auto ci = dyn_cast<ConstantInt>(it->get()); if (!(ci && ci->isZero())) path.push_back(json::Array{nullptr, (int64_t)k}); continue; }
    if (auto st = dyn_cast<StructType>(t)) {
      unsigned fi = cast<ConstantInt>(it->get())->getZExtValue();
      uint64_t off = DL->getStructLayout(st)->getElementOffset(fi);
      string n = stName(st), fn = "+" + std::to_string(off);
      auto r = RECS.find(n);
      if (r != RECS.end()) {
        bool hit = false;
        for (auto &f : r->second.f) if (!f.base && f.off == off && f.size) { fn = f.name; hit = true; break; }
        if (!hit) for (auto &f : r->second.f) if (f.off == off && f.base) { fn = f.name; break; }
      }
      path.push_back(json::Array{n, fn});
      t = st->getElementType(fi);
    } else if (auto at = dyn_cast<ArrayType>(t)) { path.push_back(json::Array{nullptr, (int64_t)k}); t = at->getElementType(); }
    else path.push_back(json::Array{nullptr, (int64_t)k});
  }
  return path;
}

// std::min/std::max over integers take their arguments by reference, which keeps locals in memory; they become
// pseudo calls __sa_{min,max}_{u,s}W on values, whose result sits in a fresh slot that mem2reg promotes
static FunctionCallee minmaxDecl(Module &M, bool mx, bool uns, IntegerType *t) {
  string n = string("__sa_") + (mx ? "max" : "min") + "_" + (uns ? "u" : "s") + std::to_string(t->getBitWidth());
  return M.getOrInsertFunction(n, t, t, t);
}
static Value *loadOrFold(IRBuilder<> &B, Type *t, Value *p) {
  if (auto g = dyn_cast<GlobalVariable>(p->stripPointerCasts())) if (g->isConstant() && g->hasInitializer() && g->getInitializer()->getType() == t) return g->getInitializer();
  return B.CreateLoad(t, p);
}
static void lowerMinMax(Module &M) {
  std::vector<std::tuple<CallBase *, bool, char>> sites;
  for (auto &f : M) {
    auto n = f.getName();
    bool mn = n.starts_with("_ZSt3minI"), mx = n.starts_with("_ZSt3maxI");
    if (!mn && !mx) continue;
    auto r = n.substr(9); if (r.size() < 8 || r.substr(1) != "ERKT_S2_S2_") { if (r.substr(1) != "ERKT_S2_") { if (!(r.size() > 1 && r[1] == 'E' && r.contains("RKT_"))) continue; } }
    if (f.arg_size() != 2) continue;
    char c = r[0]; if (!strchr("hatsijlmxyc", c)) continue;
    for (auto u : f.users()) if (auto cb = dyn_cast<CallBase>(u)) if (cb->getCalledFunction() == &f) sites.push_back({cb, mx, c});
  }
  auto &C = M.getContext();
  for (auto &[cb, mx, c] : sites) {
    bool uns = strchr("htjmy", c) != nullptr;
    unsigned w = strchr("hac", c) ? 8 : strchr("ts", c) ? 16 : strchr("ij", c) ? 32 : 64;
    auto t = IntegerType::get(C, w);
    IRBuilder<> B(cb);
    auto a = loadOrFold(B, t, cb->getArgOperand(0)), b = loadOrFold(B, t, cb->getArgOperand(1));
    auto r = B.CreateCall(minmaxDecl(M, mx, uns, t), {a, b});
    auto fn = cb->getFunction();
    IRBuilder<> E(&*fn->getEntryBlock().getFirstInsertionPt());
    auto slot = E.CreateAlloca(t);
    B.CreateStore(r, slot);
    cb->replaceAllUsesWith(slot);
    if (auto inv = dyn_cast<InvokeInst>(cb)) { B.CreateBr(inv->getNormalDest()); inv->getUnwindDest()->removePredecessor(inv->getParent()); }
    cb->eraseFromParent();
  }
  // scalar constants of the project are their values
  for (auto &g : M.globals()) if (g.isConstant() && g.hasInitializer() && g.getValueType()->isIntegerTy()) {
    std::vector<LoadInst *> ls; for (auto u : g.users()) if (auto l = dyn_cast<LoadInst>(u)) if (l->getType() == g.getValueType() && isRepo(l->getFunction()->getSubprogram())) ls.push_back(l);
    for (auto l : ls) { l->replaceAllUsesWith(g.getInitializer()); l->eraseFromParent(); }
  }
}
// c ? a : b over a comparison of a and b, written with branches, is the same pseudo call
static void foldSelects(Function &f) {
  std::vector<PHINode *> ps;
  for (auto &bb : f) for (auto &i : bb) if (auto p = dyn_cast<PHINode>(&i)) if (p->getNumIncomingValues() == 2 && p->getType()->isIntegerTy() && p->getType()->getIntegerBitWidth() > 8) ps.push_back(p);
  auto strip = [](BasicBlock *b, BasicBlock *to) -> BasicBlock * { // an arm that computes nothing
    for (auto &i : *b) { if (isa<DbgInfoIntrinsic>(&i) || i.isTerminator() || i.isCast() || isa<PHINode>(&i)) continue; return nullptr; }
    return b; };
  auto same = [](Value *a, Value *b) {
    auto core = [](Value *v) { while (auto c = dyn_cast<CastInst>(v)) v = c->getOperand(0); return v; };
    if (a == b) return true;
    auto x = core(a), y = core(b);
    if (x == y && !isa<Constant>(x)) return true;
    auto cx = dyn_cast<ConstantInt>(a), cy = dyn_cast<ConstantInt>(b);
    if (cx && cy) return cx->getSExtValue() == cy->getSExtValue();
    // two loads of one place with nothing between them that writes
    auto lx = dyn_cast<LoadInst>(x), ly = dyn_cast<LoadInst>(y);
    if (lx && ly) {
      auto px = lx->getPointerOperand(), py = ly->getPointerOperand();
      bool eq = px == py;
      if (!eq) if (auto gx = dyn_cast<GetElementPtrInst>(px)) if (auto gy = dyn_cast<GetElementPtrInst>(py)) if (gx->isIdenticalTo(gy)) eq = true;
      if (eq) {
        if (lx->getParent() == ly->getParent()) { bool in = false; for (auto &i : *lx->getParent()) { if (&i == lx || &i == ly) { if (in) return true; in = true; } else if (in && i.mayWriteToMemory()) return false; } }
        auto single = ly->getParent()->getSinglePredecessor();
        if (single && single == lx->getParent()) { bool after = false; for (auto &i : *single) { if (after && i.mayWriteToMemory() && !i.isTerminator()) return false; if (&i == lx) after = true; } for (auto &i : *ly->getParent()) { if (&i == ly) return true; if (i.mayWriteToMemory()) return false; } }
      }
    }
    return false; };
  for (auto p : ps) {
    auto bb = p->getParent();
    auto x = p->getIncomingBlock(0), y = p->getIncomingBlock(1); if (x == y) continue;
    BasicBlock *d = nullptr; int t0 = -1; // t0: 1 when incoming 0 is the true arm
    auto arm = [&](BasicBlock *b) -> BasicBlock * { auto s = b->getSinglePredecessor(); return s && b->getSingleSuccessor() == bb ? s : nullptr; };
    auto dx = arm(x), dy = arm(y);
    if (dx && dx == dy) d = dx; else if (dx == y && dx) d = y; else if (dy == x && dy) d = x;
    if (!d) continue;
    auto br = dyn_cast<BranchInst>(d->getTerminator()); if (!br || !br->isConditional()) continue;
    auto cmp = dyn_cast<ICmpInst>(br->getCondition()); if (!cmp || cmp->isEquality()) continue;
    auto dest = [&](unsigned k) { return br->getSuccessor(k); };
    if (dest(0) == dest(1)) continue;
    auto tArm = dest(0) == bb ? d : dest(0), fArm = dest(1) == bb ? d : dest(1);
    if (x == tArm && y == fArm) t0 = 1; else if (y == tArm && x == fArm) t0 = 0; else continue;
    auto okArm = [&](BasicBlock *b) { if (b == d) return true; for (auto &i : *b) if (!isa<DbgInfoIntrinsic>(&i) && !i.isTerminator() && !i.isCast() && !isa<LoadInst>(&i) && !isa<GetElementPtrInst>(&i)) return false; return true; };
    if (!okArm(tArm) || !okArm(fArm)) continue;
    auto tv = p->getIncomingValue(t0 ? 0 : 1), fv = p->getIncomingValue(t0 ? 1 : 0);
    auto l = cmp->getOperand(0), r = cmp->getOperand(1);
    auto pr = cmp->getPredicate(); bool uns = CmpInst::isUnsigned(pr);
    bool lt = pr == CmpInst::ICMP_ULT || pr == CmpInst::ICMP_ULE || pr == CmpInst::ICMP_SLT || pr == CmpInst::ICMP_SLE;
    bool mx;
    if (same(tv, l) && same(fv, r)) mx = !lt; else if (same(tv, r) && same(fv, l)) mx = lt; else continue;
    (void)strip;
    // the values must be available at the join: keep the phi's own operands when they dominate, else the comparison's
    auto t = cast<IntegerType>(p->getType());
    IRBuilder<> B(&*bb->getFirstInsertionPt());
    if (auto dl = p->getDebugLoc()) B.SetCurrentDebugLocation(dl); else B.SetCurrentDebugLocation(br->getDebugLoc());
    auto fit = [&](Value *v, Value *alt) -> Value * {
      auto in = dyn_cast<Instruction>(v);
      if (!in || (in->getParent() != tArm && in->getParent() != fArm) || in->getParent() == d) return v;
      return B.CreateIntCast(alt, t, !uns);
    };
    auto ta = same(tv, l) ? l : r, fa = ta == l ? r : l;
    auto a = fit(tv, ta), b = fit(fv, fa);
    auto c = B.CreateCall(minmaxDecl(*f.getParent(), mx, uns, t), {a, b});
    p->replaceAllUsesWith(c);
    SmallVector<DbgVariableIntrinsic *, 2> du; findDbgUsers(du, p); for (auto v : du) v->replaceVariableLocationOp(p, c);
    p->eraseFromParent();
  }
}

int main(int argc, char **argv) {
  if (argc < 5) { errs() << "usage: irx in.bc known.txt srcroot out.json\n"; return 2; }
  SRC = argv[3]; while (SRC.size() > 1 && SRC.back() == '/') SRC.pop_back();
  LLVMContext C; SMDiagnostic E;
  auto M = parseIRFile(argv[1], E, C);
  if (!M) { E.print("irx", errs()); return 2; }
  DL = &M->getDataLayout();
  std::set<string> known; { std::ifstream f(argv[2]); string l; while (std::getline(f, l)) if (!l.empty() && l[0] != '#') known.insert(l); }
  collectRecs(*M);
  // --- virtual call info is recorded before the type tests go away: keep them, they are only calls.
  // vtables
  json::Array vts;
  std::set<const Function *> inVT;
  for (auto &g : M->globals()) {
    if (!g.hasInitializer()) continue;
    SmallVector<MDNode *, 4> tys; g.getMetadata(LLVMContext::MD_type, tys);
    if (tys.empty()) continue;
    json::Object o{{"n", g.getName()}};
    json::Array ta;
    for (auto m : tys) {
      auto off = mdconst::extract<ConstantInt>(m->getOperand(0))->getZExtValue();
      if (auto s = dyn_cast<MDString>(m->getOperand(1))) ta.push_back(json::Array{(int64_t)off, s->getString()});
    }
    json::Array sl; uint64_t base = 0;
    std::function<void(Constant *, uint64_t)> walk = [&](Constant *c, uint64_t off) {
      if (auto ca = dyn_cast<ConstantAggregate>(c)) {
        for (unsigned i = 0; i < ca->getNumOperands(); i++) {
          uint64_t o2 = off;
          if (auto st = dyn_cast<StructType>(ca->getType())) o2 += DL->getStructLayout(st)->getElementOffset(i);
          else if (auto at = dyn_cast<ArrayType>(ca->getType())) o2 += i * DL->getTypeAllocSize(at->getElementType());
          walk(ca->getOperand(i), o2);
        }
        return;
      }
      auto s = c->stripPointerCasts();
      if (auto f = dyn_cast<Function>(s)) { sl.push_back(json::Array{(int64_t)off, f->getName()}); inVT.insert(f); }
      else if (auto a = dyn_cast<GlobalAlias>(s)) { if (auto f2 = dyn_cast<Function>(a->getAliaseeObject())) { sl.push_back(json::Array{(int64_t)off, f2->getName()}); inVT.insert(f2); } }
    };
    walk(g.getInitializer(), base);
    o["types"] = std::move(ta); o["slots"] = std::move(sl);
    vts.push_back(std::move(o));
  }
  // --- searches of the standard library over a lambda stay calls; what they call is noted
  auto isSearch = [](Function &f) { for (auto n : {"St6any_of", "St6all_of", "St7none_of", "St7find_if", "St8count_if"}) if (f.getName().contains(n)) return true; return false; };
  json::Object algos; std::set<Function *> inAlgo;
  for (auto &f : *M) {
    if (f.isDeclaration() || !isSearch(f) || !(f.getName().contains("$_") || f.getName().contains("EUl"))) continue;
    std::set<Function *> seen{&f}; std::vector<Function *> work{&f}; json::Array ls;
    while (!work.empty()) {
      auto g = work.back(); work.pop_back();
      for (auto &bb : *g) for (auto &i : bb) if (auto cb = dyn_cast<CallBase>(&i)) if (auto h = cb->getCalledFunction()) {
        if (h->isDeclaration() || seen.count(h)) continue;
        seen.insert(h);
        if (isRepo(h->getSubprogram())) { ls.push_back(h->getName()); inAlgo.insert(h); } else work.push_back(h);
      }
    }
    algos[f.getName()] = std::move(ls);
  }
  // --- inline unknown helpers
  json::Array inlined;
  std::set<Function *> toInline;
  for (auto &f : *M) {
    if (f.isDeclaration()) continue;
    string q = qualOf(f.getName());
    // lambdas, and library algorithms instantiated over a lambda, are always folded into the caller
    bool lam = f.getName().contains("$_") || f.getName().contains("EUl");
    if (known.empty()) lam = false;
    if (lam && (isSearch(f) || inAlgo.count(&f))) continue;
    if (!lam) {
      if (!isRepo(f.getSubprogram())) continue;
      if (known.count(q) || known.empty()) continue;
    }
    if (inVT.count(&f) || f.isVarArg()) continue;
    if (f.getName() == "main" || f.getName().starts_with("_GLOBAL__") || f.getName().starts_with("__cxx_global")) continue;
    // only when it is called directly at least once
    bool called = false; for (auto u : f.users()) if (auto cb = dyn_cast<CallBase>(u)) if (cb->getCalledFunction() == &f) called = true;
    if (!called) continue;
    toInline.insert(&f); inlined.push_back(q);
  }
  // iterate: helpers calling helpers; recursion is left alone
  for (int round = 0; round < 12; round++) {
    std::vector<CallBase *> sites;
    for (auto f : toInline) for (auto u : f->users()) if (auto cb = dyn_cast<CallBase>(u)) if (cb->getCalledFunction() == f) {
      auto caller = cb->getFunction(); if (caller == f) continue; if (toInline.count(caller)) continue;
      sites.push_back(cb);
    }
    if (sites.empty()) break;
    for (auto cb : sites) { InlineFunctionInfo ifi; InlineFunction(*cb, ifi); }
  }
  for (auto f : toInline) if (f->use_empty()) f->deleteBody();
  lowerMinMax(*M);
  // --- mem2reg
  {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    FunctionPassManager FPM; FPM.addPass(PromotePass());
    for (auto &f : *M) if (!f.isDeclaration() && isRepo(f.getSubprogram())) { f.removeFnAttr(Attribute::OptimizeNone); FPM.run(f, FAM); foldSelects(f); }
  }
  json::Object root;
  root["vtables"] = std::move(vts);
  root["inlined"] = std::move(inlined);
  root["algos"] = std::move(algos);
  // records
  { json::Object recs; for (auto &kv : RECS) { if (kv.second.file.empty()) continue; json::Array fs; for (auto &f : kv.second.f) fs.push_back(json::Object{{"n", f.name}, {"o", (int64_t)f.off}, {"z", (int64_t)f.size}, {"t", f.type}});
      recs[kv.first] = json::Object{{"size", (int64_t)kv.second.size}, {"file", kv.second.file}, {"line", (int64_t)kv.second.line}, {"f", std::move(fs)}, {"union", kv.second.isUnion}}; }
    root["records"] = std::move(recs); }
  // enums
  { DebugInfoFinder F; F.processModule(*M); json::Object en; for (auto t : F.types()) if (auto c = dyn_cast<DICompositeType>(t)) if (c->getTag() == dwarf::DW_TAG_enumeration_type) {
      if (!c->getFile() || !isRepoFile(c->getFile()->getDirectory(), c->getFile()->getFilename())) continue;
      json::Object vals; for (auto e : c->getElements()) if (auto d = dyn_cast<DIEnumerator>(e)) vals[d->getName()] = d->getValue().getSExtValue();
      string n = scopeName(c); if (n.empty() || StringRef(n).ends_with("anon")) n = "anon@" + relFile(c->getFile()) + ":" + std::to_string(c->getLine());
      en[n] = json::Object{{"file", relFile(c->getFile())}, {"vals", std::move(vals)}}; }
    root["enums"] = std::move(en); }
  // globals
  { json::Object gs; for (auto &g : M->globals()) {
      SmallVector<DIGlobalVariableExpression *, 1> d; g.getDebugInfo(d);
      bool repo = false; string file; for (auto e : d) if (auto v = e->getVariable()) if (v->getFile() && isRepoFile(v->getFile()->getDirectory(), v->getFile()->getFilename())) { repo = true; file = relFile(v->getFile()); }
      if (!repo && !(g.getName().starts_with("__const.") || g.getName().starts_with("constinit"))) continue;
      json::Object o{{"name", llvm::demangle(g.getName().str())}, {"file", file}, {"ty", ty(g.getValueType())}, {"const", g.isConstant()}};
      if (g.hasInitializer()) o["init"] = constant(g.getInitializer(), 0);
      gs[g.getName()] = std::move(o); }
    root["globals"] = std::move(gs); }
  // functions
  json::Object fns, decls;
  for (auto &f : *M) {
    if (f.isIntrinsic()) continue;
    bool repo = !f.isDeclaration() && isRepo(f.getSubprogram());
    // also static-init code of the repo's units
    if (!f.isDeclaration() && f.getName().starts_with("__cxx_global_var_init")) if (auto sp = f.getSubprogram()) repo = isRepo(sp);
    if (!repo) { if (!f.use_empty()) decls[f.getName()] = json::Object{{"q", safe(qualOf(f.getName()))}, {"d", safe(llvm::demangle(f.getName().str()))}, {"def", !f.isDeclaration()}, {"noret", f.doesNotReturn()}}; continue; }
    FnCtx cx; int n = 0;
    for (auto &a : f.args()) cx.id[&a] = n++;
    int nargs = n; int b = 0;
    for (auto &bb : f) { cx.bb[&bb] = b++; for (auto &i : bb) cx.id[&i] = n++; }
    json::Object o;
    auto sp = f.getSubprogram();
    o["q"] = safe(qualOf(f.getName())); o["d"] = safe(llvm::demangle(f.getName().str()));
    o["file"] = relFile(sp->getFile()); o["line"] = (int64_t)sp->getLine(); o["nargs"] = nargs;
    o["ret"] = ty(f.getReturnType()); o["virt"] = inVT.count(&f) != 0;
    { json::Array an; for (auto &a : f.args()) an.push_back(json::Array{a.getName(), ty(a.getType()), a.hasStructRetAttr()}); o["args"] = std::move(an); }
    if (sp->getType()) { json::Array pt; for (auto t : sp->getType()->getTypeArray()) pt.push_back(safe(tyName(t))); o["dt"] = std::move(pt); }
    json::Object names; // value id -> source variable
    json::Array blocks;
    for (auto &bb : f) {
      json::Array ins;
      for (auto &i : bb) {
        if (auto dv = dyn_cast<DbgVariableIntrinsic>(&i)) {
          for (auto v : dv->location_ops()) { auto it = cx.id.find(v); if (it != cx.id.end()) { auto key = std::to_string(it->second); if (!names.get(key)) names[key] = dv->getVariable()->getName(); } }
          continue;
        }
        if (isa<DbgInfoIntrinsic>(&i)) continue;
        json::Object io; io["i"] = cx.id[&i]; io["op"] = i.getOpcodeName(); io["t"] = ty(i.getType());
        auto l = loc(i); if (l.kind() != json::Value::Null) io["l"] = std::move(l);
        if (auto cb = dyn_cast<CallBase>(&i)) {
          json::Array a; for (auto &x : cb->args()) a.push_back(val(cx, x.get()));
          io["a"] = std::move(a);
          auto callee = cb->getCalledOperand()->stripPointerCasts();
          if (auto al = dyn_cast<GlobalAlias>(callee)) callee = al->getAliaseeObject();
          if (auto cf = dyn_cast<Function>(callee)) {
            io["f"] = cf->getName();
            if (cf->getIntrinsicID() == Intrinsic::type_test || cf->getIntrinsicID() == Intrinsic::public_type_test) {
              if (auto mv = dyn_cast<MetadataAsValue>(cb->getArgOperand(1))) if (auto s = dyn_cast<MDString>(mv->getMetadata())) io["tid"] = s->getString();
            }
          } else io["fv"] = val(cx, callee);
          if (auto inv = dyn_cast<InvokeInst>(&i)) { io["n"] = cx.bb[inv->getNormalDest()]; io["u"] = cx.bb[inv->getUnwindDest()]; }
          json::Array sr; for (unsigned k = 0; k < cb->arg_size(); k++) if (cb->paramHasAttr(k, Attribute::StructRet)) io["sret"] = (int64_t)k;
        } else if (auto br = dyn_cast<BranchInst>(&i)) {
          json::Array s; for (unsigned k = 0; k < br->getNumSuccessors(); k++) s.push_back(cx.bb[br->getSuccessor(k)]);
          io["s"] = std::move(s); if (br->isConditional()) io["o"] = json::Array{val(cx, br->getCondition())};
        } else if (auto sw = dyn_cast<SwitchInst>(&i)) {
          io["o"] = json::Array{val(cx, sw->getCondition())}; io["def"] = cx.bb[sw->getDefaultDest()];
          json::Array cs; for (auto c : sw->cases()) cs.push_back(json::Array{c.getCaseValue()->getSExtValue(), cx.bb[c.getCaseSuccessor()]}); io["cases"] = std::move(cs);
        } else if (auto phi = dyn_cast<PHINode>(&i)) {
          json::Array in; for (unsigned k = 0; k < phi->getNumIncomingValues(); k++) in.push_back(json::Array{cx.bb[phi->getIncomingBlock(k)], val(cx, phi->getIncomingValue(k))}); io["in"] = std::move(in);
        } else if (auto g = dyn_cast<GetElementPtrInst>(&i)) {
          json::Array a; for (auto &x : g->operands()) a.push_back(val(cx, x.get())); io["o"] = std::move(a);
          io["p"] = gepPath(cast<GEPOperator>(g)); io["st"] = ty(g->getSourceElementType());
          io["esz"] = (int64_t)DL->getTypeAllocSize(g->getSourceElementType());
          APInt off(64, 0); if (cast<GEPOperator>(g)->accumulateConstantOffset(*DL, off)) io["off"] = off.getSExtValue();
        } else if (auto lp = dyn_cast<LandingPadInst>(&i)) {
          json::Array cl; for (unsigned k = 0; k < lp->getNumClauses(); k++) cl.push_back(constant(lp->getClause(k), 0)); io["cl"] = std::move(cl); io["cleanup"] = lp->isCleanup();
        } else {
          json::Array a; for (auto &x : i.operands()) a.push_back(val(cx, x.get())); io["o"] = std::move(a);
          if (auto c = dyn_cast<CmpInst>(&i)) io["p"] = CmpInst::getPredicateName(c->getPredicate());
          if (auto al = dyn_cast<AllocaInst>(&i)) { io["at"] = ty(al->getAllocatedType()); io["sz"] = (int64_t)DL->getTypeAllocSize(al->getAllocatedType()); io["nm"] = al->getName(); }
          if (auto ev = dyn_cast<ExtractValueInst>(&i)) { json::Array ix; for (auto q : ev->indices()) ix.push_back((int64_t)q); io["ix"] = std::move(ix); }
          if (isa<LoadInst>(&i)) {} 
          if (auto ob = dyn_cast<OverflowingBinaryOperator>(&i)) { io["nsw"] = ob->hasNoSignedWrap(); io["nuw"] = ob->hasNoUnsignedWrap(); }
        }
        ins.push_back(std::move(io));
      }
      blocks.push_back(std::move(ins));
    }
    o["b"] = std::move(blocks); o["names"] = std::move(names);
    fns[f.getName()] = std::move(o);
  }
  root["functions"] = std::move(fns); root["decls"] = std::move(decls);
  std::error_code ec; raw_fd_ostream os(argv[4], ec);
  os << json::Value(std::move(root));
  return 0;
}
