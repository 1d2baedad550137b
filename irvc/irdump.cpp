// irdump: mechanical LLVM-IR -> JSON extraction used by the irvc verification
// condition generator.  Nothing is rewritten; every instruction of every
// reachable function is emitted, GEPs are turned into byte-offset linear forms
// with the module's own DataLayout.
#include "llvm/ADT/SmallPtrSet.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace llvm;
static const DataLayout *DL;

static json::Value ty(Type *t) {
  if (t->isVoidTy()) return "void";
  if (t->isFloatTy()) return "float";
  if (t->isDoubleTy()) return "double";
  if (t->isHalfTy()) return "half";
  if (t->isPointerTy()) return "ptr";
  if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
  if (auto *s = dyn_cast<StructType>(t)) {
    json::Array a;
    for (auto *e : s->elements()) a.push_back(ty(e));
    return json::Object{{"struct", std::move(a)}};
  }
  if (auto *s = dyn_cast<ArrayType>(t))
    return json::Object{{"array", (int64_t)s->getNumElements()},
        {"elem", ty(s->getElementType())},
        {"stride", (int64_t)DL->getTypeAllocSize(s->getElementType())}};
  std::string s; raw_string_ostream os(s); t->print(os);
  return json::Object{{"other", s}};
}

static std::map<const Value *, int> ids;
static json::Value constOp(const Constant *c);
static json::Value op(const Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) return constOp(c);
  if (isa<MetadataAsValue>(v)) return json::Object{{"k", "md"}};
  if (auto *bb = dyn_cast<BasicBlock>(v))
    return json::Object{{"k", "bb"}, {"id", ids.at(bb)}};
  auto it = ids.find(v);
  if (it == ids.end()) return json::Object{{"k", "unk"}};
  return json::Object{{"k", "v"}, {"id", it->second}};
}
static json::Value constOp(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    SmallString<32> s; ci->getValue().toStringSigned(s);
    return json::Object{{"k", "int"}, {"w", (int64_t)ci->getBitWidth()}, {"v", s.str().str()}};
  }
  if (auto *cf = dyn_cast<ConstantFP>(c)) {
    SmallString<32> s; cf->getValueAPF().bitcastToAPInt().toStringUnsigned(s);
    return json::Object{{"k", "fp"}, {"ty", ty(c->getType())}, {"bits", s.str().str()}};
  }
  if (isa<ConstantPointerNull>(c)) return json::Object{{"k", "null"}};
  if (isa<UndefValue>(c)) return json::Object{{"k", "undef"}, {"ty", ty(c->getType())}};
  if (auto *f = dyn_cast<Function>(c)) return json::Object{{"k", "fn"}, {"name", f->getName().str()}};
  if (auto *g = dyn_cast<GlobalVariable>(c)) return json::Object{{"k", "gv"}, {"name", g->getName().str()}, {"off", 0}};
  if (auto *a = dyn_cast<GlobalAlias>(c)) return constOp(a->getAliasee());
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (ce->getOpcode() == Instruction::GetElementPtr) {
      APInt off(64, 0);
      if (cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) {
        json::Value b = constOp(cast<Constant>(ce->getOperand(0)));
        if (auto *o = b.getAsObject()) {
          if (auto k = o->getString("k"); k && *k == "gv") {
            (*o)["off"] = *o->getInteger("off") + off.getSExtValue();
            return b;
          }
        }
      }
    }
    if (ce->getOpcode() == Instruction::BitCast || ce->getOpcode() == Instruction::AddrSpaceCast)
      return constOp(cast<Constant>(ce->getOperand(0)));
    if (ce->getOpcode() == Instruction::IntToPtr)
      if (auto *ci = dyn_cast<ConstantInt>(ce->getOperand(0)))
        return json::Object{{"k", "iptr"}, {"v", ci->getSExtValue()}};
    return json::Object{{"k", "cexpr"}, {"op", ce->getOpcodeName()}};
  }
  if (isa<ConstantAggregateZero>(c)) return json::Object{{"k", "zero"}, {"ty", ty(c->getType())}};
  if (isa<ConstantStruct>(c) || isa<ConstantArray>(c)) {
    json::Array a;
    for (auto &o : c->operands()) a.push_back(constOp(cast<Constant>(o)));
    return json::Object{{"k", "agg"}, {"ty", ty(c->getType())}, {"elems", std::move(a)}};
  }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    json::Array a;
    for (unsigned i = 0; i < cd->getNumElements(); ++i) a.push_back(constOp(cd->getElementAsConstant(i)));
    return json::Object{{"k", "agg"}, {"ty", ty(c->getType())}, {"elems", std::move(a)}};
  }
  std::string s; raw_string_ostream os(s); c->print(os);
  return json::Object{{"k", "other"}, {"s", s}};
}

static bool promotable(const Value *p, int depth = 0) {
  if (depth > 4) return false;
  for (const User *u : p->users()) {
    if (auto *l = dyn_cast<LoadInst>(u)) { if (l->getType()->isAggregateType()) return false; continue; }
    if (auto *s = dyn_cast<StoreInst>(u)) { if (s->getValueOperand() == p || s->getValueOperand()->getType()->isAggregateType()) return false; continue; }
    if (auto *g = dyn_cast<GetElementPtrInst>(u)) {
      if (!g->hasAllConstantIndices() || !promotable(g, depth + 1)) return false;
      continue;
    }
    if (auto *ii = dyn_cast<IntrinsicInst>(u)) {
      if (ii->isLifetimeStartOrEnd() || isa<DbgInfoIntrinsic>(ii)) continue;
      return false;
    }
    return false;
  }
  return true;
}

static json::Value dumpInst(const Instruction &I) {
  json::Object o;
  o["op"] = I.getOpcodeName();
  if (!I.getType()->isVoidTy()) { o["id"] = ids.at(&I); }
  o["ty"] = ty(I.getType());
  if (I.hasName()) o["name"] = I.getName().str();
  if (I.getDebugLoc()) o["line"] = (int64_t)I.getDebugLoc().getLine();
  if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
    SmallMapVector<Value *, APInt, 4> var; APInt c(64, 0);
    if (cast<GEPOperator>(g)->collectOffset(*DL, 64, var, c)) {
      o["base"] = op(g->getPointerOperand()); o["off"] = c.getSExtValue();
      json::Array a;
      for (auto &kv : var) a.push_back(json::Object{{"v", op(kv.first)}, {"s", kv.second.getSExtValue()}, {"ty", ty(kv.first->getType())}});
      o["var"] = std::move(a);
    } else o["op"] = "unsupported_gep";
    return std::move(o);
  }
  if (auto *a = dyn_cast<AllocaInst>(&I)) {
    o["esize"] = (int64_t)DL->getTypeAllocSize(a->getAllocatedType()).getFixedValue();
    o["count"] = op(a->getArraySize());
    o["aty"] = ty(a->getAllocatedType());
    bool cnt = isa<ConstantInt>(a->getArraySize());
    o["prom"] = cnt && promotable(a);
    SmallVector<DbgDeclareInst *, 1> dd;
    for (auto *d : findDbgDeclares(const_cast<AllocaInst *>(a))) { o["dbg"] = d->getVariable()->getName().str(); o["dline"] = (int64_t)d->getVariable()->getLine(); break; }
    for (auto *d : findDVRDeclares(const_cast<AllocaInst *>(a))) { o["dbg"] = d->getVariable()->getName().str(); o["dline"] = (int64_t)d->getVariable()->getLine(); break; }
    return std::move(o);
  }
  if (auto *c = dyn_cast<CmpInst>(&I)) o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
  if (auto *b = dyn_cast<OverflowingBinaryOperator>(&I)) { o["nsw"] = b->hasNoSignedWrap(); o["nuw"] = b->hasNoUnsignedWrap(); }
  if (auto *p = dyn_cast<PHINode>(&I)) {
    json::Array a;
    for (unsigned i = 0; i < p->getNumIncomingValues(); ++i)
      a.push_back(json::Object{{"bb", ids.at(p->getIncomingBlock(i))}, {"v", op(p->getIncomingValue(i))}});
    o["in"] = std::move(a); return std::move(o);
  }
  if (auto *b = dyn_cast<BranchInst>(&I)) {
    json::Array t; for (unsigned k = 0; k < b->getNumSuccessors(); ++k) t.push_back(ids.at(b->getSuccessor(k)));
    o["succ"] = std::move(t);
    if (b->isConditional()) o["cond"] = op(b->getCondition());
    return std::move(o);
  }
  if (auto *s = dyn_cast<SwitchInst>(&I)) {
    o["cond"] = op(s->getCondition()); o["default"] = ids.at(s->getDefaultDest());
    o["cty"] = ty(s->getCondition()->getType());
    json::Array a;
    for (auto &c : s->cases()) { SmallString<32> str; c.getCaseValue()->getValue().toStringSigned(str); a.push_back(json::Object{{"v", str.str().str()}, {"bb", ids.at(c.getCaseSuccessor())}}); }
    o["cases"] = std::move(a); return std::move(o);
  }
  if (auto *cb = dyn_cast<CallBase>(&I)) {
    json::Array a, at;
    for (auto &x : cb->args()) { a.push_back(op(x)); at.push_back(ty(x->getType())); }
    o["args"] = std::move(a); o["atys"] = std::move(at);
    if (auto *f = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) o["callee"] = f->getName().str();
    else o["callptr"] = op(cb->getCalledOperand());
    if (auto *iv = dyn_cast<InvokeInst>(cb)) o["succ"] = json::Array{ids.at(iv->getNormalDest()), ids.at(iv->getUnwindDest())};
    if (cb->doesNotReturn()) o["noreturn"] = true;
    return std::move(o);
  }
  if (auto *e = dyn_cast<ExtractValueInst>(&I)) { json::Array a; for (auto i : e->indices()) a.push_back((int64_t)i); o["idx"] = std::move(a); }
  if (auto *e = dyn_cast<InsertValueInst>(&I)) { json::Array a; for (auto i : e->indices()) a.push_back((int64_t)i); o["idx"] = std::move(a); }
  json::Array ops;
  for (auto &x : I.operands()) ops.push_back(op(x));
  o["ops"] = std::move(ops);
  if (I.getNumOperands()) o["oty"] = ty(I.getOperand(0)->getType());
  if (auto *l = dyn_cast<LoadInst>(&I)) o["size"] = (int64_t)DL->getTypeStoreSize(l->getType());
  if (auto *s = dyn_cast<StoreInst>(&I)) o["size"] = (int64_t)DL->getTypeStoreSize(s->getValueOperand()->getType());
  return std::move(o);
}

static json::Value dumpFn(Function &F) {
  ids.clear(); int n = 0;
  json::Array params;
  for (auto &a : F.args()) {
    ids[&a] = n;
    json::Object p{{"id", n}, {"name", a.getName().str()}, {"ty", ty(a.getType())}};
    if (a.hasStructRetAttr()) { p["sret"] = (int64_t)DL->getTypeAllocSize(a.getParamStructRetType()); }
    if (a.hasByValAttr()) p["byval"] = (int64_t)DL->getTypeAllocSize(a.getParamByValType());
    if (a.hasAttribute(Attribute::ZExt)) p["zext"] = true;
    params.push_back(std::move(p)); ++n;
  }
  for (auto &B : F) { ids[&B] = n++; for (auto &I : B) ids[&I] = n++; }
  DominatorTree DT(F); LoopInfo LI(DT);
  json::Array blocks, loops;
  for (auto &B : F) {
    json::Array is;
    for (auto &I : B) {
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      if (auto *ii = dyn_cast<IntrinsicInst>(&I)) if (ii->isLifetimeStartOrEnd()) continue;
      is.push_back(dumpInst(I));
    }
    blocks.push_back(json::Object{{"id", ids[&B]}, {"name", B.getName().str()}, {"insts", std::move(is)}});
  }
  for (auto *L : LI.getLoopsInPreorder()) {
    json::Array bs; for (auto *b : L->blocks()) bs.push_back(ids[b]);
    int64_t line = 0; if (auto d = L->getStartLoc()) line = d.getLine();
    loops.push_back(json::Object{{"header", ids[L->getHeader()]}, {"blocks", std::move(bs)}, {"depth", (int64_t)L->getLoopDepth()}, {"line", line}});
  }
  json::Object o{{"name", F.getName().str()}, {"dname", demangle(F.getName().str())}, {"ret", ty(F.getReturnType())}, {"params", std::move(params)}, {"blocks", std::move(blocks)}, {"loops", std::move(loops)}};
  if (auto *sp = F.getSubprogram()) { o["file"] = sp->getFilename().str(); o["line"] = (int64_t)sp->getLine(); }
  return std::move(o);
}

int main(int argc, char **argv) {
  // irdump in.ll [-list] [regex on mangled or demangled name ...]
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) { err.print("irdump", errs()); return 2; }
  DL = &M->getDataLayout();
  if (argc > 2 && StringRef(argv[2]) == "-list") {
    for (auto &F : *M) if (!F.isDeclaration()) outs() << F.getName() << "\t" << demangle(F.getName().str()) << "\n";
    return 0;
  }
  std::vector<Function *> work; std::set<Function *> seen;
  auto push = [&](Function *f) { if (f && !f->isDeclaration() && seen.insert(f).second) work.push_back(f); };
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    bool m = argc == 2;
    for (int i = 2; i < argc && !m; ++i) { if (argv[i][0] == '@') continue; Regex r(argv[i]); m = r.match(F.getName()) || r.match(demangle(F.getName().str())); }
    if (m) push(&F);
  }
  std::vector<Function *> order; std::set<GlobalVariable *> gvs;
  std::function<void(Value *, int)> scan = [&](Value *v, int d) {
    if (d > 6) return;
    if (auto *f = dyn_cast<Function>(v)) push(f);
    else if (auto *g = dyn_cast<GlobalVariable>(v)) { if (gvs.insert(g).second && g->hasInitializer()) scan(g->getInitializer(), d + 1); }
    else if (auto *c = dyn_cast<Constant>(v)) for (auto &o : c->operands()) scan(o, d + 1);
  };
  for (auto &G : M->globals())
    for (int i = 2; i < argc; ++i) if (argv[i][0] == '@' && Regex(argv[i] + 1).match(G.getName())) scan(&G, 0);
  while (!work.empty()) {
    Function *f = work.back(); work.pop_back(); order.push_back(f);
    for (auto &I : instructions(*f)) for (auto &o : I.operands()) if (isa<Constant>(o)) scan(o, 0);
  }
  json::Object fns, gl, decls;
  for (auto *f : order) fns[f->getName().str()] = dumpFn(*f);
  for (auto *g : gvs) {
    json::Object o{{"size", (int64_t)DL->getTypeAllocSize(g->getValueType())}, {"ty", ty(g->getValueType())}, {"const", g->isConstant()}};
    if (g->hasInitializer()) o["init"] = constOp(g->getInitializer());
    gl[g->getName().str()] = std::move(o);
  }
  for (auto &F : *M) if (F.isDeclaration()) decls[F.getName().str()] = demangle(F.getName().str());
  outs() << json::Value(json::Object{{"functions", std::move(fns)}, {"globals", std::move(gl)}, {"decls", std::move(decls)}});
  outs() << "\n";
  return 0;
}
