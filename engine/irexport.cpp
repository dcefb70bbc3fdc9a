// Exports an LLVM module (clang -O0 -g bitcode) as JSON for the analyses in /verif/engine.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/JSON.h>
#include <llvm/ADT/MapVector.h>
#include <map>
#include <set>
using namespace llvm;
using J = json::Value; using JO = json::Object; using JA = json::Array;

static const DataLayout *DL;
static std::map<const Value*, int> ids;

static std::string tyStr(Type *t) { std::string s; raw_string_ostream o(s); t->print(o, false, true); return o.str(); }
static J intJ(const APInt &v) {
  if (v.getBitWidth() <= 64) { return J((int64_t)v.getSExtValue()); }
  SmallString<40> s; v.toString(s, 10, true); return J(("#" + s.str()).str());
}
static J tyJ(Type *t) {
  if (t->isVoidTy()) return "void";
  if (t->isPointerTy()) return "ptr";
  if (t->isIntegerTy()) return (int64_t)t->getIntegerBitWidth();
  if (t->isFloatingPointTy()) return "fp";
  if (t->isSized()) return "agg:" + std::to_string(DL->getTypeAllocSize(t).getFixedValue());
  return "other";
}
static J val(const Value *v);

static J gepJ(const GEPOperator *g) {
  // ["gep", base, constoff, [[val,scale],...], inbounds, [ [structname, fieldidx] ... ]]
  int64_t off = 0; JA vars; JA path; Type *prev = nullptr;
  for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
    const Value *op = it.getOperand();
    if (StructType *st = it.getStructTypeOrNull()) {
      unsigned idx = cast<ConstantInt>(op)->getZExtValue();
      off += DL->getStructLayout(st)->getElementOffset(idx);
      path.push_back(JA{st->hasName() ? st->getName().str() : std::string("anon"), (int64_t)idx});
    } else {
      int64_t sz = DL->getTypeAllocSize(it.getIndexedType()).getFixedValue();
      if (auto *ci = dyn_cast<ConstantInt>(op)) off += ci->getSExtValue() * sz;
      else {
        int64_t n = -1;
        if (prev) if (auto *at = dyn_cast<ArrayType>(prev)) n = at->getNumElements();
        vars.push_back(JA{val(op), sz, n});
      }
    }
    prev = it.getIndexedType();
  }
  return JA{"gep", val(g->getPointerOperand()), off, std::move(vars), g->isInBounds(), std::move(path)};
}
static J constJ(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) return JA{"i", (int64_t)ci->getBitWidth(), intJ(ci->getValue())};
  if (isa<ConstantPointerNull>(c)) return JA{"null"};
  if (isa<UndefValue>(c)) return JA{"undef"};
  if (auto *f = dyn_cast<Function>(c)) return JA{"fn", f->getName().str()};
  if (auto *g = dyn_cast<GlobalVariable>(c)) return JA{"g", g->getName().str()};
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (auto *g = dyn_cast<GEPOperator>(ce)) return gepJ(g);
    JA a; a.push_back("ce"); a.push_back(ce->getOpcodeName());
    for (auto &o : ce->operands()) a.push_back(val(o.get()));
    return a;
  }
  if (isa<ConstantAggregateZero>(c)) return JA{"zero", (int64_t)DL->getTypeAllocSize(c->getType()).getFixedValue()};
  if (auto *d = dyn_cast<ConstantDataSequential>(c)) {
    if (d->isString()) { std::string s; for (unsigned char ch : d->getAsString()) { char b[3]; snprintf(b,3,"%02x",ch); s += b; } return JA{"str", s}; }
    JA a; a.push_back("arr"); a.push_back((int64_t)d->getElementByteSize());
    JA el; for (unsigned i = 0; i < d->getNumElements(); i++) el.push_back(constJ(d->getElementAsConstant(i)));
    a.push_back(std::move(el)); return a;
  }
  if (auto *s = dyn_cast<ConstantStruct>(c)) {
    JA a; a.push_back("st"); a.push_back(s->getType()->hasName()? s->getType()->getName().str() : "anon"); JA el;
    auto *L = DL->getStructLayout(s->getType());
    for (unsigned i = 0; i < s->getNumOperands(); i++) el.push_back(JA{(int64_t)L->getElementOffset(i), constJ(s->getOperand(i))});
    a.push_back(std::move(el)); return a;
  }
  if (auto *s = dyn_cast<ConstantArray>(c)) {
    JA a; a.push_back("arr"); a.push_back((int64_t)DL->getTypeAllocSize(s->getType()->getElementType()).getFixedValue()); JA el;
    for (auto &o : s->operands()) el.push_back(constJ(cast<Constant>(o.get())));
    a.push_back(std::move(el)); return a;
  }
  if (isa<ConstantFP>(c)) return JA{"fp"};
  return JA{"const?"};
}
static J val(const Value *v) {
  auto it = ids.find(v);
  if (it != ids.end()) return JA{"v", (int64_t)it->second};
  if (auto *c = dyn_cast<Constant>(v)) return constJ(c);
  if (isa<InlineAsm>(v)) return JA{"asm"};
  if (isa<MetadataAsValue>(v)) return JA{"md"};
  return JA{"?"};
}
static std::string cname(const DICompositeType *c) { return c->getName().empty() ? "anon_" + std::to_string(c->getLine()) : c->getName().str(); }
static std::string diTy(const DIType *t, int depth = 0) {
  if (!t) return "void";
  if (depth > 6) return "...";
  if (auto *d = dyn_cast<DIDerivedType>(t)) {
    switch (d->getTag()) {
      case dwarf::DW_TAG_pointer_type: return diTy(d->getBaseType(), depth+1) + "*";
      case dwarf::DW_TAG_const_type: return "const " + diTy(d->getBaseType(), depth+1);
      case dwarf::DW_TAG_typedef: return d->getName().str();
      default: return diTy(d->getBaseType(), depth+1);
    }
  }
  if (auto *c = dyn_cast<DICompositeType>(t)) {
    if (c->getTag() == dwarf::DW_TAG_array_type) return diTy(c->getBaseType(), depth+1) + "[]";
    std::string p = c->getTag()==dwarf::DW_TAG_structure_type ? "struct " : c->getTag()==dwarf::DW_TAG_union_type ? "union " : "enum ";
    return p + cname(c);
  }
  if (isa<DISubroutineType>(t)) return "fnptr";
  return t->getName().str();
}
static int64_t diSize(const DIType *t) {
  while (t) { if (t->getSizeInBits()) return t->getSizeInBits()/8; if (auto *d = dyn_cast<DIDerivedType>(t)) t = d->getBaseType(); else break; }
  return 0;
}
static std::string fileOf(const DIFile *f) { if (!f) return ""; std::string d = f->getDirectory().str(), n = f->getFilename().str(); return (n.size() && n[0]=='/') ? n : d + "/" + n; }

int main(int argc, char **argv) {
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) { err.print("irexport", errs()); return 2; }
  DL = &M->getDataLayout();
  std::string only = argc > 2 ? argv[2] : "";
  JO root; 
  // structs from debug info
  JO structs; DebugInfoFinder dif; dif.processModule(*M);
  for (auto *t : dif.types()) if (auto *c = dyn_cast<DICompositeType>(t)) {
    if (c->getTag()!=dwarf::DW_TAG_structure_type && c->getTag()!=dwarf::DW_TAG_union_type) continue;
    if (!c->getSizeInBits()) continue;
    JA fs;
    for (auto *e : c->getElements()) if (auto *m = dyn_cast<DIDerivedType>(e)) if (m->getTag()==dwarf::DW_TAG_member)
      fs.push_back(JA{m->getName().str(), (int64_t)(m->getOffsetInBits()/8), diSize(m->getBaseType()), diTy(m->getBaseType())});
    structs[cname(c)] = JO{{"size",(int64_t)(c->getSizeInBits()/8)},{"fields",std::move(fs)}};
  }
  for (auto *t : dif.types()) if (auto *d = dyn_cast<DIDerivedType>(t)) if (d->getTag()==dwarf::DW_TAG_typedef && d->getBaseType()) if (auto *c = dyn_cast<DICompositeType>(d->getBaseType())) {
    if (c->getTag()!=dwarf::DW_TAG_structure_type || !c->getSizeInBits() || structs.get(d->getName())) continue;
    JA fs;
    for (auto *e : c->getElements()) if (auto *m = dyn_cast<DIDerivedType>(e)) if (m->getTag()==dwarf::DW_TAG_member)
      fs.push_back(JA{m->getName().str(), (int64_t)(m->getOffsetInBits()/8), diSize(m->getBaseType()), diTy(m->getBaseType())});
    structs[d->getName()] = JO{{"size",(int64_t)(c->getSizeInBits()/8)},{"fields",std::move(fs)}};
  }
  root["structs"] = std::move(structs);
  JO enums;
  for (auto *t : dif.types()) if (auto *c = dyn_cast<DICompositeType>(t)) if (c->getTag()==dwarf::DW_TAG_enumeration_type)
    for (auto *e : c->getElements()) if (auto *n = dyn_cast<DIEnumerator>(e)) enums[n->getName()] = intJ(n->getValue());
  root["enums"] = std::move(enums);
  JO globs;
  for (auto &g : M->globals()) {
    JO o; o["size"] = g.getValueType()->isSized() ? (int64_t)DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 0;
    o["const"] = g.isConstant(); o["internal"] = g.hasLocalLinkage(); o["decl"] = g.isDeclaration(); o["tls"] = g.isThreadLocal();
    if (g.hasInitializer()) o["init"] = constJ(g.getInitializer());
    SmallVector<DIGlobalVariableExpression*,1> gv; g.getDebugInfo(gv);
    if (!gv.empty()) { o["line"] = (int64_t)gv[0]->getVariable()->getLine(); o["file"] = fileOf(gv[0]->getVariable()->getFile()); o["dity"] = diTy(gv[0]->getVariable()->getType()); o["diname"] = gv[0]->getVariable()->getName().str(); }
    globs[g.getName()] = std::move(o);
  }
  root["globals"] = std::move(globs);
  JO fns; JA decls;
  for (auto &F : *M) {
    if (F.isDeclaration()) { decls.push_back(JO{{"name",F.getName().str()},{"ret",tyJ(F.getReturnType())},{"noreturn",F.doesNotReturn()},{"nargs",(int64_t)F.arg_size()},{"vararg",F.isVarArg()}}); continue; }
    auto *SP = F.getSubprogram();
    JO f; ids.clear(); int n = 0;
    f["name"] = F.getName().str(); f["internal"] = F.hasLocalLinkage(); f["noreturn"] = F.doesNotReturn();
    f["file"] = SP ? fileOf(SP->getFile()) : ""; f["line"] = SP ? (int64_t)SP->getLine() : 0;
    f["ret"] = tyJ(F.getReturnType());
    JA sig; if (SP && SP->getType()) for (auto *t : SP->getType()->getTypeArray()) sig.push_back(diTy(t));
    f["sig"] = std::move(sig);
    JA ps;
    for (auto &a : F.args()) { ids[&a] = n++; JO p; p["ty"] = tyJ(a.getType()); p["name"] = a.getName().str(); if (a.hasByValAttr()) p["byval"] = (int64_t)DL->getTypeAllocSize(a.getParamByValType()).getFixedValue(); if (a.hasStructRetAttr()) p["sret"] = (int64_t)DL->getTypeAllocSize(a.getParamStructRetType()).getFixedValue(); ps.push_back(std::move(p)); }
    f["params"] = std::move(ps);
    std::map<const BasicBlock*, int> bbs; int b = 0;
    for (auto &BB : F) bbs[&BB] = b++;
    std::map<const Value*, const DILocalVariable*> vars;
    for (auto &BB : F) for (auto &I : BB) { ids[&I] = n++; if (auto *d = dyn_cast<DbgDeclareInst>(&I)) if (d->getAddress()) vars[d->getAddress()] = d->getVariable(); }
    JA blocks;
    for (auto &BB : F) {
      JA ins;
      for (auto &I : BB) {
        if (isa<DbgInfoIntrinsic>(&I)) continue;
        if (auto *ii = dyn_cast<IntrinsicInst>(&I)) if (ii->isLifetimeStartOrEnd()) continue;
        JO o; o["id"] = (int64_t)ids[&I]; o["op"] = I.getOpcodeName(); o["ty"] = tyJ(I.getType());
        if (auto &L = I.getDebugLoc()) { o["ln"] = (int64_t)L.getLine(); o["col"] = (int64_t)L.getCol(); }
        if (auto *a = dyn_cast<AllocaInst>(&I)) {
          if (auto *ci = dyn_cast<ConstantInt>(a->getArraySize())) o["size"] = (int64_t)(DL->getTypeAllocSize(a->getAllocatedType()).getFixedValue() * ci->getZExtValue());
          else { o["size"] = (int64_t)-1; o["n"] = val(a->getArraySize()); o["esz"] = (int64_t)DL->getTypeAllocSize(a->getAllocatedType()).getFixedValue(); }
          o["aty"] = tyJ(a->getAllocatedType());
          if (vars.count(a)) { o["var"] = vars[a]->getName().str(); o["dity"] = diTy(vars[a]->getType()); if (vars[a]->getArg()) o["arg"] = (int64_t)vars[a]->getArg(); }
          else o["var"] = a->getName().str();
        } else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) { o["gep"] = gepJ(cast<GEPOperator>(g)); }
        else if (auto *c = dyn_cast<CmpInst>(&I)) { o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str(); o["a"] = JA{val(c->getOperand(0)), val(c->getOperand(1))}; o["cty"] = tyJ(c->getOperand(0)->getType()); }
        else if (auto *c = dyn_cast<CallBase>(&I)) {
          if (auto *cf = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts())) o["fn"] = cf->getName().str();
          else o["ind"] = val(c->getCalledOperand());
          JA as; JA bv; for (auto &x : c->args()) as.push_back(val(x.get())); o["a"] = std::move(as);
          for (unsigned i = 0; i < c->arg_size(); i++) if (c->isByValArgument(i)) bv.push_back((int64_t)i);
          if (!bv.empty()) o["byval"] = std::move(bv);
          JA at; for (auto &x : c->args()) at.push_back(tyJ(x->getType())); o["at"] = std::move(at);
          if (c->doesNotReturn()) o["noreturn"] = true;
        } else if (auto *p = dyn_cast<PHINode>(&I)) { JA in; for (unsigned i = 0; i < p->getNumIncomingValues(); i++) in.push_back(JA{val(p->getIncomingValue(i)), (int64_t)bbs[p->getIncomingBlock(i)]}); o["in"] = std::move(in); }
        else if (auto *br = dyn_cast<BranchInst>(&I)) { if (br->isConditional()) { o["c"] = val(br->getCondition()); o["t"] = JA{(int64_t)bbs[br->getSuccessor(0)], (int64_t)bbs[br->getSuccessor(1)]}; } else o["t"] = JA{(int64_t)bbs[br->getSuccessor(0)]}; }
        else if (auto *sw = dyn_cast<SwitchInst>(&I)) { o["c"] = val(sw->getCondition()); o["def"] = (int64_t)bbs[sw->getDefaultDest()]; JA cs; for (auto &k : sw->cases()) cs.push_back(JA{intJ(k.getCaseValue()->getValue()), (int64_t)bbs[k.getCaseSuccessor()]}); o["cases"] = std::move(cs); o["w"] = (int64_t)sw->getCondition()->getType()->getIntegerBitWidth(); }
        else if (auto *e = dyn_cast<ExtractValueInst>(&I)) { JA ix; for (auto k : e->indices()) ix.push_back((int64_t)k); o["ix"] = std::move(ix); o["a"] = JA{val(e->getAggregateOperand())}; }
        else if (auto *e = dyn_cast<InsertValueInst>(&I)) { JA ix; for (auto k : e->indices()) ix.push_back((int64_t)k); o["ix"] = std::move(ix); o["a"] = JA{val(e->getAggregateOperand()), val(e->getInsertedValueOperand())}; }
        else { JA as; for (auto &x : I.operands()) as.push_back(val(x.get())); o["a"] = std::move(as);
          if (auto *st = dyn_cast<StoreInst>(&I)) { o["sz"] = (int64_t)DL->getTypeStoreSize(st->getValueOperand()->getType()).getFixedValue(); o["sty"] = tyJ(st->getValueOperand()->getType()); }
          if (auto *ld = dyn_cast<LoadInst>(&I)) o["sz"] = (int64_t)DL->getTypeStoreSize(ld->getType()).getFixedValue();
          if (isa<CastInst>(&I)) o["from"] = tyJ(I.getOperand(0)->getType());
          if (auto *ob = dyn_cast<OverflowingBinaryOperator>(&I)) { if (ob->hasNoSignedWrap()) o["nsw"] = true; if (ob->hasNoUnsignedWrap()) o["nuw"] = true; }
        }
        ins.push_back(std::move(o));
      }
      blocks.push_back(std::move(ins));
    }
    f["blocks"] = std::move(blocks); f["nv"] = n;
    fns[F.getName()] = std::move(f);
  }
  root["functions"] = std::move(fns); root["decls"] = std::move(decls);
  outs() << J(std::move(root)) << "\n";
  return 0;
}
