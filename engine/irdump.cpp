// irdump: links LLVM bitcode files, normalises the module (selective inlining of
// helpers, promotion of locals to SSA) and writes it as JSON for the Python analyses.
//
//   irdump --out OUT.json [--noinline NAMES.txt] [--max-inline N] FILE.bc...
#include "llvm/Analysis/CallGraph.h"
#include "llvm/ADT/SCCIterator.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static std::string esc(StringRef s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    switch (c) {
    case '"': o += "\\\""; break;
    case '\\': o += "\\\\"; break;
    case '\n': o += "\\n"; break;
    case '\t': o += "\\t"; break;
    case '\r': o += "\\r"; break;
    default:
      if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
      else o += (char)c;
    }
  }
  return o + "\"";
}

static std::string tyStr(Type *t) {
  if (auto *st = dyn_cast<StructType>(t)) {
    if (st->hasName()) return st->getName().str();
  }
  std::string s; raw_string_ostream os(s); t->print(os, false, true); return os.str();
}

struct Dumper {
  Module &M; const DataLayout &DL; raw_ostream &O;
  std::map<const Value *, int> ids; std::map<const BasicBlock *, int> bbs;
  Dumper(Module &m, raw_ostream &o) : M(m), DL(m.getDataLayout()), O(o) {}

  std::string cst(const Constant *c) {
    if (auto *ci = dyn_cast<ConstantInt>(c)) {
      if (ci->getBitWidth() <= 64)
        return "[\"c\"," + std::to_string(ci->getZExtValue()) + "," + std::to_string(ci->getBitWidth()) + "]";
      return "[\"u\"]";
    }
    if (isa<ConstantPointerNull>(c)) return "[\"n\"]";
    if (auto *cf = dyn_cast<ConstantFP>(c)) {
      std::string s; raw_string_ostream os(s);
      APFloat f = cf->getValueAPF(); bool li;
      f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
      return "[\"f\"," + esc(std::to_string(f.convertToDouble())) + "," + std::to_string((long long)f.bitcastToAPInt().getZExtValue()) + "]";
    }
    if (auto *fn = dyn_cast<Function>(c)) return "[\"fn\"," + esc(fn->getName()) + "]";
    if (auto *g = dyn_cast<GlobalVariable>(c)) return "[\"g\"," + esc(g->getName()) + ",0]";
    if (auto *ba = dyn_cast<BlockAddress>(c)) {
      int n = 0; for (auto &b : *ba->getFunction()) { if (&b == ba->getBasicBlock()) break; n++; }
      return "[\"ba\"," + esc(ba->getFunction()->getName()) + "," + std::to_string(n) + "]";
    }
    if (isa<UndefValue>(c)) return "[\"u\"]";
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
      if (ce->isCast()) return cst(ce->getOperand(0));
      if (auto *ge = dyn_cast<GEPOperator>(ce)) {
        APInt off(64, 0);
        if (ge->accumulateConstantOffset(DL, off))
          if (auto *g = dyn_cast<GlobalVariable>(ge->getPointerOperand()))
            return "[\"g\"," + esc(g->getName()) + "," + std::to_string(off.getSExtValue()) + "]";
      }
      return "[\"u\"]";
    }
    if (isa<ConstantAggregateZero>(c)) return "[\"z\"]";
    if (auto *ds = dyn_cast<ConstantDataSequential>(c)) {
      if (ds->isString()) {
        return "[\"s\"," + esc(ds->getAsString()) + "]";
      }
      std::string s = "[\"a\"";
      for (unsigned i = 0; i < ds->getNumElements(); i++) s += "," + cst(ds->getElementAsConstant(i));
      return s + "]";
    }
    if (isa<ConstantArray>(c) || isa<ConstantStruct>(c)) {
      std::string s = "[\"a\"";
      for (unsigned i = 0; i < c->getNumOperands(); i++) s += "," + cst(cast<Constant>(c->getOperand(i)));
      return s + "]";
    }
    return "[\"u\"]";
  }
  std::string op(const Value *v) {
    auto it = ids.find(v);
    if (it != ids.end()) return std::to_string(it->second);
    if (auto *c = dyn_cast<Constant>(v)) return cst(c);
    return "[\"u\"]";
  }
  std::string locChain(const DILocation *l) {
    // innermost first: [[file,line,fn],...]
    std::string s = "[";
    bool first = true; int n = 0;
    while (l && n < 6) {
      if (!first) s += ",";
      first = false; n++;
      auto *sp = l->getScope()->getSubprogram();
      s += "[" + esc(l->getFilename()) + "," + std::to_string(l->getLine()) + "," + esc(sp ? sp->getName() : "") + "]";
      l = l->getInlinedAt();
    }
    return s + "]";
  }
  std::map<const Metadata *, std::string> tdname;
  std::string diTy(const DIType *t, int depth = 0) {
    if (!t) return "void";
    if (depth > 12) return "...";
    if (auto *b = dyn_cast<DIBasicType>(t)) return b->getName().str();
    if (auto *d = dyn_cast<DIDerivedType>(t)) {
      switch (d->getTag()) {
      case dwarf::DW_TAG_pointer_type: return diTy(d->getBaseType(), depth + 1) + "*";
      case dwarf::DW_TAG_typedef: {
        auto *b = d->getBaseType();
        if (b && isa<DICompositeType>(b) && b->getName().empty()) return d->getName().str();
        if (d->getName() == "Value" || d->getName() == "NativeFn") return d->getName().str();
        return diTy(b, depth + 1);
      }
      case dwarf::DW_TAG_const_type: case dwarf::DW_TAG_volatile_type: case dwarf::DW_TAG_restrict_type:
        return diTy(d->getBaseType(), depth + 1);
      default: return d->getName().str();
      }
    }
    if (auto *c = dyn_cast<DICompositeType>(t)) {
      if (c->getTag() == dwarf::DW_TAG_array_type) {
        std::string n;
        for (auto *e : c->getElements())
          if (auto *sr = dyn_cast<DISubrange>(e))
            if (auto *ci = dyn_cast_if_present<ConstantInt *>(sr->getCount())) n += "[" + std::to_string(ci->getSExtValue()) + "]";
        return diTy(c->getBaseType(), depth + 1) + (n.empty() ? "[]" : n);
      }
      if (!c->getName().empty()) return c->getName().str();
      auto it = tdname.find(c);
      return it == tdname.end() ? std::string("anon") : it->second;
    }
    if (isa<DISubroutineType>(t)) return "fn";
    return "?";
  }
  void run() {
    DebugInfoFinder F; F.processModule(M);
    for (auto *t : F.types())
      if (auto *d = dyn_cast<DIDerivedType>(t))
        if (d->getTag() == dwarf::DW_TAG_typedef && d->getBaseType() && isa<DICompositeType>(d->getBaseType()) && d->getBaseType()->getName().empty())
          tdname[d->getBaseType()] = d->getName().str();
    O << "{\"ditypes\":{";
    std::set<std::string> seen; bool first = true;
    for (auto *t : F.types())
      if (auto *c = dyn_cast<DICompositeType>(t)) {
        if (c->getTag() != dwarf::DW_TAG_structure_type && c->getTag() != dwarf::DW_TAG_union_type) continue;
        if (c->getElements().empty()) continue;
        std::string n = c->getName().empty() ? (tdname.count(c) ? tdname[c] : "") : c->getName().str();
        if (n.empty() || !seen.insert(n).second) continue;
        O << (first ? "" : ",") << "\n" << esc(n) << ":{\"size\":" << c->getSizeInBits() / 8 << ",\"file\":" << esc(c->getFilename()) << ",\"line\":" << c->getLine() << ",\"m\":[";
        first = false; bool f2 = true;
        for (auto *e : c->getElements())
          if (auto *d = dyn_cast<DIDerivedType>(e)) {
            if (d->getTag() != dwarf::DW_TAG_member) continue;
            O << (f2 ? "" : ",") << "[" << esc(d->getName()) << "," << d->getOffsetInBits() / 8 << "," << d->getSizeInBits() / 8 << "," << esc(diTy(d->getBaseType())) << "]";
            f2 = false;
          }
        O << "]}";
      }
    O << "},\n\"enums\":{"; first = true; seen.clear();
    for (auto *t : F.types())
      if (auto *c = dyn_cast<DICompositeType>(t)) {
        if (c->getTag() != dwarf::DW_TAG_enumeration_type) continue;
        std::string n = c->getName().empty() ? (tdname.count(c) ? tdname[c] : "anon:" + c->getFilename().str() + ":" + std::to_string(c->getLine())) : c->getName().str();
        if (!seen.insert(n).second) continue;
        O << (first ? "" : ",") << "\n" << esc(n) << ":{"; first = false; bool f2 = true;
        for (auto *e : c->getElements())
          if (auto *en = dyn_cast<DIEnumerator>(e)) { O << (f2 ? "" : ",") << esc(en->getName()) << ":" << en->getValue().getSExtValue(); f2 = false; }
        O << "}";
      }
    O << "},\n\"structs\":{"; first = true;
    for (auto *st : M.getIdentifiedStructTypes()) {
      if (st->isOpaque()) continue;
      auto *sl = DL.getStructLayout(st);
      O << (first ? "" : ",") << "\n" << esc(st->getName()) << ":{\"size\":" << sl->getSizeInBytes() << ",\"f\":[";
      first = false;
      for (unsigned i = 0; i < st->getNumElements(); i++)
        O << (i ? "," : "") << "[" << sl->getElementOffset(i) << "," << esc(tyStr(st->getElementType(i))) << "," << DL.getTypeAllocSize(st->getElementType(i)) << "]";
      O << "]}";
    }
    O << "},\n\"globals\":{"; first = true;
    for (auto &g : M.globals()) {
      O << (first ? "" : ",") << "\n" << esc(g.getName()) << ":{\"const\":" << (g.isConstant() ? 1 : 0) << ",\"ty\":" << esc(tyStr(g.getValueType())) << ",\"size\":" << (g.getValueType()->isSized() ? (uint64_t)DL.getTypeAllocSize(g.getValueType()) : 0)
        << ",\"elem\":" << (isa<ArrayType>(g.getValueType()) ? (uint64_t)DL.getTypeAllocSize(cast<ArrayType>(g.getValueType())->getElementType()) : 0)
        << ",\"local\":" << (g.hasLocalLinkage() ? 1 : 0) << ",\"init\":" << (g.hasInitializer() ? cst(g.getInitializer()) : std::string("null")) << "}";
      first = false;
    }
    O << "},\n\"functions\":{"; first = true;
    for (auto &f : M) {
      if (f.isIntrinsic()) continue;
      O << (first ? "" : ",") << "\n" << esc(f.getName()) << ":"; first = false;
      dumpFn(f);
    }
    O << "}}\n";
  }
  void dumpFn(Function &f) {
    ids.clear(); bbs.clear();
    int n = 0;
    for (auto &a : f.args()) ids[&a] = n++;
    for (auto &b : f) for (auto &i : b) if (!i.getType()->isVoidTy()) ids[&i] = n++;
    int nb = 0; for (auto &b : f) bbs[&b] = nb++;
    auto *sp = f.getSubprogram();
    O << "{\"decl\":" << (f.isDeclaration() ? 1 : 0) << ",\"static\":" << (f.hasLocalLinkage() ? 1 : 0) << ",\"va\":" << (f.isVarArg() ? 1 : 0) << ",\"taken\":" << (f.hasAddressTaken() ? 1 : 0)
      << ",\"file\":" << esc(sp ? sp->getFilename() : "") << ",\"line\":" << (sp ? sp->getLine() : 0) << ",\"nargs\":" << f.arg_size() << ",\"ret\":" << esc(tyStr(f.getReturnType())) << ",\"args\":[";
    bool fa = true; for (auto &a : f.args()) { O << (fa ? "" : ",") << esc(tyStr(a.getType())); fa = false; }
    O << "],\"ditys\":[";
    if (sp && sp->getType()) { bool f1 = true; for (auto *t : sp->getType()->getTypeArray()) { O << (f1 ? "" : ",") << esc(t ? diTy(t) : std::string("void")); f1 = false; } }
    O << "],\"names\":[";
    // argument / local names from debug info
    { bool f1 = true; if (sp) for (auto *rn : sp->getRetainedNodes()) if (auto *lv = dyn_cast<DILocalVariable>(rn)) { if (lv->getArg()) { O << (f1 ? "" : ",") << esc(lv->getName()); f1 = false; } } }
    O << "],\"dv\":["; // source types of pointer values bound to local variables
    { bool f1 = true; std::set<std::pair<int, std::string>> seen;
      for (auto &b : f) for (auto &i : b) if (auto *dv = dyn_cast<DbgValueInst>(&i)) {
        if (dv->hasArgList() || !dv->getVariable()) continue;
        auto *v = dv->getVariableLocationOp(0);
        if (!v || !v->getType()->isPointerTy() || !ids.count(v) || dv->getExpression()->getNumElements()) continue;
        std::string t = diTy(dv->getVariable()->getType());
        if (t.empty() || t.back() != '*') continue;
        if (seen.insert({ids[v], t}).second) { O << (f1 ? "" : ",") << "[" << ids[v] << "," << esc(t) << "]"; f1 = false; }
      } }
    O << "],\"blocks\":[";
    bool fb = true;
    for (auto &b : f) {
      O << (fb ? "" : ",") << "\n ["; fb = false;
      bool fi = true;
      for (auto &i : b) {
        if (isa<DbgInfoIntrinsic>(i)) continue;
        if (auto *ii = dyn_cast<IntrinsicInst>(&i)) {
          auto id = ii->getIntrinsicID();
          if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end) continue;
        }
        O << (fi ? "" : ",") << "\n  "; fi = false;
        dumpInst(i);
      }
      O << "]";
    }
    O << "]}";
  }
  void dumpInst(Instruction &i) {
    // [op, id, type, [operands], loc, extra]
    O << "[" << esc(i.getOpcodeName()) << "," << (i.getType()->isVoidTy() ? -1 : ids[&i]) << "," << esc(tyStr(i.getType())) << ",[";
    if (auto *cb = dyn_cast<CallBase>(&i)) {
      for (unsigned k = 0; k < cb->arg_size(); k++) O << (k ? "," : "") << op(cb->getArgOperand(k));
    } else if (auto *ph = dyn_cast<PHINode>(&i)) {
      for (unsigned k = 0; k < ph->getNumIncomingValues(); k++) O << (k ? "," : "") << op(ph->getIncomingValue(k));
    } else if (auto *br = dyn_cast<BranchInst>(&i)) {
      if (br->isConditional()) O << op(br->getCondition());
    } else if (auto *sw = dyn_cast<SwitchInst>(&i)) {
      O << op(sw->getCondition());
    } else if (auto *ge = dyn_cast<GetElementPtrInst>(&i)) {
      O << op(ge->getPointerOperand());
    } else {
      for (unsigned k = 0; k < i.getNumOperands(); k++) O << (k ? "," : "") << op(i.getOperand(k));
    }
    O << "],";
    if (i.getDebugLoc()) O << locChain(i.getDebugLoc().get()); else O << "[]";
    O << ",";
    if (auto *cb = dyn_cast<CallBase>(&i)) {
      auto *c = cb->getCalledOperand()->stripPointerCasts();
      if (auto *fn = dyn_cast<Function>(c)) O << "[\"fn\"," << esc(fn->getName()) << "]"; else O << "[\"ind\"," << op(c) << "]";
    } else if (auto *ph = dyn_cast<PHINode>(&i)) {
      O << "["; for (unsigned k = 0; k < ph->getNumIncomingValues(); k++) O << (k ? "," : "") << bbs[ph->getIncomingBlock(k)]; O << "]";
    } else if (auto *sw = dyn_cast<SwitchInst>(&i)) {
      O << "[" << bbs[sw->getDefaultDest()];
      for (auto &c : sw->cases()) O << ",[" << c.getCaseValue()->getZExtValue() << "," << bbs[c.getCaseSuccessor()] << "]";
      O << "]";
    } else if (i.isTerminator()) {
      O << "["; for (unsigned k = 0; k < i.getNumSuccessors(); k++) O << (k ? "," : "") << bbs[i.getSuccessor(k)]; O << "]";
    } else if (auto *cm = dyn_cast<CmpInst>(&i)) {
      O << esc(CmpInst::getPredicateName(cm->getPredicate()));
    } else if (auto *ge = dyn_cast<GetElementPtrInst>(&i)) {
      MapVector<Value *, APInt> vo; APInt off(64, 0);
      std::string path;
      if (cast<GEPOperator>(ge)->collectOffset(DL, 64, vo, off)) {
        O << "{\"off\":" << off.getSExtValue() << ",\"v\":[";
        bool f1 = true; for (auto &p : vo) { O << (f1 ? "" : ",") << "[" << op(p.first) << "," << p.second.getSExtValue() << "]"; f1 = false; }
        O << "]";
      } else O << "{\"off\":0,\"v\":[[[\"u\"],1]]";
      O << ",\"src\":" << esc(tyStr(ge->getSourceElementType())) << ",\"res\":" << esc(tyStr(ge->getResultElementType()));
      // array bound info: for every array-typed step with variable/const index
      O << ",\"arr\":["; bool f1 = true;
      Type *cur = ge->getSourceElementType(); unsigned k = 0;
      for (auto it = ge->idx_begin(); it != ge->idx_end(); ++it, ++k) {
        if (k == 0) continue;
        if (auto *at = dyn_cast<ArrayType>(cur)) {
          O << (f1 ? "" : ",") << "[" << at->getNumElements() << "," << op(*it) << "]"; f1 = false;
          cur = at->getElementType();
        } else if (auto *st = dyn_cast<StructType>(cur)) {
          cur = st->getElementType(cast<ConstantInt>(*it)->getZExtValue());
        }
      }
      O << "],\"path\":["; f1 = true; cur = ge->getSourceElementType(); k = 0;
      for (auto it = ge->idx_begin(); it != ge->idx_end(); ++it, ++k) {
        if (k == 0) continue;
        if (auto *st = dyn_cast<StructType>(cur)) {
          unsigned fi = cast<ConstantInt>(*it)->getZExtValue();
          O << (f1 ? "" : ",") << "[" << esc(tyStr(st)) << "," << fi << "," << DL.getStructLayout(st)->getElementOffset(fi).getFixedValue() << "]"; f1 = false;
          cur = st->getElementType(fi);
        } else if (auto *at = dyn_cast<ArrayType>(cur)) cur = at->getElementType();
      }
      O << "]}";
    } else if (auto *al = dyn_cast<AllocaInst>(&i)) {
      O << "{\"ty\":" << esc(tyStr(al->getAllocatedType())) << ",\"size\":" << DL.getTypeAllocSize(al->getAllocatedType()).getFixedValue() << ",\"arr\":" << (al->isArrayAllocation() ? 1 : 0) << "}";
    } else if (auto *li = dyn_cast<LoadInst>(&i)) {
      O << DL.getTypeStoreSize(li->getType()).getFixedValue();
    } else if (auto *si = dyn_cast<StoreInst>(&i)) {
      O << DL.getTypeStoreSize(si->getValueOperand()->getType()).getFixedValue();
    } else if (auto *ca = dyn_cast<CastInst>(&i)) {
      O << esc(tyStr(ca->getSrcTy()));
    } else if (auto *ob = dyn_cast<OverflowingBinaryOperator>(&i)) {
      O << (ob->hasNoSignedWrap() ? "\"nsw\"" : "null");
    } else O << "null";
    if (auto *md = i.getMetadata("dictu.fld"))
      O << ",[" << esc(cast<MDString>(md->getOperand(0))->getString()) << "," << cast<MDString>(md->getOperand(1))->getString().str() << "]";
    O << "]";
  }
};

int main(int argc, char **argv) {
  std::string out, noinl; unsigned maxInl = 800; bool sroa = true; std::vector<std::string> files; bool lower = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--out") out = argv[++i];
    else if (a == "--noinline") noinl = argv[++i];
    else if (a == "--max-inline") maxInl = atoi(argv[++i]);
    else if (a == "--nosroa") sroa = false;
    else files.push_back(a);
  }
  (void)lower;
  LLVMContext C; SMDiagnostic D;
  std::unique_ptr<Module> M = std::make_unique<Module>("linked", C);
  Linker L(*M);
  for (auto &f : files) {
    auto m = parseIRFile(f, D, C);
    if (!m) { D.print("irdump", errs()); return 3; }
    if (L.linkInModule(std::move(m))) return 3;
  }
  std::set<std::string> no; bool inlineAll = true;
  if (!noinl.empty()) {
    std::ifstream in(noinl); std::string s;
    while (std::getline(in, s)) if (!s.empty()) { if (s == "*") inlineAll = false; no.insert(s); }
  }
  // functions in call-graph cycles are never inlined
  std::set<Function *> rec;
  { CallGraph CG(*M);
    for (auto it = scc_begin(&CG); !it.isAtEnd(); ++it) {
      if (it.hasCycle()) for (auto *n : *it) if (n->getFunction()) rec.insert(n->getFunction());
    } }
  auto strip = [](StringRef n) { size_t k = n.rfind('.'); if (k != StringRef::npos && k + 1 < n.size() && n.substr(k + 1).find_first_not_of("0123456789") == StringRef::npos) n = n.substr(0, k); return n.str(); };
  for (auto &f : *M) {
    if (f.isDeclaration()) continue;
    f.removeFnAttr(Attribute::OptimizeNone); f.removeFnAttr(Attribute::NoInline); f.removeFnAttr(Attribute::AlwaysInline);
    bool want = inlineAll && !no.count(strip(f.getName())) && !f.isVarArg() && !rec.count(&f) && f.getName() != "main";
    if (f.hasAddressTaken()) want = false;
    for (auto &b : f) { if (b.hasAddressTaken()) want = false; if (isa<IndirectBrInst>(b.getTerminator())) want = false; }
    if (f.getInstructionCount() > maxInl) want = false;
    if (want) { f.addFnAttr(Attribute::AlwaysInline); }
    else f.addFnAttr(Attribute::NoInline);
  }
  // the structure member a load or store goes to: the address may lose it when functions are put into one another
  if (!sroa) for (auto &f : *M) for (auto &b : f) for (auto &i : b) {
    Value *p = nullptr;
    if (auto *l = dyn_cast<LoadInst>(&i)) p = l->getPointerOperand();
    else if (auto *s = dyn_cast<StoreInst>(&i)) p = s->getPointerOperand();
    auto *ge = p ? dyn_cast<GEPOperator>(p) : nullptr;
    if (!ge) continue;
    Type *cur = ge->getSourceElementType(); unsigned k = 0; StructType *last = nullptr; uint64_t fi = 0;
    for (auto it = ge->idx_begin(); it != ge->idx_end(); ++it, ++k) {
      if (k == 0) continue;
      if (auto *st = dyn_cast<StructType>(cur)) { last = st; fi = cast<ConstantInt>(*it)->getZExtValue(); cur = st->getElementType(fi); }
      else if (auto *at = dyn_cast<ArrayType>(cur)) { last = nullptr; cur = at->getElementType(); }
    }
    if (last && last->hasName())
      i.setMetadata("dictu.fld", MDNode::get(C, {MDString::get(C, last->getName()), MDString::get(C, std::to_string(fi))}));
  }
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM;
  { FunctionPassManager FPM; if (sroa) FPM.addPass(SROAPass(SROAOptions::PreserveCFG)); FPM.addPass(PromotePass()); MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM))); }
  MPM.addPass(AlwaysInlinerPass(false));
  { FunctionPassManager FPM; if (sroa) FPM.addPass(SROAPass(SROAOptions::PreserveCFG)); FPM.addPass(PromotePass()); MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM))); }
  MPM.run(*M, MAM);
  std::error_code EC; raw_fd_ostream O(out, EC);
  if (EC) { errs() << EC.message() << "\n"; return 3; }
  Dumper(*M, O).run();
  return 0;
}
