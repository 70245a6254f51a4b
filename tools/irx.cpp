#include <functional>
// irx: turns the bitcode of a driver TU into a small, canonical JSON control-flow graph.
//  * every std container / adaptor operation is an "anchor": its call is kept, with by-reference
//    scalar arguments replaced by their loaded values, so that wrapper allocas can be promoted
//  * everything else is inlined into the driver's entry functions, promoted to SSA and cleaned up
#include "llvm/ADT/StringExtras.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Bitcode/BitcodeReader.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/IPO/GlobalDCE.h"
#include "llvm/Transforms/IPO/StripDeadPrototypes.h"
#include "llvm/Transforms/InstCombine/InstCombine.h"
#include "llvm/Transforms/Scalar/ADCE.h"
#include "llvm/Transforms/Scalar/DCE.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/InstSimplifyPass.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include <cstdio>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static bool startsWith(const std::string& s, const char* p) { return s.rfind(p, 0) == 0; }

// Qualified name of a demangled function, without return type and without parameter list.
static std::string qualName(const std::string& dem) {
  // strip the parameter list: find the '(' that matches the last ')'
  int depth = 0, ang = 0;
  std::string s = dem;
  // cut " const", " &" suffixes after last ')'
  size_t last = s.rfind(')');
  if (last == std::string::npos) return s;
  size_t i = last;
  for (;; --i) {
    if (s[i] == ')') ++depth;
    else if (s[i] == '(') {
      if (--depth == 0) break;
    }
    if (i == 0) break;
  }
  s = s.substr(0, i);
  // strip return type: last space at angle depth 0 (but keep "operator xx")
  ang          = 0;
  depth        = 0;
  size_t start = 0;
  for (size_t k = 0; k < s.size(); ++k) {
    if (s.compare(k, 8, "operator") == 0 && ang == 0 && depth == 0) break;
    char c = s[k];
    if (c == '<') ++ang;
    else if (c == '>' && !(k && s[k - 1] == '-')) --ang;
    else if (c == '(' || c == '{' || c=='[') ++depth;
    else if (c == ')' || c == '}' || c==']') --depth;
    else if (c == ' ' && ang == 0 && depth == 0) start = k + 1;
  }
  return s.substr(start);
}
// Name with all template argument lists removed.
static std::string stripTmpl(const std::string& q) {
  std::string r;
  int         ang = 0;
  for (size_t k = 0; k < q.size(); ++k) {
    if (q.compare(k, 8, "operator") == 0 && ang == 0) {
      size_t e = k + 8;
      r += "operator";
      while (e < q.size() && std::string("<>=!-+*/&|^%~[]()").find(q[e]) != std::string::npos) {
        // stop when '<' starts a template list after an operator symbol such as "operator[]<"
        if (q[e] == '<' && e > k + 8 && q[e - 1] != '<') break;
        r += q[e++];
      }
      k = e - 1;
      continue;
    }
    char c = q[k];
    if (c == '<') { ++ang; continue; }
    if (c == '>' && !(k && q[k - 1] == '-')) { --ang; continue; }
    if (!ang) r += c;
  }
  return r;
}

static const std::set<std::string> AnchorClasses = {
      "std::vector", "std::deque", "std::queue", "std::stack", "std::priority_queue", "std::list", "std::forward_list",
      "std::__cxx11::list", "std::__cxx11::forward_list",
      "std::set", "std::multiset", "std::map", "std::multimap", "std::unordered_set", "std::unordered_multiset",
      "std::unordered_map", "std::unordered_multimap", "std::basic_string", "std::__cxx11::basic_string", "std::function",
      "std::mersenne_twister_engine", "std::random_device", "std::uniform_int_distribution",
      "std::uniform_real_distribution", "std::_Bit_reference", "std::_Bit_iterator", "std::_Bit_const_iterator",
      "std::_Bit_iterator_base", "std::_Bvector_base", "std::_Vector_base", "std::_Deque_base", "std::_Function_base", "std::__shared_weak_count", "std::__cxx11::basic_ostringstream", "std::basic_ostringstream",
      "std::out_of_range", "std::runtime_error", "std::logic_error", "std::invalid_argument", "std::domain_error",
      "std::_Sp_counted_base", "std::__shared_count", "std::basic_ostream", "std::initializer_list_"};
static const std::set<std::string> AnchorFuncs = {
      "std::sort", "std::stable_sort", "std::fill", "std::fill_n", "std::iota", "std::copy", "std::reverse",
      "std::shuffle", "std::make_heap", "std::push_heap",
      "std::pop_heap", "std::unique", "std::lower_bound", "std::upper_bound", "std::set_intersection", 
      "std::to_string", "std::format", "std::vformat", "std::max_element",
      "std::min_element", "std::nth_element", "std::partial_sort", "std::remove_if", "std::remove", 
      "std::is_sorted", "std::binary_search", "std::copy_n", "std::operator+", "std::operator<<"};
// range algorithms that are plain loops over their arguments: inlined, so that a loop and its algorithm form look alike
static const std::set<std::string> InlineRanges = {"for_each", "any_of", "all_of", "none_of", "find_if", "find_if_not", "find",
      "count", "count_if", "contains", "copy", "copy_if", "next", "prev", "advance", "distance", "transform", "for_each_n", "min", "max"};

struct FInfo {
  std::string dem, qual, base; // base = without template args
  bool        anchor = false;
};
static std::map<const Function*, FInfo> FI;

static bool isStdScoped(const std::string& base) { return startsWith(base, "std::") || startsWith(base, "__gnu_cxx::"); }

static FInfo classify(const Function& F) {
  FInfo r;
  r.dem  = llvm::demangle(F.getName().str());
  r.qual = qualName(r.dem);
  r.base = stripTmpl(r.qual);
  // class part
  auto p = r.base.rfind("::");
  if (p != std::string::npos) {
    std::string cls = r.base.substr(0, p);
    std::string meth = r.base.substr(p + 2);
    // reverse iteration is inlined down to begin() / end()
    bool rev = meth == "rbegin" || meth == "rend" || meth == "crbegin" || meth == "crend";
    // make_shared / allocate_shared: the constructor of the shared object is analysed
    bool shared = meth == "__shared_count" && r.dem.find("_Sp_alloc_shared_tag") != std::string::npos;
    if (AnchorClasses.count(cls) && !rev && !shared) r.anchor = true;
  }
  if (AnchorFuncs.count(r.base)) r.anchor = true;
  if (startsWith(r.base, "std::ranges::__") && r.base.find("_fn::operator()") != std::string::npos &&
      r.base.find("__cust") == std::string::npos && r.base.find("__access") == std::string::npos) {
    std::string nm = r.base.substr(15, r.base.find("_fn::operator()") - 15);
    r.anchor       = !InlineRanges.count(nm);
  }
  // plain rvalue/observer helpers of vector iterators are inlined
  return r;
}

// ---- flattening of by-reference arguments -------------------------------------------------
struct Leaf {
  uint64_t off;
  Type*    ty;
};
static const DIType* stripTypedef(const DIType* t) {
  while (auto* d = dyn_cast_or_null<DIDerivedType>(t)) {
    auto tag = d->getTag();
    if (tag == dwarf::DW_TAG_typedef || tag == dwarf::DW_TAG_const_type || tag == dwarf::DW_TAG_volatile_type ||
        tag == dwarf::DW_TAG_template_alias)
      t = d->getBaseType();
    else
      break;
  }
  return t;
}
static bool isClosure(const DIType* t) {
  t = stripTypedef(t);
  auto* c = dyn_cast_or_null<DICompositeType>(t);
  return c && (c->getName().empty() || c->getName().starts_with("(lambda"));
}
static bool flatten(const DIType* t, uint64_t base, LLVMContext& C, std::vector<Leaf>& out, int depth = 0) {
  t = stripTypedef(t);
  if (!t || depth > 8) return false;
  if (auto* b = dyn_cast<DIBasicType>(t)) {
    uint64_t bits = b->getSizeInBits();
    Type*    ty;
    if (b->getEncoding() == dwarf::DW_ATE_float) {
      if (bits == 32) ty = Type::getFloatTy(C);
      else if (bits == 64) ty = Type::getDoubleTy(C);
      else return false;
    } else {
      if (bits == 0 || bits > 64) return bits == 0;
      ty = Type::getIntNTy(C, bits);
    }
    out.push_back({base, ty});
    return true;
  }
  if (auto* d = dyn_cast<DIDerivedType>(t)) {
    auto tag = d->getTag();
    if (tag == dwarf::DW_TAG_pointer_type || tag == dwarf::DW_TAG_reference_type ||
        tag == dwarf::DW_TAG_rvalue_reference_type) {
      out.push_back({base, PointerType::getUnqual(C)});
      return true;
    }
    return false;
  }
  if (auto* c = dyn_cast<DICompositeType>(t)) {
    if (c->getTag() == dwarf::DW_TAG_enumeration_type) {
      out.push_back({base, Type::getIntNTy(C, c->getSizeInBits())});
      return true;
    }
    if (c->getTag() != dwarf::DW_TAG_structure_type && c->getTag() != dwarf::DW_TAG_class_type) return false;
    if (c->isForwardDecl()) return false;
    if (c->getName().starts_with("(lambda")) return false;
    StringRef n = c->getName();
    // never look inside containers / resource owners
    for (const char* k : {"vector", "deque", "queue", "stack", "priority_queue", "list", "forward_list", "set", "map",
                          "unordered_", "basic_string", "function", "shared_ptr", "unique_ptr", "multiset", "multimap",
                          "mersenne", "optional", "variant", "dynamic_", "compressed_", "undirected_", "allocator", "new_allocator"})
      if (n == k || n.starts_with(std::string(k) + "<") || (StringRef(k).ends_with("_") && n.starts_with(k)) || (StringRef(k) == "mersenne" && n.starts_with(k)))
        return StringRef(k) == "allocator"; // the empty allocator: nothing to pass
    for (auto* e : c->getElements()) {
      auto* m = dyn_cast_or_null<DIDerivedType>(e);
      if (!m) continue;
      if (m->isStaticMember()) continue;
      if (m->getTag() == dwarf::DW_TAG_member || m->getTag() == dwarf::DW_TAG_inheritance) {
        if (m->isBitField()) return false;
        if (!flatten(m->getBaseType(), base + m->getOffsetInBits() / 8, C, out, depth + 1)) return false;
      }
    }
    return true;
  }
  return false;
}

struct AnchorUse {
  std::string           mangled;
  std::set<std::string> reaches;
};
static std::map<std::string, AnchorUse> Anchors;     // synthetic name -> info
static std::map<std::string, std::vector<std::pair<int, long>>> LeafOf; // synthetic name -> (param, offset) per IR argument
static std::map<std::string, std::string> SynthOf;   // synthetic function name -> mangled callee
static unsigned SynthN = 0;

static void rewriteAnchorCall(CallInst* CI, Function* F) {
  LLVMContext& C  = CI->getContext();
  Module*      M  = CI->getModule();
  IRBuilder<>  B(CI);
  std::vector<Value*> args;
  std::vector<std::pair<int, long>> leaf;
  DISubprogram* SP = F->getSubprogram();
  std::vector<const DIType*> ptys;
  if (SP && SP->getType()) {
    auto arr = SP->getType()->getTypeArray();
    for (unsigned i = 1; i < arr.size(); ++i) ptys.push_back(arr[i]);
  }
  bool     variadicOK = true;
  unsigned k          = 0; // index into ptys
  // Clang may split small aggregates over several IR args; then positions no longer agree.  Only use the DI types when the
  // IR params and the DI params agree in number (not counting sret).
  unsigned irN = 0, sretN = 0;
  for (unsigned i = 0; i < CI->arg_size(); ++i) {
    if (CI->paramHasAttr(i, Attribute::StructRet)) ++sretN;
    else ++irN;
  }
  // empty class params are not passed at all: drop them from ptys
  if (ptys.size() != irN) {
    std::vector<const DIType*> q;
    for (auto* t : ptys) {
      auto* s = stripTypedef(t);
      if (auto* c = dyn_cast_or_null<DICompositeType>(s)) {
        std::vector<Leaf> lv;
        if (flatten(c, 0, C, lv) && lv.empty()) continue;
        // aggregate by value passed in 2 regs
        uint64_t sz = c->getSizeInBits();
        q.push_back(t);
        if (sz > 64 && sz <= 128 && q.size() <= irN) q.push_back(nullptr);
        continue;
      }
      q.push_back(t);
    }
    ptys = q;
  }
  variadicOK = ptys.size() == irN;
  for (unsigned i = 0; i < CI->arg_size(); ++i) {
    Value* A = CI->getArgOperand(i);
    if (CI->paramHasAttr(i, Attribute::StructRet)) {
      args.push_back(A);
      leaf.push_back({(int)i, -1});
      continue;
    }
    const DIType* t = (variadicOK && k < ptys.size()) ? ptys[k] : nullptr;
    ++k;
    if (A->getType()->isPointerTy() && t) {
      const DIType* s  = stripTypedef(t);
      auto*         d  = dyn_cast_or_null<DIDerivedType>(s);
      bool isThis      = t->isArtificial();
      bool isRef       = d && (d->getTag() == dwarf::DW_TAG_reference_type || d->getTag() == dwarf::DW_TAG_rvalue_reference_type);
      const DIType* target = nullptr;
      if (isRef && !isThis) target = d->getBaseType();
      else if (isa<DICompositeType>(s) && CI->paramHasAttr(i, Attribute::ByVal)) target = s;
      else if (auto* ct = dyn_cast<DICompositeType>(s); ct) target = s; // class passed indirectly
      std::vector<Leaf> lv;
      if (target && isClosure(target)) {
        args.push_back(ConstantPointerNull::get(PointerType::getUnqual(C)));
        leaf.push_back({(int)i, 0});
        continue;
      }
      if (target && flatten(target, 0, C, lv) && lv.size() <= 8) {
        for (auto& l : lv) {
          Value* p = l.off ? B.CreateConstInBoundsGEP1_64(Type::getInt8Ty(C), A, l.off) : A;
          args.push_back(B.CreateLoad(l.ty, p));
          leaf.push_back({(int)i, (long)l.off});
        }
        continue;
      }
      // this of _Bit_reference: the reference itself is {vector word/handle, index}
      if (isThis) {
        StringRef cls = FI[F].base;
        if (cls.starts_with("std::_Bit_reference::")) {
          args.push_back(B.CreateLoad(PointerType::getUnqual(C), A));
          args.push_back(B.CreateLoad(Type::getInt64Ty(C), B.CreateConstInBoundsGEP1_64(Type::getInt8Ty(C), A, 8)));
          leaf.push_back({(int)i, 0});
          leaf.push_back({(int)i, 8});
          continue;
        }
      }
    }
    args.push_back(A);
    leaf.push_back({(int)i, 0});
  }
  std::vector<Type*> tys;
  for (auto* a : args) tys.push_back(a->getType());
  auto*       FT = FunctionType::get(CI->getType(), tys, false);
  std::string nm = "anchor." + F->getName().str() + "." + std::to_string(SynthN++);
  Function*   S  = Function::Create(FT, GlobalValue::ExternalLinkage, nm, M);
  S->setDoesNotThrow();
  for (unsigned i = 0; i < args.size(); ++i)
    if (args[i]->getType()->isPointerTy()) S->addParamAttr(i, Attribute::NoCapture);
  SynthOf[nm] = F->getName().str();
  // emplace(args...): the arguments initialise the members of the element in order
  if (SP && FI[F].base.find("::emplace") != std::string::npos) {
    if (auto* K = dyn_cast_or_null<DICompositeType>(SP->getScope())) {
      auto tp = K->getTemplateParams();
      std::vector<Leaf> lv;
      if (tp.size() > 0)
        if (auto* T0 = dyn_cast_or_null<DITemplateTypeParameter>(tp[0]))
          if (flatten(T0->getType(), 0, C, lv) && lv.size() > 1 && lv.size() + 1 == leaf.size()) {
            std::sort(lv.begin(), lv.end(), [](const Leaf& a, const Leaf& b) { return a.off < b.off; });
            if (T0->getType() && T0->getType()->getName().starts_with("tuple<")) std::reverse(lv.begin(), lv.end());  // the last member of a tuple comes first
            for (size_t i = 0; i < lv.size(); ++i) leaf[i + 1] = {1, (long)lv[i].off};
          }
    }
  }
  LeafOf[nm]  = leaf;
  auto* NC    = B.CreateCall(S, args);
  NC->setDebugLoc(CI->getDebugLoc());
  NC->setDoesNotThrow();
  if (!CI->getType()->isVoidTy()) CI->replaceAllUsesWith(NC);
  CI->eraseFromParent();
}

static void lowerInvokes(Function& F) {
  std::vector<InvokeInst*> iv;
  for (auto& BB : F)
    if (auto* II = dyn_cast<InvokeInst>(BB.getTerminator())) iv.push_back(II);
  for (auto* II : iv) changeToCall(II);
  removeUnreachableBlocks(F);
}

// ---- JSON ------------------------------------------------------------------------------
static std::map<std::string, json::Object> AnchorInfo;
static json::Value locJson(const DebugLoc& DL) {
  if (!DL) return nullptr;
  json::Array chain;
  for (const DILocation* L = DL.get(); L; L = L->getInlinedAt()) {
    auto* sc = L->getScope()->getSubprogram();
    std::string fn = sc ? (sc->getLinkageName().empty() ? sc->getName().str() : sc->getLinkageName().str()) : "";
    chain.push_back(json::Array{L->getFilename().str(), (int64_t)L->getLine(), fn});
  }
  return json::Value(std::move(chain));
}

// what becomes of an exception that arrives at this block
static const char* arrives(const BasicBlock* b) {
  std::set<const BasicBlock*> seen; std::vector<const BasicBlock*> st{b};
  bool ends = false, on = false;
  while (!st.empty()) {
    b = st.back(); st.pop_back();
    if (!seen.insert(b).second) continue;
    for (auto& i : *b) {
      auto* c = dyn_cast<CallBase>(&i); auto* f = c ? c->getCalledFunction() : nullptr;
      if (!f) continue;
      auto n = f->getName();
      if (n == "__clang_call_terminate" || n == "_ZSt9terminatev") ends = true;
      if (n == "__cxa_rethrow" || n == "_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE" || n == "__cxa_throw") on = true;
    }
    if (isa<ResumeInst>(b->getTerminator())) on = true;
    if (auto* iv = dyn_cast<InvokeInst>(b->getTerminator())) { st.push_back(iv->getNormalDest()); continue; } // a clean-up that throws is another matter
    if (ends && !on) continue;
    for (auto* s : successors(b)) st.push_back(s);
  }
  return on ? "on" : ends ? "end" : "caught";
}

// every function with the functions and global variables it refers to (before any inlining)
static int dumpRefs(Module& M, const std::string& out) {
  json::Array fs, gs;
  for (auto& G : M.globals()) {
    json::Object o{{"name", G.getName().str()}, {"dem", demangle(G.getName().str())}, {"const", G.isConstant()}, {"tls", G.isThreadLocal()}, {"decl", G.isDeclaration()},
                   {"size", G.getValueType()->isSized() ? (int64_t)M.getDataLayout().getTypeAllocSize(G.getValueType()).getFixedValue() : -1}};
    if (auto* T = dyn_cast<StructType>(G.getValueType())) o["type"] = T->hasName() ? T->getName().str() : "";
    SmallVector<DIGlobalVariableExpression*, 1> ge;
    G.getDebugInfo(ge);
    if (!ge.empty()) {
      auto* v = ge[0]->getVariable();
      o["file"] = (v->getFile() ? v->getFile()->getFilename().str() : "");
      o["line"] = (int64_t)v->getLine();
    }
    gs.push_back(std::move(o));
  }
  for (auto& F : M) {
    if (F.isDeclaration()) continue;
    std::set<const Function*> rf; std::map<std::string, std::string> rg;
    for (auto& I : instructions(F))
      for (auto& op : I.operands()) {
        Value* v = op->stripPointerCasts();
        if (auto* G = dyn_cast<Function>(v)) rf.insert(G);
        else {
          if (auto* CE = dyn_cast<ConstantExpr>(v)) v = CE->getOperand(0)->stripPointerCasts();
          if (auto* G = dyn_cast<GlobalVariable>(v)) {
            std::string how = isa<StoreInst>(I) && cast<StoreInst>(I).getPointerOperand()->stripPointerCasts() == op->stripPointerCasts() ? "store" : isa<LoadInst>(I) ? "load" : "ref";
            auto& x = rg[G->getName().str()];
            if (x.empty() || how == "store" || (x == "load" && how == "ref")) x = how;
          }
        }
      }
    json::Array cl;
    for (auto& I : instructions(F))
      if (auto* CB = dyn_cast<CallBase>(&I))
        if (auto* g = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) {
          if (g->isIntrinsic() || (g->isDeclaration() && g->doesNotThrow())) continue;
          auto* iv = dyn_cast<InvokeInst>(CB);
          cl.push_back(json::Array{g->getName().str(), iv ? arrives(iv->getUnwindDest()) : CB->doesNotThrow() ? "nounwind" : "on", CB->getDebugLoc() ? (int64_t)CB->getDebugLoc().getLine() : 0});
        }
    json::Array a; for (auto* g : rf) a.push_back(g->getName().str());
    json::Object g; for (auto& [k, v] : rg) g[k] = v;
    json::Object o{{"name", F.getName().str()}, {"dem", demangle(F.getName().str())}, {"refs", std::move(a)}, {"globals", std::move(g)}, {"calls", std::move(cl)}};
    if (auto* sp = F.getSubprogram()) { o["file"] = sp->getFile() ? sp->getFile()->getFilename().str() : ""; o["dir"] = sp->getFile() ? sp->getFile()->getDirectory().str() : ""; o["line"] = (int64_t)sp->getLine(); }
    fs.push_back(std::move(o));
  }
  std::error_code EC;
  raw_fd_ostream  os(out, EC);
  os << json::Value(json::Object{{"functions", std::move(fs)}, {"globals", std::move(gs)}});
  return 0;
}

int main(int argc, char** argv) {
  std::string in, out;
  bool keepIR = false, refsOnly = false;
  std::set<std::string> funcAnchors; // exact functions
  std::set<std::string> bodyAnchors; // exact functions whose bodies are analysed as well
  std::set<std::string> extraAnchors; // qualified base names (or prefixes ending in '*')
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "-o") out = argv[++i];
    else if (a == "-S") keepIR = true;
    else if (a == "-refs") refsOnly = true;
    else if (a == "-anchor") extraAnchors.insert(argv[++i]);
    else if (a == "-fanchor") funcAnchors.insert(argv[++i]);
    else if (a == "-banchor") { funcAnchors.insert(argv[++i]); bodyAnchors.insert(argv[i]); }  // calls kept opaque, body analysed too
    else in = a;
  }
  LLVMContext  C;
  SMDiagnostic E;
  auto         M = parseIRFile(in, E, C);
  if (!M) {
    E.print("irx", errs());
    return 3;
  }
  if (refsOnly) return dumpRefs(*M, out);
  for (auto& F : *M) FI[&F] = classify(F);
  for (auto& F : *M) {
    auto& fi = FI[&F];
    if (funcAnchors.count(fi.base)) fi.anchor = true;
    for (auto& x : extraAnchors) {
      // "ns::cls": every member of cls (and of classes nested in it), and the namespace-scope (friend) operators of its iterators
      if (startsWith(fi.base, (x + "::").c_str())) fi.anchor = true;
      auto c = x.rfind("::");
      if (startsWith(fi.base, (x.substr(0, c) + "::operator").c_str()) && fi.dem.find(x + "<") != std::string::npos) fi.anchor = true;
    }
  }
  // call graph (direct references) for "reaches"
  std::map<const Function*, std::set<const Function*>> refs;
  for (auto& F : *M)
    for (auto& I : instructions(F))
      for (auto& op : I.operands())
        if (auto* G = dyn_cast<Function>(op->stripPointerCasts())) refs[&F].insert(G);
  std::set<const Function*> keepRoots;
  std::map<const Function*, std::set<const Function*>> reach;
  for (auto& F : *M) {
    if (!FI[&F].anchor) continue;
    std::vector<const Function*> st{&F};
    std::set<const Function*>    seen{&F};
    while (!st.empty()) {
      auto* f = st.back();
      st.pop_back();
      for (auto* g : refs[f]) {
        if (!seen.insert(g).second) continue;
        auto& gi = FI[g];
        if (!isStdScoped(gi.base) && !g->isDeclaration() && !g->isIntrinsic()) {
          reach[&F].insert(g);
          continue; // do not look through user code
        }
        st.push_back(g);
      }
    }
  }
  // lower invokes, normalise attributes
  for (auto& F : *M) {
    if (F.isDeclaration()) continue;
    lowerInvokes(F);
    F.removeFnAttr(Attribute::OptimizeNone);
    F.removeFnAttr(Attribute::NoInline);
  }
  // rewrite anchors' call sites
  std::vector<std::pair<CallInst*, Function*>> work;
  for (auto& F : *M) {
    if (FI[&F].anchor && !bodyAnchors.count(FI[&F].base)) continue; // bodies of anchors are not analysed
    for (auto& I : instructions(F))
      if (auto* CI = dyn_cast<CallInst>(&I))
        if (auto* G = CI->getCalledFunction())
          if (FI.count(G) && FI[G].anchor && !G->isIntrinsic()) work.push_back({CI, G});
  }
  std::set<const Function*> usedAnchors;
  for (auto& [ci, g] : work) {
    usedAnchors.insert(g);
    rewriteAnchorCall(ci, g);
  }
  for (auto* a : usedAnchors)
    { if (bodyAnchors.count(FI[a].base)) keepRoots.insert(a); for (auto* r : reach[a]) keepRoots.insert(r); }
  json::Object anchorsJ;
  for (auto* a : usedAnchors) {
    json::Array r;
    for (auto* x : reach[a]) r.push_back(x->getName().str());
    anchorsJ[a->getName().str()] = json::Object{{"dem", FI[a].dem}, {"base", FI[a].base}, {"reaches", std::move(r)}};
  }
  // linkage + inline attributes
  std::set<std::string> roots;
  for (auto& F : *M) {
    if (F.isDeclaration()) continue;
    auto& fi = FI[&F];
    bool  root = startsWith(F.getName().str(), "drv_entry_") || keepRoots.count(&F);
    if (root) {
      F.setLinkage(GlobalValue::ExternalLinkage);
      F.setComdat(nullptr);
      roots.insert(F.getName().str());
      if (!startsWith(F.getName().str(), "drv_entry_")) F.addFnAttr(Attribute::AlwaysInline);
    } else if (fi.anchor) {
      F.setLinkage(GlobalValue::InternalLinkage);
      F.setComdat(nullptr);
    } else {
      F.setLinkage(GlobalValue::InternalLinkage);
      F.setComdat(nullptr);
      F.addFnAttr(Attribute::AlwaysInline);
    }
  }
  // drop global ctors/initialisers that would keep things alive
  if (auto* g = M->getGlobalVariable("llvm.global_ctors")) g->eraseFromParent();
  if (auto* g = M->getGlobalVariable("llvm.used")) g->eraseFromParent();

  LoopAnalysisManager     LAM;
  FunctionAnalysisManager FAM;
  CGSCCAnalysisManager    CGAM;
  ModuleAnalysisManager   MAM;
  PassBuilder             PB;
  PB.registerModuleAnalyses(MAM);
  PB.registerCGSCCAnalyses(CGAM);
  PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  {
    ModulePassManager MPM;
    MPM.addPass(GlobalDCEPass());
    MPM.addPass(AlwaysInlinerPass(/*InsertLifetime=*/false));
    MPM.addPass(GlobalDCEPass());
    MPM.run(*M, MAM);
  }
  // drop lifetime / debug intrinsics
  for (auto& F : *M) {
    std::vector<Instruction*> del;
    for (auto& I : instructions(F))
      if (auto* II = dyn_cast<IntrinsicInst>(&I)) {
        auto id = II->getIntrinsicID();
        if (II->isLifetimeStartOrEnd() || isa<DbgInfoIntrinsic>(II) || id == Intrinsic::assume ||
            id == Intrinsic::experimental_noalias_scope_decl)
          del.push_back(II);
      }
    for (auto* d : del) d->eraseFromParent();
  }
  {
    SimplifyCFGOptions o;
    o.bonusInstThreshold(0).forwardSwitchCondToPhi(false).convertSwitchRangeToICmp(false).convertSwitchToLookupTable(false)
          .needCanonicalLoops(true).hoistCommonInsts(false).sinkCommonInsts(false).setSimplifyCondBranch(true).speculateBlocks(false);
    FunctionPassManager FPM;
    for (int r = 0; r < 3; ++r) {
      FPM.addPass(SROAPass(SROAOptions::ModifyCFG));
      FPM.addPass(InstSimplifyPass());
      FPM.addPass(EarlyCSEPass(true));
      FPM.addPass(SimplifyCFGPass(o));
      FPM.addPass(ADCEPass());
    }
    ModulePassManager MPM;
    MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
    MPM.addPass(GlobalDCEPass());
    MPM.addPass(StripDeadPrototypesPass());
    MPM.run(*M, MAM);
  }
  if (keepIR) M->print(outs(), nullptr);
  // ---- dump
  json::Array funcs;
  const DataLayout& DL = M->getDataLayout();
  for (auto& F : *M) {
    if (F.isDeclaration()) continue;
    std::map<const Value*, int>      id;
    std::map<const BasicBlock*, int> bid;
    int n = 0, b = 0;
    for (auto& BB : F) {
      bid[&BB] = b++;
      for (auto& I : BB) id[&I] = n++;
    }
    std::function<json::Value(const Value*)> opnd = [&](const Value* v) -> json::Value {
      if (auto it = id.find(v); it != id.end()) return json::Array{"i", it->second};
      if (auto* a = dyn_cast<Argument>(v)) return json::Array{"a", (int64_t)a->getArgNo()};
      if (auto* c = dyn_cast<ConstantInt>(v)) {
        if (c->getBitWidth() > 64) return json::Array{"c", toString(c->getValue(), 10, true)};
        return c->getBitWidth() == 1 ? json::Array{"c", (int64_t)c->getZExtValue()} : json::Array{"c", c->getSExtValue()};
      }
      if (auto* c = dyn_cast<ConstantFP>(v)) {
        SmallString<16> s;
        c->getValueAPF().toString(s);
        return json::Array{"f", s.str().str()};
      }
      if (isa<ConstantPointerNull>(v)) return json::Array{"n", 0};
      if (isa<UndefValue>(v)) return json::Array{"u", 0};
      if (auto* c = dyn_cast<Constant>(v); c && c->getType()->isStructTy() && (isa<ConstantAggregate>(c) || isa<ConstantAggregateZero>(c))) {
        json::Array fs;
        for (unsigned k = 0; k < c->getType()->getStructNumElements(); ++k) fs.push_back(opnd(c->getAggregateElement(k)));
        return json::Array{"ag", std::move(fs)};
      }
      if (auto* g = dyn_cast<GlobalValue>(v)) return json::Array{"g", g->getName().str()};
      if (auto* ba = dyn_cast<BasicBlock>(v)) return json::Array{"b", bid[ba]};
      std::string              s;
      raw_string_ostream       os(s);
      v->printAsOperand(os, false);
      return json::Array{"k", os.str()};
    };
    json::Array blocks;
    for (auto& BB : F) {
      json::Array insts;
      for (auto& I : BB) {
        json::Object o{{"id", id[&I]}, {"op", I.getOpcodeName()}};
        {
          std::string        s;
          raw_string_ostream os(s);
          I.getType()->print(os);
          o["ty"] = os.str();
        }
        json::Array ops;
        if (auto* cb = dyn_cast<CallBase>(&I)) {
          for (auto& a : cb->args()) ops.push_back(opnd(a));
          if (auto* f = cb->getCalledFunction()) {
            std::string nm = f->getName().str();
            auto        it = SynthOf.find(nm);
            if (it != SynthOf.end()) {
              o["anchor"] = true;
              json::Array lf;
              for (auto& [p, of] : LeafOf[nm]) lf.push_back(json::Array{p, (int64_t)of});
              o["leaf"] = std::move(lf);
              nm          = it->second;
            }
            o["callee"] = nm;
          } else
            o["fp"] = opnd(cb->getCalledOperand());
        } else if (auto* ph = dyn_cast<PHINode>(&I)) {
          for (unsigned i = 0; i < ph->getNumIncomingValues(); ++i)
            ops.push_back(json::Array{bid[ph->getIncomingBlock(i)], opnd(ph->getIncomingValue(i))});
        } else if (auto* gp = dyn_cast<GetElementPtrInst>(&I)) {
          ops.push_back(opnd(gp->getPointerOperand()));
          MapVector<Value*, APInt> var;
          APInt                    cst(64, 0);
          if (cast<GEPOperator>(gp)->collectOffset(DL, 64, var, cst)) {
            o["off"] = cst.getSExtValue();
            json::Array vs;
            for (auto& [v, s] : var) vs.push_back(json::Array{opnd(v), s.getSExtValue()});
            o["var"] = std::move(vs);
          }
        } else {
          for (auto& a : I.operands()) ops.push_back(opnd(a));
        }
        if (auto* c = dyn_cast<CmpInst>(&I)) o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
        if (auto* s = dyn_cast<SwitchInst>(&I)) {
          json::Array cs;
          for (auto& c : s->cases()) cs.push_back(json::Array{c.getCaseValue()->getSExtValue(), bid[c.getCaseSuccessor()]});
          o["cases"]   = std::move(cs);
          o["default"] = bid[s->getDefaultDest()];
        }
        if (auto* ev = dyn_cast<ExtractValueInst>(&I)) {
          json::Array ix;
          for (auto x : ev->indices()) ix.push_back((int64_t)x);
          o["idx"] = std::move(ix);
        }
        if (auto* ev = dyn_cast<InsertValueInst>(&I)) {
          json::Array ix;
          for (auto x : ev->indices()) ix.push_back((int64_t)x);
          o["idx"] = std::move(ix);
        }
        if (auto* br = dyn_cast<BranchInst>(&I)) {
          json::Array s;
          for (unsigned i = 0; i < br->getNumSuccessors(); ++i) s.push_back(bid[br->getSuccessor(i)]);
          o["succ"] = std::move(s);
          ops       = json::Array{};
          if (br->isConditional()) ops.push_back(opnd(br->getCondition()));
        }
        if (auto* st = dyn_cast<StoreInst>(&I)) {
          std::string        s;
          raw_string_ostream os(s);
          st->getValueOperand()->getType()->print(os);
          o["sty"] = os.str();
        }
        if (auto* al = dyn_cast<AllocaInst>(&I)) {
          std::string        s;
          raw_string_ostream os(s);
          al->getAllocatedType()->print(os);
          o["aty"] = os.str();
        }
        o["ops"] = std::move(ops);
        if (I.getDebugLoc()) o["loc"] = locJson(I.getDebugLoc());
        insts.push_back(std::move(o));
      }
      blocks.push_back(std::move(insts));
    }
    funcs.push_back(json::Object{{"name", F.getName().str()},
                                 {"dem", llvm::demangle(F.getName().str())},
                                 {"root", roots.count(F.getName().str()) > 0},
                                 {"nargs", (int64_t)F.arg_size()},
                                 {"blocks", std::move(blocks)}});
  }
  json::Object dems;
  for (auto& F : *M)
    if (F.isDeclaration() && !startsWith(F.getName().str(), "anchor.") && !startsWith(F.getName().str(), "llvm."))
      dems[F.getName().str()] = llvm::demangle(F.getName().str());
  json::Object top{{"functions", std::move(funcs)}, {"anchors", std::move(anchorsJ)}, {"externs", std::move(dems)}};
  std::error_code ec;
  raw_fd_ostream  os(out.empty() ? "-" : out, ec);
  os << json::Value(std::move(top));
  return 0;
}
