// lirx: link bitcode, inline along repository call edges, normalise, and export
// the resulting control-flow graphs as JSON for the rule scripts in /verif/lib.
//
//   lirx --config cfg.json out.json a.bc b.bc ...
// cfg.json:
//   repo:      [path prefixes whose functions belong to the analysed program]
//   opaque:    [regex on demangled names: never inlined (they are rule events)]
//   inline:    [regex on demangled names: inlined although outside repo]
//   export:    [regex on demangled names: functions to export]
//   export_repo: bool, export every function defined under a repo prefix
//   passes:    pipeline text run after inlining
//   max_insts: refuse to inline callees larger than this
//   globals:   bool, export global variable facts
#include <llvm/ADT/StringExtras.h>
#include <llvm/Analysis/CallGraph.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Analysis/ScalarEvolution.h>
#include <llvm/Analysis/ScalarEvolutionExpressions.h>
#include <llvm/IR/MDBuilder.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/Support/Regex.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/AlwaysInliner.h>
#include <llvm/Transforms/Utils/Cloning.h>

#include <map>
#include <set>
#include <string>
#include <vector>

using namespace llvm;

static std::vector<std::string> strList(const json::Object &o, StringRef k) {
    std::vector<std::string> r;
    if (auto *a = o.getArray(k))
        for (auto &v : *a)
            if (auto s = v.getAsString()) r.push_back(s->str());
    return r;
}

struct RegexSet {
    std::vector<std::unique_ptr<Regex>> v;
    explicit RegexSet(const std::vector<std::string> &l) {
        for (auto &s : l) {
            auto r = std::make_unique<Regex>(s);
            std::string err;
            if (!r->isValid(err)) { errs() << "bad regex " << s << ": " << err << "\n"; exit(3); }
            v.push_back(std::move(r));
        }
    }
    bool match(StringRef s) const {
        for (auto &r : v) if (r->match(s)) return true;
        return false;
    }
};

static std::map<const Function *, std::string> demCache;
static const std::string &dem(const Function *f) {
    auto it = demCache.find(f);
    if (it != demCache.end()) return it->second;
    return demCache[f] = demangle(f->getName().str());
}
static std::string diPath(const DIFile *f) {
    if (!f) return "";
    std::string n = f->getFilename().str();
    if (!n.empty() && n[0] == '/') return n;
    return f->getDirectory().str() + "/" + n;
}

static std::string typeKey(const DICompositeType *ct) {
    std::string key = ct->getIdentifier().empty() ? ct->getName().str() : ct->getIdentifier().str(), d = key;
    if (StringRef(key).starts_with("_ZTS")) { d = demangle(key); StringRef s(d); s.consume_front("typeinfo name for "); d = s.str(); }
    return d;
}

static json::Array typeFields(const DICompositeType *ct) {
    json::Array a;
    for (auto *e : ct->getElements()) {
        auto *d = dyn_cast_or_null<DIDerivedType>(e);
        if (!d) continue;
        bool mem = d->getTag() == dwarf::DW_TAG_member, inh = d->getTag() == dwarf::DW_TAG_inheritance;
        if (!mem && !inh) continue;
        if (d->isStaticMember()) continue;
        std::string tn; bool ptr = false; uint64_t sz = d->getSizeInBits();
        bool cst = false; std::string kind, tdef;
        const DIType *t = d->getBaseType();
        const DIType *u = t;
        while (u && isa<DIDerivedType>(u)) {
            auto *dd = cast<DIDerivedType>(u);
            if (dd->getTag() == dwarf::DW_TAG_pointer_type) { ptr = true; break; }
            if (dd->getTag() == dwarf::DW_TAG_reference_type) { ptr = true; kind = "ref"; break; }
            if (dd->getTag() == dwarf::DW_TAG_const_type) cst = true;
            if (dd->getTag() == dwarf::DW_TAG_typedef && tdef.empty()) tdef = dd->getName().str();
            u = dd->getBaseType();
        }
        if (kind.empty()) kind = ptr ? "ptr" : (u && isa<DIBasicType>(u)) ? "scalar"
             : (u && isa<DICompositeType>(u) && cast<DICompositeType>(u)->getTag() == dwarf::DW_TAG_enumeration_type) ? "scalar"
             : (u && isa<DICompositeType>(u) && cast<DICompositeType>(u)->getTag() == dwarf::DW_TAG_array_type) ? "array" : "class";
        const DIType *pt = u;
        if (ptr && u) { pt = cast<DIDerivedType>(u)->getBaseType(); }
        if (pt) tn = pt->getName().str();
        if (pt) if (auto *ct2 = dyn_cast<DICompositeType>(pt)) if (!ct2->getIdentifier().empty()) tn = ct2->getName().str();
        if (!sz && u) sz = u->getSizeInBits();
        json::Object o;
        o["name"] = d->getName().str();
        o["off"] = (int64_t)(d->getOffsetInBits() / 8);
        o["size"] = (int64_t)((ptr && u ? 64 : (u ? u->getSizeInBits() : sz)) / 8);
        o["kind"] = inh ? "base" : kind;
        o["type"] = tn;
        if (cst) o["const"] = true;
        if (!tdef.empty()) o["tdef"] = tdef;
        if (auto *ct2 = dyn_cast_or_null<DICompositeType>(pt)) o["key"] = typeKey(ct2);
        while (ptr && pt && isa<DIDerivedType>(pt) && cast<DIDerivedType>(pt)->getTag() != dwarf::DW_TAG_pointer_type) pt = cast<DIDerivedType>(pt)->getBaseType();
        if (auto *ct2 = dyn_cast_or_null<DICompositeType>(pt)) o["pkey"] = typeKey(ct2);
        a.push_back(std::move(o));
    }
    return a;
}

int main(int argc, char **argv) {
    if (argc < 5) { errs() << "usage\n"; return 3; }
    auto cfgBuf = MemoryBuffer::getFile(argv[2]);
    if (!cfgBuf) { errs() << "no config\n"; return 3; }
    auto cfgV = json::parse((*cfgBuf)->getBuffer());
    if (!cfgV) { errs() << "bad config\n"; return 3; }
    const json::Object &cfg = *cfgV->getAsObject();
    auto repo = strList(cfg, "repo");
    RegexSet opaque(strList(cfg, "opaque")), inl(strList(cfg, "inline")), exp(strList(cfg, "export")),
        noexp(strList(cfg, "noexport"));
    bool exportRepo = cfg.getBoolean("export_repo").value_or(false);
    std::string passes = cfg.getString("passes").value_or("").str();
    std::string prepasses = cfg.getString("prepasses").value_or("").str();
    int64_t maxInsts = cfg.getInteger("max_insts").value_or(4000);
    bool wantTypes = cfg.getBoolean("types").value_or(false);

    LLVMContext ctx;
    std::unique_ptr<Module> M;
    for (int i = 4; i < argc; ++i) {
        SMDiagnostic err;
        auto m = parseIRFile(argv[i], err, ctx);
        if (!m) { err.print(argv[0], errs()); return 3; }
        // inline functions of the program must survive linking even when nothing refers to them
        for (auto &f : *m) {
            if (f.isDeclaration() || !f.hasLinkOnceLinkage()) continue;
            if (auto *sp = f.getSubprogram()) {
                std::string p = diPath(sp->getFile());
                for (auto &r : repo) if (StringRef(p).starts_with(r)) { f.setLinkage(GlobalValue::WeakODRLinkage); break; }
            }
        }
        if (!M) M = std::move(m);
        else if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed " << argv[i] << "\n"; return 3; }
    }
    for (auto &a : M->aliases())    // complete-object constructors and destructors
        if (auto *f = dyn_cast<Function>(a.getAliasee()->stripPointerCasts())) a.replaceAllUsesWith(f);
    const DataLayout &DL = M->getDataLayout();
    // virtual calls on the object under construction (or destruction) dispatch to the class being built
    for (auto &f : *M) {
        StringRef n = f.getName();
        if (f.isDeclaration() || !n.starts_with("_Z") || f.arg_empty()) continue;
        if (n.find("C1E") == StringRef::npos && n.find("C2E") == StringRef::npos && n.find("D1E") == StringRef::npos && n.find("D2E") == StringRef::npos) continue;
        std::map<Value *, GlobalVariable *> vt;
        for (auto &I : instructions(f))
            if (auto *s = dyn_cast<StoreInst>(&I)) {
                APInt off(64, 0);
                if (!isa<Constant>(s->getValueOperand()) || !s->getValueOperand()->getType()->isPointerTy()) continue;
                auto *b = s->getValueOperand()->stripAndAccumulateConstantOffsets(DL, off, true);
                auto *g = dyn_cast<GlobalVariable>(b);
                if (g && g->getName().starts_with("_ZTV") && g->hasInitializer() && off == 16) vt[s->getPointerOperand()] = g;
            }
        if (vt.empty()) continue;
        for (auto &I : instructions(f)) {
            auto *cb = dyn_cast<CallBase>(&I);
            if (!cb || cb->getCalledFunction()) continue;
            auto *l = dyn_cast<LoadInst>(cb->getCalledOperand());
            if (!l) continue;
            APInt off(64, 0);
            auto *vp = dyn_cast<LoadInst>(l->getPointerOperand()->stripAndAccumulateConstantOffsets(DL, off, true));
            if (!vp) continue;
            auto it = vt.find(vp->getPointerOperand());
            if (it == vt.end()) continue;
            auto *cs = dyn_cast<ConstantStruct>(it->second->getInitializer());
            auto *ca = cs ? dyn_cast<ConstantArray>(cs->getOperand(0)) : nullptr;
            uint64_t k = 2 + off.getZExtValue() / 8;
            if (!ca || k >= ca->getNumOperands()) continue;
            if (auto *t = dyn_cast<Function>(ca->getOperand(k)->stripPointerCasts()))
                if (t->getFunctionType() == cb->getFunctionType() && t->getName() != "__cxa_pure_virtual") cb->setCalledOperand(t);
        }
    }

    auto inRepo = [&](const Function &f) {
        if (auto *sp = f.getSubprogram()) {
            std::string p = diPath(sp->getFile());
            for (auto &r : repo) if (StringRef(p).starts_with(r)) return true;
        }
        return false;
    };
    std::set<const Function *> repoFns;
    for (auto &f : *M) if (!f.isDeclaration() && inRepo(f)) repoFns.insert(&f);

    auto runPipe = [&](const std::string &p) {
        if (p.empty()) return true;
        LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
        PassBuilder PB;
        PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM);
        PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
        ModulePassManager MPM;
        if (auto e = PB.parsePassPipeline(MPM, p)) { errs() << "pipeline: " << toString(std::move(e)) << "\n"; return false; }
        MPM.run(*M, MAM);
        return true;
    };
    if (!runPipe(prepasses)) return 3;

    // C library functions do not throw (callbacks apart); std::terminate etc. neither.
    for (auto &f : *M) {
        if (f.isDeclaration() && !f.isIntrinsic() && !f.getName().starts_with("_Z")
            && !f.getName().starts_with("__cxa") && !f.getName().starts_with("_Unwind")
            && f.getName() != "qsort" && f.getName() != "bsearch" && f.getName() != "pthread_once"
            && f.getName() != "_exit_never")
            f.setDoesNotThrow();
    }
    json::Object callers;   // direct callers inside the program, before any inlining
    {
        std::map<std::string, std::set<std::string>> cm;
        for (auto &f : *M) for (auto &I : instructions(f))
            if (auto *cb = dyn_cast<CallBase>(&I))
                if (auto *c = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCastsAndAliases()))
                    if (repoFns.count(c)) cm[c->getName().str()].insert(f.getName().str());
        for (auto &p : cm) { json::Array a; for (auto &x : p.second) a.push_back(x); callers[p.first] = std::move(a); }
    }
    // bottom-up inlining: repeatedly inline call sites of eligible callees.
    std::set<Function *> recursive;
    {
        CallGraph CG(*M);
        for (auto &f : *M) {
            if (f.isDeclaration()) continue;
            // direct or mutual recursion check by DFS limited to eligible functions
            std::set<Function *> seen; std::vector<Function *> st{&f}; bool rec = false;
            while (!st.empty() && !rec) {
                Function *g = st.back(); st.pop_back();
                for (auto &cr : *CG[g]) {
                    Function *h = cr.second->getFunction();
                    if (!h || h->isDeclaration()) continue;
                    if (h == &f) { rec = true; break; }
                    if (seen.size() < 3000 && seen.insert(h).second) st.push_back(h);
                }
            }
            if (rec) recursive.insert(&f);
        }
    }
    int64_t nInlined = 0, nRefused = 0;
    auto eligible = [&](Function *c) {
        if (!c || c->isDeclaration() || c->isInterposable()) {
            if (!c || c->isDeclaration()) return false;
        }
        const std::string &d = dem(c);
        if (opaque.match(d)) return false;
        if (recursive.count(c)) return false;
        if (c->isVarArg()) return false;
        if (!(repoFns.count(c) || inl.match(d))) return false;
        return true;
    };
    std::set<Function *> done;
    std::function<void(Function *)> process = [&](Function *f) {
        if (f->isDeclaration() || !done.insert(f).second) return;
        // process callees first
        std::vector<Function *> callees;
        for (auto &I : instructions(f))
            if (auto *cb = dyn_cast<CallBase>(&I)) if (Function *c = cb->getCalledFunction()) callees.push_back(c);
        for (auto *c : callees) if (eligible(c)) process(c);
        bool again = true; int rounds = 0;
        while (again && rounds++ < 40) {
            again = false;
            std::vector<CallBase *> sites;
            for (auto &I : instructions(f))
                if (auto *cb = dyn_cast<CallBase>(&I)) {
                    Function *c = cb->getCalledFunction();
                    if (c && c != f && eligible(c)) sites.push_back(cb);
                }
            for (auto *cb : sites) {
                Function *c = cb->getCalledFunction();
                if ((int64_t)c->getInstructionCount() > maxInsts) { ++nRefused; continue; }
                InlineFunctionInfo ifi;
                c->removeFnAttr(Attribute::NoInline); c->removeFnAttr(Attribute::OptimizeNone);
                auto r = InlineFunction(*cb, ifi);
                if (r.isSuccess()) { ++nInlined; again = true; }
            }
        }
    };
    std::vector<Function *> targets;
    for (auto &f : *M) {
        if (f.isDeclaration()) continue;
        bool want = (exportRepo && repoFns.count(&f)) || exp.match(dem(&f));
        if (want && noexp.match(dem(&f))) want = false;
        if (want) targets.push_back(&f);
    }
    for (auto *f : targets) process(f);
    // export_if_calls: keep only the functions that, once inlined, contain an interesting call
    {
        auto want = strList(cfg, "export_if_calls");
        if (!want.empty()) {
            RegexSet w(want);
            std::vector<Function *> keepT;
            for (auto *f : targets) {
                bool hit = false;
                for (auto &I : instructions(f))
                    if (auto *cb = dyn_cast<CallBase>(&I)) if (Function *c = cb->getCalledFunction()) if (w.match(dem(c))) { hit = true; break; }
                if (hit) keepT.push_back(f);
            }
            targets = keepT;
        }
    }
    // export_if_globals: keep only the functions that, once inlined, name a mutable global variable of the program
    if (cfg.getBoolean("export_if_globals").value_or(false)) {
        auto inRepo2 = [&](const std::string &p) { for (auto &r : repo) if (StringRef(p).starts_with(r)) return true; return false; };
        auto mutableGlobal = [&](const GlobalVariable *g) {
            if (g->isConstant()) return false;
            SmallVector<DIGlobalVariableExpression *, 1> gv; g->getDebugInfo(gv);
            return !gv.empty() && inRepo2(diPath(gv[0]->getVariable()->getFile()));
        };
        std::vector<Function *> keepT;
        for (auto *f : targets) {
            bool hit = false;
            for (auto &I : instructions(f)) {
                if (isa<DbgInfoIntrinsic>(&I)) continue;
                SmallVector<const Value *, 8> st(I.op_begin(), I.op_end());
                while (!st.empty() && !hit) {
                    const Value *v = st.pop_back_val();
                    if (auto *g = dyn_cast<GlobalVariable>(v)) hit = mutableGlobal(g);
                    else if (auto *ce = dyn_cast<ConstantExpr>(v)) st.append(ce->op_begin(), ce->op_end());
                }
                if (hit) break;
            }
            if (hit) keepT.push_back(f);
        }
        targets = keepT;
    }
    // drop bodies not exported so that the pipeline only runs on what we need
    if (cfg.getBoolean("drop_others").value_or(true)) {
        std::set<Function *> keep(targets.begin(), targets.end());
        for (auto &f : *M) {
            if (f.isDeclaration() || keep.count(&f)) continue;
            bool nounw = f.doesNotThrow(), noret = f.doesNotReturn();
            (void)nounw; (void)noret;
            if (f.hasLocalLinkage()) f.setLinkage(GlobalValue::ExternalLinkage);
            f.setComdat(nullptr);
            auto *sp = f.getSubprogram();
            std::string nm = f.getName().str();
            f.deleteBody();
            (void)sp;
        }
    }
    // accesses inside an array member stay inside it (index bounds are judged elsewhere), so they do not touch the
    // scalar members beside it: one alias scope per function for array elements, excluded by the scalars
    if (cfg.getBoolean("array_noalias").value_or(false)) {
        MDBuilder MB(ctx);
        MDNode *dom = MB.createAnonymousAliasScopeDomain("arrays");
        for (auto *f : targets) {
            MDNode *sc = MB.createAnonymousAliasScope(dom, "elem"), *l = MDNode::get(ctx, {sc});
            for (auto &I : instructions(*f)) {
                Value *p = nullptr;
                if (auto *x = dyn_cast<LoadInst>(&I)) p = x->getPointerOperand();
                else if (auto *x = dyn_cast<StoreInst>(&I)) p = x->getPointerOperand();
                auto *g = dyn_cast_or_null<GEPOperator>(p);
                if (!g) continue;
                if (g->hasAllConstantIndices()) {
                    if (g->getSourceElementType()->isStructTy() && !g->getResultElementType()->isArrayTy()) I.setMetadata(LLVMContext::MD_noalias, l);
                } else {
                    auto *in = dyn_cast<GEPOperator>(g->getPointerOperand());
                    bool arr = g->getSourceElementType()->isArrayTy() || (g->getSourceElementType()->isStructTy() && g->getNumOperands() > 3);
                    if (arr && (in == nullptr || in->hasAllConstantIndices())) I.setMetadata(LLVMContext::MD_alias_scope, l);
                }
            }
        }
    }
    if (!runPipe(passes)) return 3;
    bool wantScev = cfg.getBoolean("scev").value_or(false);
    LoopAnalysisManager sLAM; FunctionAnalysisManager sFAM; CGSCCAnalysisManager sCGAM; ModuleAnalysisManager sMAM;
    PassBuilder sPB;
    sPB.registerModuleAnalyses(sMAM); sPB.registerCGSCCAnalyses(sCGAM); sPB.registerFunctionAnalyses(sFAM);
    sPB.registerLoopAnalyses(sLAM); sPB.crossRegisterProxies(sLAM, sFAM, sCGAM, sMAM);

    // ---------------------------------------------------------------- export
    json::Object out;
    json::Object types;
    auto noteType = [&](const DICompositeType *ct) {
        if (!ct || ct->isForwardDecl()) return;
        std::string d = typeKey(ct);
        if (types.get(d)) return;
        json::Object o; o["size"] = (int64_t)(ct->getSizeInBits() / 8);
        o["file"] = diPath(ct->getFile()); o["line"] = (int64_t)ct->getLine();
        o["fields"] = typeFields(ct);
        types[d] = std::move(o);
    };
    auto locOf = [&](const Instruction &I, json::Object &o) {
        const DebugLoc &dl = I.getDebugLoc();
        if (!dl) return;
        json::Array a;
        const DILocation *l = dl.get();
        int n = 0;
        while (l && n++ < 40) {
            std::string p = diPath(l->getFile());
            a.push_back(p + ":" + std::to_string(l->getLine()));
            l = l->getInlinedAt();
        }
        o["loc"] = std::move(a);
        json::Array s, cl;
        n = 0;
        for (l = dl.get(); l && n++ < 40; l = l->getInlinedAt())
            if (auto *sp = l->getScope()->getSubprogram()) {
                s.push_back(sp->getName().str());
                std::string c;
                if (auto *ct = dyn_cast_or_null<DICompositeType>(sp->getScope())) c = ct->getName().str();
                cl.push_back(c.substr(0, c.find('<')));
            }
        o["scope"] = std::move(s);
        if (isa<CallBase>(I)) o["sclass"] = std::move(cl);
    };
    json::Array fns;
    json::Object gl;
    for (auto *f : targets) {
        json::Object fo;
        fo["name"] = f->getName().str();
        fo["dem"] = dem(f);
        if (auto *sp = f->getSubprogram()) {
            fo["file"] = diPath(sp->getFile()); fo["line"] = (int64_t)sp->getLine();
            auto *de = sp->getDeclaration() ? sp->getDeclaration() : sp;
            bool dflt = false;  // no flag: the default of the enclosing class or struct
            if (auto *sc = dyn_cast_or_null<DICompositeType>(de->getScope())) dflt = sc->getTag() == dwarf::DW_TAG_class_type;
            fo["access"] = de->isPrivate() ? "private" : de->isProtected() ? "protected" : (de->isPublic() || !dflt) ? "public" : "private";
            fo["sname"] = sp->getName().str();
            if (auto *ty = sp->getType()) {
                // class of 'this'
                if (ty->getTypeArray().size() > 1)
                    if (auto *pt = dyn_cast_or_null<DIDerivedType>(ty->getTypeArray()[1]))
                        if (pt->getTag() == dwarf::DW_TAG_pointer_type && pt->isArtificial()) {
                            const DIType *b = pt->getBaseType(); bool cst = false;
                            while (b && isa<DIDerivedType>(b)) {
                                if (cast<DIDerivedType>(b)->getTag() == dwarf::DW_TAG_const_type) cst = true;
                                b = cast<DIDerivedType>(b)->getBaseType();
                            }
                            if (auto *ct = dyn_cast_or_null<DICompositeType>(b)) {
                                std::string key = ct->getIdentifier().empty() ? ct->getName().str() : ct->getIdentifier().str();
                                if (StringRef(key).starts_with("_ZTS")) { key = demangle(key); StringRef s(key); s.consume_front("typeinfo name for "); key = s.str(); }
                                fo["this_class"] = key; fo["this_const"] = cst;
                            }
                        }
            }
        }
        fo["linkage"] = (int64_t)f->getLinkage();
        fo["noreturn"] = f->doesNotReturn();
        fo["nounwind"] = f->doesNotThrow();
        std::map<const Value *, int> id; int next = 0;
        json::Array params;
        for (auto &a : f->args()) {
            id[&a] = next; json::Object p; p["id"] = next++; p["name"] = a.getName().str();
            std::string t; raw_string_ostream os(t); a.getType()->print(os); p["ty"] = t;
            if (a.hasStructRetAttr()) p["sret"] = true;
            params.push_back(std::move(p));
        }
        fo["params"] = std::move(params);
        std::map<const BasicBlock *, int> bb; int nb = 0;
        for (auto &b : *f) { bb[&b] = nb++; for (auto &I : b) id[&I] = next++; }
        std::function<json::Value(const Value *, int)> val = [&](const Value *v, int depth) -> json::Value {
            auto it = id.find(v);
            if (it != id.end()) return it->second;
            json::Object o;
            if (auto *c = dyn_cast<ConstantInt>(v)) {
                o["k"] = "int"; o["bits"] = (int64_t)c->getBitWidth();
                if (c->getBitWidth() <= 64) { o["v"] = c->getSExtValue(); o["u"] = std::to_string(c->getZExtValue()); }
            } else if (isa<ConstantPointerNull>(v)) { o["k"] = "null"; }
            else if (isa<UndefValue>(v)) { o["k"] = "undef"; }
            else if (auto *g = dyn_cast<GlobalVariable>(v)) { o["k"] = "glob"; o["n"] = g->getName().str(); }
            else if (auto *g2 = dyn_cast<Function>(v)) { o["k"] = "fn"; o["n"] = g2->getName().str(); o["d"] = dem(g2); }
            else if (auto *cfp = dyn_cast<ConstantFP>(v)) { o["k"] = "fp"; SmallString<32> s; cfp->getValueAPF().toString(s); o["v"] = s.str().str(); }
            else if (auto *ce = dyn_cast<ConstantExpr>(v)) {
                o["k"] = "cexpr"; o["op"] = ce->getOpcodeName();
                if (auto *g = dyn_cast<GEPOperator>(ce)) {
                    APInt off(64, 0);
                    if (g->accumulateConstantOffset(DL, off)) { o["op"] = "off"; o["off"] = off.getSExtValue(); o["base"] = val(g->getPointerOperand(), depth + 1); return std::move(o); }
                }
                json::Array ops;
                if (depth < 6) for (auto &u : ce->operands()) ops.push_back(val(u.get(), depth + 1));
                o["ops"] = std::move(ops);
            } else if (isa<InlineAsm>(v)) { o["k"] = "asm"; o["v"] = cast<InlineAsm>(v)->getAsmString(); o["c"] = cast<InlineAsm>(v)->getConstraintString(); }
            else if (isa<BasicBlock>(v)) { o["k"] = "bb"; o["n"] = bb[cast<BasicBlock>(v)]; }
            else if (isa<MetadataAsValue>(v)) { o["k"] = "md"; }
            else if (auto *ga = dyn_cast<GlobalAlias>(v)) { o["k"] = "fn"; o["n"] = ga->getName().str(); o["d"] = demangle(ga->getName().str()); }
            else o["k"] = "const";
            return std::move(o);
        };
        ScalarEvolution *SE = wantScev ? &sFAM.getResult<ScalarEvolutionAnalysis>(*f) : nullptr;
        auto rec = [&](Value *p, json::Object &o) {
            if (!SE || !SE->isSCEVable(p->getType())) return;
            auto *ar = dyn_cast<SCEVAddRecExpr>(SE->getSCEV(p));
            if (!ar || !ar->isAffine()) return;
            auto *st = dyn_cast<SCEVConstant>(ar->getStepRecurrence(*SE));
            auto *base = dyn_cast<SCEVUnknown>(SE->getPointerBase(ar));
            if (!st || !base) return;
            json::Object r;
            r["step"] = st->getAPInt().getSExtValue(); r["base"] = val(base->getValue(), 0); r["hdr"] = bb[ar->getLoop()->getHeader()];
            if (auto *c = dyn_cast<SCEVConstant>(SE->removePointerBase(ar->getStart()))) r["start"] = c->getAPInt().getSExtValue();
            if (auto *c = dyn_cast<SCEVConstant>(SE->getBackedgeTakenCount(ar->getLoop()))) if (c->getAPInt().getActiveBits() < 60) r["count"] = (int64_t)c->getAPInt().getZExtValue() + 1;
            o["rec"] = std::move(r);
        };
        json::Array blocks;
        for (auto &b : *f) {
            json::Array insts;
            for (auto &I : b) {
                if (isa<DbgInfoIntrinsic>(&I)) {
                    continue;
                }
                json::Object o;
                o["id"] = id[&I];
                o["op"] = I.getOpcodeName();
                { std::string t; raw_string_ostream os(t); I.getType()->print(os); o["ty"] = t; }
                locOf(I, o);
                auto ops = [&](std::initializer_list<const Value *> l) { json::Array a; for (auto *v : l) a.push_back(val(v, 0)); return a; };
                if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
                    MapVector<Value *, APInt> var; APInt c(64, 0);
                    bool ok = g->collectOffset(DL, 64, var, c);
                    o["base"] = val(g->getPointerOperand(), 0);
                    if (ok) {
                        o["off"] = c.getSExtValue();
                        json::Array vs;
                        for (auto &p : var) { json::Array x; x.push_back(val(p.first, 0)); x.push_back(p.second.getSExtValue()); vs.push_back(std::move(x)); }
                        o["var"] = std::move(vs);
                    }
                    { std::string t; raw_string_ostream os(t); g->getSourceElementType()->print(os); o["sty"] = t; }
                } else if (auto *l = dyn_cast<LoadInst>(&I)) {
                    o["ptr"] = val(l->getPointerOperand(), 0); rec(const_cast<Value *>(l->getPointerOperand()), o); if (l->isVolatile()) o["vol"] = true; if (l->isAtomic()) o["atomic"] = (int64_t)l->getOrdering();
                    o["size"] = (int64_t)DL.getTypeStoreSize(l->getType()).getFixedValue();
                } else if (auto *s = dyn_cast<StoreInst>(&I)) {
                    o["ptr"] = val(s->getPointerOperand(), 0); rec(const_cast<Value *>(s->getPointerOperand()), o); o["val"] = val(s->getValueOperand(), 0); if (s->isVolatile()) o["vol"] = true; if (s->isAtomic()) o["atomic"] = (int64_t)s->getOrdering();
                    o["size"] = (int64_t)DL.getTypeStoreSize(s->getValueOperand()->getType()).getFixedValue();
                    { std::string t; raw_string_ostream os(t); s->getValueOperand()->getType()->print(os); o["vty"] = t; }
                } else if (auto *cb = dyn_cast<CallBase>(&I)) {
                    o["callee"] = val(cb->getCalledOperand(), 0);
                    if (auto *cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) {
                        o["fn"] = cf->getName().str(); o["dem"] = dem(cf);
                        if (auto *ii = dyn_cast<IntrinsicInst>(cb)) o["intr"] = Intrinsic::getBaseName(ii->getIntrinsicID()).str();
                        o["decl"] = cf->isDeclaration();
                        o["onlyread"] = cf->onlyReadsMemory() || cb->onlyReadsMemory();
                        o["nomem"] = cf->doesNotAccessMemory() || cb->doesNotAccessMemory();
                    }
                    json::Array a; for (auto &u : cb->args()) a.push_back(val(u.get(), 0));
                    json::Array at, ro;
                    for (unsigned k = 0; k < cb->arg_size(); ++k) {
                        std::string s;
                        if (cb->paramHasAttr(k, Attribute::StructRet)) s = "sret";
                        else if (cb->paramHasAttr(k, Attribute::SExt)) s = "sext";
                        else if (cb->paramHasAttr(k, Attribute::ZExt)) s = "zext";
                        at.push_back(s);
                        if (cb->paramHasAttr(k, Attribute::ReadOnly) || cb->paramHasAttr(k, Attribute::ReadNone)) ro.push_back((int64_t)k);
                    }
                    if (!ro.empty()) o["ro"] = std::move(ro);
                    o["args"] = std::move(a); o["aattr"] = std::move(at);
                    if (cb->doesNotThrow()) o["nothrow"] = true;
                    if (cb->getType()->isPointerTy() && (cb->hasRetAttr(Attribute::NonNull) || cb->hasRetAttr(Attribute::Dereferenceable))) o["rnn"] = true;
                    if (cb->doesNotReturn()) o["noreturn"] = true;
                    if (auto *inv = dyn_cast<InvokeInst>(&I)) { json::Array s; s.push_back(bb[inv->getNormalDest()]); s.push_back(bb[inv->getUnwindDest()]); o["succ"] = std::move(s); }
                } else if (auto *br = dyn_cast<BranchInst>(&I)) {
                    json::Array s; for (unsigned k = 0; k < br->getNumSuccessors(); ++k) s.push_back(bb[br->getSuccessor(k)]);
                    o["succ"] = std::move(s); if (br->isConditional()) o["cond"] = val(br->getCondition(), 0);
                } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
                    json::Array s; s.push_back(bb[sw->getDefaultDest()]); json::Array cs; 
                    for (auto &c : sw->cases()) { s.push_back(bb[c.getCaseSuccessor()]); cs.push_back(c.getCaseValue()->getSExtValue()); }
                    o["succ"] = std::move(s); o["cases"] = std::move(cs); o["cond"] = val(sw->getCondition(), 0);
                } else if (auto *phi = dyn_cast<PHINode>(&I)) {
                    json::Array a; for (unsigned k = 0; k < phi->getNumIncomingValues(); ++k) { json::Array x; x.push_back(val(phi->getIncomingValue(k), 0)); x.push_back(bb[phi->getIncomingBlock(k)]); a.push_back(std::move(x)); }
                    o["in"] = std::move(a);
                } else if (auto *cmp = dyn_cast<CmpInst>(&I)) {
                    o["pred"] = CmpInst::getPredicateName(cmp->getPredicate()).str(); o["ops"] = ops({cmp->getOperand(0), cmp->getOperand(1)});
                } else if (auto *lp = dyn_cast<LandingPadInst>(&I)) {
                    o["cleanup"] = lp->isCleanup(); json::Array a;
                    for (unsigned k = 0; k < lp->getNumClauses(); ++k) { json::Object c; c["k"] = lp->isCatch(k) ? "catch" : "filter"; c["v"] = val(lp->getClause(k), 0); a.push_back(std::move(c)); }
                    o["clauses"] = std::move(a);
                } else if (auto *al = dyn_cast<AllocaInst>(&I)) {
                    { std::string t; raw_string_ostream os(t); al->getAllocatedType()->print(os); o["aty"] = t; }
                    if (!al->isStaticAlloca()) { o["dyn"] = true; }
                    o["n"] = val(al->getArraySize(), 0);
                    o["name"] = al->getName().str();
                } else if (auto *rmw = dyn_cast<AtomicRMWInst>(&I)) {
                    o["ptr"] = val(rmw->getPointerOperand(), 0); o["val"] = val(rmw->getValOperand(), 0); o["rmw"] = AtomicRMWInst::getOperationName(rmw->getOperation()).str(); o["atomic"] = (int64_t)rmw->getOrdering();
                } else if (auto *cx = dyn_cast<AtomicCmpXchgInst>(&I)) {
                    o["ptr"] = val(cx->getPointerOperand(), 0); o["ops"] = ops({cx->getCompareOperand(), cx->getNewValOperand()}); o["atomic"] = (int64_t)cx->getSuccessOrdering();
                } else if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
                    o["ops"] = ops({ev->getAggregateOperand()}); json::Array x; for (auto k : ev->indices()) x.push_back((int64_t)k); o["idx"] = std::move(x);
                } else {
                    json::Array a; for (auto &u : I.operands()) a.push_back(val(u.get(), 0)); o["ops"] = std::move(a);
                }
                insts.push_back(std::move(o));
            }
            blocks.push_back(std::move(insts));
        }
        fo["blocks"] = std::move(blocks);
        fns.push_back(std::move(fo));
    }
    out["functions"] = std::move(fns);
    if (cfg.getBoolean("globals").value_or(false)) {
        json::Array ga;
        for (auto &g : M->globals()) {
            if (g.getName().starts_with("llvm.")) continue;
            json::Object o; o["name"] = g.getName().str(); o["dem"] = demangle(g.getName().str());
            o["const"] = g.isConstant(); o["decl"] = g.isDeclaration(); o["local"] = g.hasLocalLinkage(); o["tls"] = g.isThreadLocal();
            o["size"] = g.getValueType()->isSized() ? (int64_t)DL.getTypeAllocSize(g.getValueType()).getFixedValue() : -1;
            { std::string t; raw_string_ostream os(t); g.getValueType()->print(os); o["ty"] = t; }
            SmallVector<DIGlobalVariableExpression *, 1> gv; g.getDebugInfo(gv);
            if (!gv.empty()) { o["file"] = diPath(gv[0]->getVariable()->getFile()); o["line"] = (int64_t)gv[0]->getVariable()->getLine(); }
            if (!g.isDeclaration() && g.hasInitializer()) {
                o["zeroinit"] = g.getInitializer()->isNullValue();
                if (auto *cds = dyn_cast<ConstantDataSequential>(g.getInitializer())) {
                    if (cds->isString() || cds->isCString()) { std::string s = cds->getRawDataValues().str(); bool ascii = true; for (char c : s) if ((unsigned char)c >= 0x80) ascii = false; if (ascii) o["str"] = s; }
                    if (cds->getNumElements() <= 4096 && cds->getElementType()->isIntegerTy()) { json::Array a; for (unsigned i = 0; i < cds->getNumElements(); ++i) a.push_back((int64_t)cds->getElementAsInteger(i)); o["ints"] = std::move(a); }
                } else if (auto *ci = dyn_cast<ConstantInt>(g.getInitializer())) { json::Array a; if (ci->getBitWidth() <= 64) a.push_back(ci->getSExtValue()); o["ints"] = std::move(a); }
            }
            ga.push_back(std::move(o));
        }
        out["globals"] = std::move(ga);
    }
    if (wantTypes) {
        DebugInfoFinder DIF; DIF.processModule(*M);
        for (auto *t : DIF.types()) if (auto *ct = dyn_cast<DICompositeType>(t))
            if (ct->getTag() == dwarf::DW_TAG_class_type || ct->getTag() == dwarf::DW_TAG_structure_type) noteType(ct);
        out["types"] = std::move(types);
    }
    out["callers"] = std::move(callers);
    out["inlined"] = nInlined; out["refused"] = nRefused;
    json::Array rf; for (auto *f : repoFns) rf.push_back(dem(f)); out["repo_functions"] = std::move(rf);
    std::error_code ec; raw_fd_ostream os(argv[3], ec);
    if (ec) { errs() << ec.message() << "\n"; return 3; }
    os << json::Value(std::move(out)) << "\n";
    return 0;
}
