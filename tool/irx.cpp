// irx: lower a bitcode module to an inlined, SSA-simplified form and dump it as JSON.
//
//   irx IN.bc OUT.json --prim FILE --roots FILE
//
// --prim  : one regex per line, matched (search) against demangled names; functions
//           that match become opaque primitives (their bodies are dropped).
// --roots : one regex per line; functions that match are analysis roots.
// Every other function is inlined into the roots.  invoke is lowered to call, so the
// dumped CFG has no exceptional edges (a throw ends in unreachable), unless --eh.
#include <llvm/ADT/MapVector.h>
#include <llvm/ADT/SmallPtrSet.h>
#include <llvm/Analysis/CGSCCPassManager.h>
#include <llvm/Analysis/LoopAnalysisManager.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/AlwaysInliner.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/Utils/LowerInvoke.h>
#include <algorithm>
#include <fstream>
#include <functional>
#include <map>
#include <regex>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static std::vector<std::regex> loadRegex(std::string const& path)
{
    std::vector<std::regex> v;
    std::ifstream in(path);
    std::string s;
    while(std::getline(in, s))
    {
        if(s.empty() || s[0] == '#' || s[0] == '!' || s[0] == '@' || s[0] == '%')
            continue;
        v.emplace_back(s, std::regex::optimize);
    }
    return v;
}
static bool any(std::vector<std::regex> const& v, std::string const& s)
{
    for(auto& r : v)
        if(std::regex_search(s, r))
            return true;
    return false;
}

static raw_ostream* O;
static void jstr(StringRef s)
{
    *O << '"';
    for(unsigned char c : s)
    {
        if(c == '"' || c == '\\')
            *O << '\\' << (char)c;
        else if(c < 0x20 || c > 0x7e)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            *O << b;
        }
        else
            *O << (char)c;
    }
    *O << '"';
}

static std::string tyStr(Type* t)
{
    std::string s;
    raw_string_ostream os(s);
    t->print(os, false, true);
    return os.str();
}

static std::map<std::string, std::string> demCache;
static std::string const& dem(std::string const& m)
{
    auto it = demCache.find(m);
    if(it == demCache.end())
        it = demCache.emplace(m, demangle(m)).first;
    return it->second;
}

// "Context::base" of a mangled function name: no return type, no parameters, no
// template arguments on the base name.
static std::map<std::string, std::string> qnCache;
static std::string const& qn(std::string const& m)
{
    auto it = qnCache.find(m);
    if(it != qnCache.end())
        return it->second;
    std::string r = m;
    ItaniumPartialDemangler d;
    if(!d.partialDemangle(m.c_str()) && d.isFunction())
    {
        char* c = d.getFunctionDeclContextName(nullptr, nullptr);
        char* b = d.getFunctionBaseName(nullptr, nullptr);
        std::string cs = c ? c : "", bs = b ? b : "";
        free(c);
        free(b);
        // only whole bases: strip template arguments that some ABIs keep
        if(bs.rfind("operator", 0) != 0)
        {
            auto p = bs.find('<');
            if(p != std::string::npos && p != 0)
                bs.resize(p);
        }
        r = cs.empty() ? bs : cs + "::" + bs;
    }
    return qnCache.emplace(m, r).first->second;
}

struct Dumper
{
    Module& M;
    DataLayout const& DL;
    std::map<Value const*, int> id;
    std::map<std::vector<std::string>, int> locIds;
    std::vector<std::vector<std::string>> locs;
    std::set<GlobalVariable const*> usedGlobals;
    explicit Dumper(Module& m) : M(m), DL(m.getDataLayout()) {}

    int loc(DebugLoc const& d)
    {
        if(!d)
            return -1;
        std::vector<std::string> v;
        for(DILocation const* l = d.get(); l; l = l->getInlinedAt())
        {
            auto* sc = l->getScope();
            std::string fn;
            if(auto* sp = sc->getSubprogram())
                fn = sp->getLinkageName().empty() ? sp->getName().str()
                    : dem(sp->getLinkageName().str());
            v.push_back(l->getFilename().str() + ":" +
                std::to_string(l->getLine()) + "|" + fn);
        }
        auto it = locIds.find(v);
        if(it != locIds.end())
            return it->second;
        int n = (int)locs.size();
        locs.push_back(v);
        locIds.emplace(v, n);
        return n;
    }

    void opnd(Value const* v)
    {
        if(auto* c = dyn_cast<ConstantInt>(v))
        {
            *O << "{\"k\":\"c\",\"v\":";
            SmallString<32> s;
            c->getValue().toStringUnsigned(s);
            *O << s << ",\"w\":" << c->getBitWidth() << "}";
            return;
        }
        if(isa<ConstantPointerNull>(v))
        {
            *O << "{\"k\":\"c\",\"v\":0,\"w\":64}";
            return;
        }
        if(isa<UndefValue>(v))
        {
            *O << "{\"k\":\"undef\"}";
            return;
        }
        if(auto* f = dyn_cast<ConstantFP>(v))
        {
            SmallString<32> s;
            f->getValueAPF().toString(s);
            *O << "{\"k\":\"fp\",\"v\":\"" << s << "\"}";
            return;
        }
        if(auto* f = dyn_cast<Function>(v))
        {
            *O << "{\"k\":\"fn\",\"v\":";
            jstr(f->getName());
            *O << ",\"dem\":";
            jstr(dem(f->getName().str()));
            *O << "}";
            return;
        }
        if(auto* g = dyn_cast<GlobalVariable>(v))
        {
            usedGlobals.insert(g);
            *O << "{\"k\":\"g\",\"v\":";
            jstr(g->getName());
            *O << ",\"off\":0}";
            return;
        }
        if(auto* ce = dyn_cast<ConstantExpr>(v))
        {
            if(ce->getOpcode() == Instruction::GetElementPtr)
            {
                APInt off(64, 0);
                auto* gep = cast<GEPOperator>(ce);
                if(gep->accumulateConstantOffset(DL, off))
                    if(auto* g = dyn_cast<GlobalVariable>(
                           gep->getPointerOperand()))
                    {
                        usedGlobals.insert(g);
                        *O << "{\"k\":\"g\",\"v\":";
                        jstr(g->getName());
                        *O << ",\"off\":" << off.getSExtValue() << "}";
                        return;
                    }
            }
            *O << "{\"k\":\"ce\",\"v\":";
            std::string s;
            raw_string_ostream os(s);
            ce->print(os);
            jstr(os.str());
            *O << "}";
            return;
        }
        if(auto* ca = dyn_cast<Constant>(v))
        {
            if(ca->isNullValue())
            {
                *O << "{\"k\":\"zero\"}";
                return;
            }
            *O << "{\"k\":\"const\",\"v\":";
            std::string s;
            raw_string_ostream os(s);
            ca->print(os);
            jstr(os.str());
            *O << "}";
            return;
        }
        auto it = id.find(v);
        if(it != id.end())
        {
            *O << "{\"k\":\"v\",\"v\":" << it->second << "}";
            return;
        }
        if(isa<MetadataAsValue>(v))
        {
            *O << "{\"k\":\"md\"}";
            return;
        }
        *O << "{\"k\":\"?\"}";
    }

    void fn(Function& F)
    {
        id.clear();
        int n = 0;
        for(auto& a : F.args())
            id[&a] = n++;
        std::map<BasicBlock const*, int> bid;
        int bn = 0;
        for(auto& B : F)
        {
            bid[&B] = bn++;
            for(auto& I : B)
                id[&I] = n++;
        }
        *O << "{\"name\":";
        jstr(F.getName());
        *O << ",\"dem\":";
        jstr(dem(F.getName().str()));
        *O << ",\"qn\":";
        jstr(qn(F.getName().str()));
        if(auto* sp = F.getSubprogram())
        {
            *O << ",\"file\":";
            jstr(sp->getFilename());
            *O << ",\"line\":" << sp->getLine();
        }
        *O << ",\"ret\":";
        jstr(tyStr(F.getReturnType()));
        *O << ",\"args\":[";
        bool first = true;
        for(auto& a : F.args())
        {
            if(!first)
                *O << ",";
            first = false;
            *O << "{\"id\":" << id[&a] << ",\"ty\":";
            jstr(tyStr(a.getType()));
            *O << ",\"name\":";
            // debug name of the argument, if any
            std::string nm = a.getName().str();
            jstr(nm);
            if(a.hasStructRetAttr())
                *O << ",\"sret\":true";
            *O << "}";
        }
        *O << "],\"blocks\":[\n";
        first = true;
        for(auto& B : F)
        {
            if(!first)
                *O << ",\n";
            first = false;
            *O << "{\"id\":" << bid[&B] << ",\"i\":[";
            bool fi = true;
            for(auto& I : B)
            {
                if(isa<DbgInfoIntrinsic>(I))
                    continue;
                if(auto* ii = dyn_cast<IntrinsicInst>(&I))
                {
                    auto iid = ii->getIntrinsicID();
                    if(iid == Intrinsic::assume ||
                        iid == Intrinsic::experimental_noalias_scope_decl)
                        continue;
                }
                if(!fi)
                    *O << ",\n ";
                fi = false;
                *O << "{\"id\":" << id[&I] << ",\"op\":\""
                   << I.getOpcodeName() << "\",\"ty\":";
                jstr(tyStr(I.getType()));
                int l = loc(I.getDebugLoc());
                if(l >= 0)
                    *O << ",\"loc\":" << l;
                if(auto* p = dyn_cast<PHINode>(&I))
                {
                    *O << ",\"in\":[";
                    for(unsigned k = 0; k < p->getNumIncomingValues(); ++k)
                    {
                        if(k)
                            *O << ",";
                        *O << "[" << bid[p->getIncomingBlock(k)] << ",";
                        opnd(p->getIncomingValue(k));
                        *O << "]";
                    }
                    *O << "]}";
                    continue;
                }
                if(auto* g = dyn_cast<GetElementPtrInst>(&I))
                {
                    MapVector<Value*, APInt> var;
                    APInt off(64, 0);
                    bool ok = cast<GEPOperator>(g)->collectOffset(
                        DL, 64, var, off);
                    *O << ",\"base\":";
                    opnd(g->getPointerOperand());
                    *O << ",\"ok\":" << (ok ? "true" : "false")
                       << ",\"off\":" << off.getSExtValue() << ",\"var\":[";
                    bool f2 = true;
                    for(auto& kv : var)
                    {
                        if(!f2)
                            *O << ",";
                        f2 = false;
                        *O << "[";
                        opnd(kv.first);
                        *O << "," << kv.second.getSExtValue() << "]";
                    }
                    *O << "],\"sty\":";
                    jstr(tyStr(g->getSourceElementType()));
                    *O << "}";
                    continue;
                }
                if(auto* a = dyn_cast<AllocaInst>(&I))
                {
                    auto sz = a->getAllocationSize(DL);
                    *O << ",\"aty\":";
                    jstr(tyStr(a->getAllocatedType()));
                    *O << ",\"size\":"
                       << (sz ? (int64_t)sz->getFixedValue() : -1);
                    *O << ",\"nm\":";
                    jstr(a->getName());
                    *O << "}";
                    continue;
                }
                if(auto* c = dyn_cast<CallBase>(&I))
                {
                    *O << ",\"callee\":";
                    if(auto* f = dyn_cast<Function>(
                           c->getCalledOperand()->stripPointerCasts()))
                    {
                        jstr(f->getName());
                        *O << ",\"dem\":";
                        jstr(dem(f->getName().str()));
                        *O << ",\"qn\":";
                        jstr(qn(f->getName().str()));
                        if(f->doesNotReturn() || c->doesNotReturn())
                            *O << ",\"noret\":true";
                    }
                    else
                    {
                        *O << "null,\"target\":";
                        opnd(c->getCalledOperand());
                    }
                    if(isa<InvokeInst>(&I))
                    {
                        auto* v = cast<InvokeInst>(&I);
                        *O << ",\"normal\":" << bid[v->getNormalDest()]
                           << ",\"unwind\":" << bid[v->getUnwindDest()];
                    }
                    *O << ",\"a\":[";
                    bool f2 = true;
                    for(auto& a : c->args())
                    {
                        if(!f2)
                            *O << ",";
                        f2 = false;
                        opnd(a.get());
                    }
                    *O << "]";
                    bool sret = c->arg_size() &&
                        c->paramHasAttr(0, Attribute::StructRet);
                    if(sret)
                        *O << ",\"sret\":true";
                    *O << "}";
                    continue;
                }
                if(auto* b = dyn_cast<BranchInst>(&I))
                {
                    *O << ",\"succ\":[";
                    for(unsigned k = 0; k < b->getNumSuccessors(); ++k)
                        *O << (k ? "," : "") << bid[b->getSuccessor(k)];
                    *O << "]";
                    if(b->isConditional())
                    {
                        *O << ",\"cond\":";
                        opnd(b->getCondition());
                    }
                    *O << "}";
                    continue;
                }
                if(auto* s = dyn_cast<SwitchInst>(&I))
                {
                    *O << ",\"cond\":";
                    opnd(s->getCondition());
                    *O << ",\"def\":" << bid[s->getDefaultDest()]
                       << ",\"cases\":[";
                    bool f2 = true;
                    for(auto& cs : s->cases())
                    {
                        if(!f2)
                            *O << ",";
                        f2 = false;
                        SmallString<32> t;
                        cs.getCaseValue()->getValue().toStringUnsigned(t);
                        *O << "[" << t << ","
                           << bid[cs.getCaseSuccessor()] << "]";
                    }
                    *O << "]}";
                    continue;
                }
                if(auto* c = dyn_cast<CmpInst>(&I))
                    *O << ",\"pred\":\""
                       << CmpInst::getPredicateName(c->getPredicate()).str()
                       << "\"";
                if(auto* ev = dyn_cast<ExtractValueInst>(&I))
                {
                    *O << ",\"idx\":[";
                    for(unsigned k = 0; k < ev->getNumIndices(); ++k)
                        *O << (k ? "," : "") << ev->getIndices()[k];
                    *O << "]";
                }
                if(auto* iv = dyn_cast<InsertValueInst>(&I))
                {
                    *O << ",\"idx\":[";
                    for(unsigned k = 0; k < iv->getNumIndices(); ++k)
                        *O << (k ? "," : "") << iv->getIndices()[k];
                    *O << "]";
                }
                if(auto* ld = dyn_cast<LoadInst>(&I))
                {
                    *O << ",\"size\":"
                       << DL.getTypeStoreSize(ld->getType()).getFixedValue();
                    *O << ",\"align\":" << ld->getAlign().value();
                    if(ld->isAtomic())
                        *O << ",\"atomic\":true";
                }
                if(auto* st = dyn_cast<StoreInst>(&I))
                {
                    *O << ",\"size\":"
                       << DL.getTypeStoreSize(
                              st->getValueOperand()->getType())
                              .getFixedValue();
                    *O << ",\"vty\":";
                    jstr(tyStr(st->getValueOperand()->getType()));
                    if(st->isAtomic())
                        *O << ",\"atomic\":true";
                }
                *O << ",\"a\":[";
                bool f2 = true;
                for(auto& a : I.operands())
                {
                    if(isa<BasicBlock>(a.get()))
                        continue;
                    if(!f2)
                        *O << ",";
                    f2 = false;
                    opnd(a.get());
                }
                *O << "]}";
            }
            *O << "]}";
        }
        *O << "\n]}";
    }

    void types()
    {
        DebugInfoFinder finder;
        finder.processModule(M);
        bool first = true;
        std::set<DICompositeType const*> seen;
        *O << "\"types\":[";
        for(auto* t : finder.types())
        {
            auto* c = dyn_cast<DICompositeType>(t);
            if(!c || c->isForwardDecl() || !seen.insert(c).second)
                continue;
            if(c->getTag() != dwarf::DW_TAG_structure_type &&
                c->getTag() != dwarf::DW_TAG_class_type &&
                c->getTag() != dwarf::DW_TAG_union_type &&
                c->getTag() != dwarf::DW_TAG_enumeration_type)
                continue;
            std::string name = c->getIdentifier().empty() ?
                c->getName().str() : dem(c->getIdentifier().str());
            if(!first)
                *O << ",\n";
            first = false;
            *O << "{\"name\":";
            jstr(name);
            *O << ",\"short\":";
            jstr(c->getName());
            *O << ",\"scope\":";
            std::string sc;
            for(auto* s = c->getScope(); s; s = s->getScope())
                if(!s->getName().empty())
                    sc = s->getName().str() + (sc.empty() ? "" : "::" + sc);
            jstr(sc);
            *O << ",\"size\":" << c->getSizeInBits() / 8 << ",\"m\":[";
            bool f2 = true;
            for(auto* e : c->getElements())
            {
                if(auto* en = dyn_cast<DIEnumerator>(e))
                {
                    if(!f2)
                        *O << ",";
                    f2 = false;
                    *O << "{\"enum\":";
                    jstr(en->getName());
                    SmallString<32> s;
                    en->getValue().toStringSigned(s);
                    *O << ",\"v\":" << s << "}";
                    continue;
                }
                auto* d = dyn_cast<DIDerivedType>(e);
                if(!d)
                    continue;
                if(d->getTag() != dwarf::DW_TAG_member &&
                    d->getTag() != dwarf::DW_TAG_inheritance)
                    continue;
                if(d->isStaticMember())
                    continue;
                if(!f2)
                    *O << ",";
                f2 = false;
                std::string tn, tid;
                auto* bt = d->getBaseType();
                uint64_t sz = bt ? bt->getSizeInBits() / 8 : 0;
                while(auto* dd = dyn_cast_or_null<DIDerivedType>(bt))
                {
                    if(dd->getTag() == dwarf::DW_TAG_pointer_type ||
                        dd->getTag() == dwarf::DW_TAG_reference_type)
                    {
                        tn += "*";
                        sz = 8;
                    }
                    else if(sz == 0)
                        sz = dd->getSizeInBits() / 8;
                    bt = dd->getBaseType();
                }
                if(sz == 0 && bt)
                    sz = bt->getSizeInBits() / 8;
                if(bt)
                {
                    if(auto* bc = dyn_cast<DICompositeType>(bt))
                        tid = bc->getIdentifier().empty() ?
                            bc->getName().str() : dem(bc->getIdentifier().str());
                    else
                        tid = bt->getName().str();
                }
                *O << "{\"n\":";
                jstr(d->getName());
                *O << ",\"off\":" << d->getOffsetInBits() / 8
                   << ",\"size\":" << sz << ",\"t\":";
                jstr(tn + tid);
                if(d->getTag() == dwarf::DW_TAG_inheritance)
                    *O << ",\"base\":true";
                *O << "}";
            }
            *O << "]}";
        }
        *O << "]";
    }
};

int main(int argc, char** argv)
{
    std::string in, out, prim, roots;
    bool eh = false, raw = false, unroll = false;
    for(int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        if(a == "--prim")
            prim = argv[++i];
        else if(a == "--roots")
            roots = argv[++i];
        else if(a == "--eh")
            eh = true;
        else if(a == "--raw")
            raw = true;
        else if(a == "--unroll")
            unroll = true;
        else if(in.empty())
            in = a;
        else
            out = a;
    }
    LLVMContext ctx;
    SMDiagnostic err;
    auto M = parseIRFile(in, err, ctx);
    if(!M)
    {
        err.print("irx", errs());
        return 2;
    }
    auto P = loadRegex(prim);
    auto R = loadRegex(roots);
    // lines "!regex" in the roots file: demangled names that are not roots
    std::vector<std::regex> X;
    {
        std::ifstream f(roots);
        std::string l;
        while(std::getline(f, l))
            if(!l.empty() && l[0] == '!')
                X.emplace_back(l.substr(1), std::regex::optimize);
    }

    // primitives file: "@regex" matches full demangled names; "%regex" names functions
    // whose result depends on their arguments only (container end sentinels)
    std::vector<std::regex> PF, PU;
    {
        std::ifstream f(prim);
        std::string l;
        while(std::getline(f, l))
            if(!l.empty() && l[0] == '@')
                PF.emplace_back(l.substr(1), std::regex::optimize);
            else if(!l.empty() && l[0] == '%')
                PU.emplace_back(l.substr(1), std::regex::optimize);
    }
    for(auto& F : *M)
        if(any(PU, qn(F.getName().str())))
        {
            F.setDoesNotAccessMemory();
            F.setDoesNotThrow();
            F.setWillReturn();
        }

    // constructor/destructor aliases: use the aliasee
    for(auto& A : llvm::make_early_inc_range(M->aliases()))
    {
        auto* t = A.getAliaseeObject();
        if(!t)
            continue;
        A.replaceAllUsesWith(t);
        A.eraseFromParent();
    }
    std::vector<Function*> rootFns;
    int inlined = 0, prims = 0;
    // global constructors and unused externals are irrelevant here
    for(auto& F : *M)
    {
        F.removeFnAttr(Attribute::OptimizeNone);
        F.removeFnAttr(Attribute::NoInline);
        F.removeFnAttr(Attribute::AlwaysInline);
        if(F.isDeclaration())
            continue;
        auto const& d = qn(F.getName().str());
        F.setComdat(nullptr);
        if(any(R, d) && !(any(X, dem(F.getName().str()))))
        {
            F.addFnAttr(Attribute::NoInline);
            F.setLinkage(GlobalValue::ExternalLinkage);
            rootFns.push_back(&F);
            continue;
        }
        if(any(P, d) || (!PF.empty() && any(PF, dem(F.getName().str()))))
        {
            F.deleteBody();
            ++prims;
            continue;
        }
        F.addFnAttr(Attribute::AlwaysInline);
        F.setLinkage(GlobalValue::InternalLinkage);
        ++inlined;
    }
    for(auto& G : M->globals())
        if(!G.isDeclaration() && G.getName() != "llvm.global_ctors")
        {
            G.setComdat(nullptr);
            if(!G.hasAppendingLinkage())
                G.setLinkage(GlobalValue::InternalLinkage);
        }
    if(auto* gc = M->getGlobalVariable("llvm.global_ctors"))
        gc->eraseFromParent();
    for(auto nm : {"llvm.used", "llvm.compiler.used"})
        if(auto* g = M->getGlobalVariable(nm))
            g->eraseFromParent();

    // the compiler's own optimisation level asks for loops not to be unrolled
    if(unroll)
        for(auto& F : *M)
            for(auto& B : F)
                if(auto* t = B.getTerminator())
                    t->setMetadata(LLVMContext::MD_loop, nullptr);

    LoopAnalysisManager LAM;
    FunctionAnalysisManager FAM;
    CGSCCAnalysisManager CGAM;
    ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM);
    PB.registerCGSCCAnalyses(CGAM);
    PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    std::string pipe;
    if(!eh)
        pipe += "function(lowerinvoke,simplifycfg),";
    pipe += "globaldce,function(sroa),always-inline,globaldce";
    if(!raw)
        pipe += ",function(sroa,early-cse<memssa>,simplifycfg,instsimplify,"
                "sroa,early-cse<memssa>,simplifycfg,instsimplify,"
                "gvn<no-pre;no-load-pre;no-split-backedge-load-pre>,"
                "sroa,early-cse<memssa>,simplifycfg,instsimplify,sccp,simplifycfg,adce,simplifycfg)";
    if(unroll)
        pipe += ",function(loop(loop-rotate,loop-unroll-full),"
                "sroa,early-cse<memssa>,simplifycfg,instsimplify,"
                "gvn<no-pre;no-load-pre;no-split-backedge-load-pre>,"
                "sroa,early-cse<memssa>,simplifycfg,instsimplify,sccp,simplifycfg,adce,simplifycfg)";
    ModulePassManager MPM;
    if(auto e = PB.parsePassPipeline(MPM, pipe))
    {
        errs() << "pipeline: " << toString(std::move(e)) << "\n";
        return 2;
    }
    MPM.run(*M, MAM);

    std::error_code ec;
    raw_fd_ostream os(out, ec);
    if(ec)
    {
        errs() << ec.message() << "\n";
        return 2;
    }
    O = &os;
    Dumper D(*M);
    os << "{\"stats\":{\"inlined\":" << inlined << ",\"prims\":" << prims
       << "},\n\"functions\":[\n";
    bool first = true;
    for(auto& F : *M)
    {
        if(F.isDeclaration())
            continue;
        if(!first)
            os << ",\n";
        first = false;
        D.fn(F);
    }
    os << "],\n\"locs\":[";
    for(size_t i = 0; i < D.locs.size(); ++i)
    {
        os << (i ? ",\n[" : "[");
        for(size_t k = 0; k < D.locs[i].size(); ++k)
        {
            if(k)
                os << ",";
            jstr(D.locs[i][k]);
        }
        os << "]";
    }
    os << "],\n\"globals\":{";
    first = true;
    for(auto* g : D.usedGlobals)
    {
        if(!first)
            os << ",\n";
        first = false;
        jstr(g->getName());
        os << ":";
        os << "{\"dem\":";
        jstr(dem(g->getName().str()));
        os << ",\"const\":" << (g->isConstant() ? "true" : "false");
        if(g->hasInitializer())
            if(auto* cd = dyn_cast<ConstantDataSequential>(g->getInitializer()))
            {
                os << ",\"ew\":" << cd->getElementByteSize() << ",\"data\":[";
                if(cd->getElementType()->isIntegerTy())
                    for(unsigned k = 0; k < cd->getNumElements(); ++k)
                        os << (k ? "," : "") << cd->getElementAsInteger(k);
                os << "]";
            }
        os << "}";
    }
    os << "},\n";
    D.types();
    os << "}\n";
    return 0;
}
