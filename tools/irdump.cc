// irdump: normalise LLVM bitcode (helper inlining, SSA promotion, full unrolling
// of constant loops) and dump it as JSON for the Python analyses in /verif/wra.
// Nothing here executes the analysed program.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/Regex.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Analysis/InlineCost.h"
#include "llvm/Support/CommandLine.h"
#include <map>
#include <set>
#include <unordered_map>
using namespace llvm;

static std::string dem(StringRef n) { return demangle(n.str()); }

static std::string typeStr(Type* t)
{
    if (auto st = dyn_cast<StructType>(t))
        if (st->hasName()) return "%" + st->getName().str();
    std::string s; raw_string_ostream os(s); t->print(os); return os.str();
}

static std::map<const Value*, int> ids;
static std::map<const BasicBlock*, int> bids;
static const DataLayout* DL;

static std::string opStr(const Value* v)
{
    if (auto i = dyn_cast<Instruction>(v)) return "%" + std::to_string(ids[i]);
    if (auto a = dyn_cast<Argument>(v)) return "$" + std::to_string(a->getArgNo());
    if (auto c = dyn_cast<ConstantInt>(v)) {
        SmallString<32> s; c->getValue().toStringSigned(s); return "#" + s.str().str();
    }
    if (auto f = dyn_cast<ConstantFP>(v)) {
        SmallString<64> s;
        APFloat ap = f->getValueAPF();
        if (&ap.getSemantics() != &APFloat::IEEEdouble()) { bool l; ap.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l); }
        char buf[64]; snprintf(buf, 64, "%.17g", ap.convertToDouble());
        return std::string("F") + buf;
    }
    if (isa<ConstantPointerNull>(v)) return "null";
    if (isa<UndefValue>(v)) return "undef";
    if (auto g = dyn_cast<GlobalValue>(v)) return "@" + g->getName().str();
    if (auto ce = dyn_cast<ConstantExpr>(v)) {
        APInt off(64, 0);
        if (ce->getType()->isPointerTy()) {
            const Value* b = ce->stripAndAccumulateConstantOffsets(*DL, off, true);
            if (b != ce && isa<GlobalValue>(b)) {
                auto o = off.getSExtValue();
                return o ? "@" + b->getName().str() + "+" + std::to_string(o) : "@" + b->getName().str();
            }
        }
        std::string s; raw_string_ostream os(s); ce->print(os); return "?" + os.str();
    }
    if (isa<ConstantAggregateZero>(v)) return "zero";
    if (auto b = dyn_cast<BasicBlock>(v)) return "B" + std::to_string(bids[b]);
    std::string s; raw_string_ostream os(s); v->printAsOperand(os, false); return "?" + os.str();
}

static json::Value constJson(const Constant* c, int depth = 0)
{
    if (depth > 6) return "...";
    if (auto cs = dyn_cast<ConstantDataSequential>(c)) {
        if (cs->isString()) {
            std::string raw = cs->getAsString().str();
            bool ascii = true;
            for (unsigned char ch : raw) if (ch >= 0x80) ascii = false;
            if (ascii) return json::Object{{"str", raw}};
        }
        json::Array a;
        for (unsigned i = 0; i < cs->getNumElements() && i < 4096; ++i) a.push_back(constJson(cs->getElementAsConstant(i), depth + 1));
        return a;
    }
    if (isa<ConstantStruct>(c) || isa<ConstantArray>(c)) {
        json::Array a;
        for (unsigned i = 0; i < c->getNumOperands(); ++i) a.push_back(constJson(cast<Constant>(c->getOperand(i)), depth + 1));
        return a;
    }
    return opStr(c);
}

// leaves of an aggregate constant: [offset, size, value]
static bool flat(const Constant* c, uint64_t off, json::Array& out)
{
    if (out.size() > 8192) return false;
    Type* t = c->getType();
    uint64_t size = DL->getTypeStoreSize(t);
    if (t->isAggregateType()) {
        if (c->isNullValue()) { out.push_back(json::Array{(int64_t)off, (int64_t)size, "zero"}); return true; }
        if (auto st = dyn_cast<StructType>(t)) {
            auto sl = DL->getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); ++i) {
                auto e = c->getAggregateElement(i);
                if (!e || !flat(e, off + sl->getElementOffset(i), out)) return false;
            }
            return true;
        }
        if (auto at = dyn_cast<ArrayType>(t)) {
            uint64_t es = DL->getTypeAllocSize(at->getElementType());
            for (uint64_t i = 0; i < at->getNumElements(); ++i) {
                auto e = c->getAggregateElement(i);
                if (!e || !flat(e, off + i * es, out)) return false;
            }
            return true;
        }
        return false;
    }
    out.push_back(json::Array{(int64_t)off, (int64_t)size, opStr(c)});
    return true;
}

static json::Value locJson(const DILocation* l)
{
    // innermost file:line and, when inlined, the outermost too
    json::Array a;
    for (; l; l = l->getInlinedAt()) {
        std::string fn;
        if (auto sp = l->getScope()->getSubprogram()) fn = sp->getName().str();
        a.push_back(l->getFilename().str() + ":" + std::to_string(l->getLine()) + ":" + fn);
        if (a.size() > 8) break;
    }
    return a;
}

// memory of the translation unit that is read and never written, nor handed out
static bool onlyRead(const Value* v)
{
    for (auto u : v->users())
    {
        if (isa<LoadInst>(u)) continue;
        if (auto g = dyn_cast<GEPOperator>(u)) { if (onlyRead(g)) continue; }
        return false;
    }
    return true;
}

static json::Object dumpInstr(const Instruction& I)
{
    json::Object o;
    o["id"] = ids[&I];
    o["op"] = I.getOpcodeName();
    o["ty"] = typeStr(I.getType());
    if (I.getDebugLoc()) o["l"] = locJson(I.getDebugLoc().get());
    if (I.hasName()) o["n"] = I.getName().str();
    json::Array a;
    auto all = [&]() { for (auto& u : I.operands()) a.push_back(opStr(u)); };
    if (auto g = dyn_cast<GetElementPtrInst>(&I)) {
        a.push_back(opStr(g->getPointerOperand()));
        json::Array path;
        APInt off(64, 0);
        bool isconst = g->accumulateConstantOffset(*DL, off);
        if (isconst) o["off"] = off.getSExtValue();
        for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
            if (auto st = gi.getStructTypeOrNull()) {
                unsigned idx = cast<ConstantInt>(gi.getOperand())->getZExtValue();
                path.push_back(json::Array{"f", typeStr(st), (int64_t)idx, (int64_t)DL->getStructLayout(st)->getElementOffset(idx)});
            } else {
                path.push_back(json::Array{"x", opStr(gi.getOperand()), (int64_t)DL->getTypeAllocSize(gi.getIndexedType()).getFixedValue()});
                a.push_back(opStr(gi.getOperand()));
            }
        }
        o["path"] = std::move(path);
        o["src"] = typeStr(g->getSourceElementType());
        o["ib"] = g->isInBounds();
    } else if (auto c = dyn_cast<CallBase>(&I)) {
        for (auto& u : c->args()) a.push_back(opStr(u));
        if (auto f = c->getCalledFunction()) { o["fn"] = f->getName().str(); o["fd"] = dem(f->getName()); }
        else o["callee"] = opStr(c->getCalledOperand());
        if (c->doesNotReturn()) o["noreturn"] = true;
        if (c->doesNotThrow()) o["nounwind"] = true;
        json::Array at;
        for (auto& u : c->args()) at.push_back(typeStr(u->getType()));
        o["aty"] = std::move(at);
        for (unsigned i = 0; i < c->arg_size(); ++i)
            if (c->isByValArgument(i) || c->paramHasAttr(i, Attribute::StructRet)) o["sret"] = (int64_t)i;
        if (auto inv = dyn_cast<InvokeInst>(&I)) {
            o["normal"] = bids[inv->getNormalDest()];
            o["unwind"] = bids[inv->getUnwindDest()];
        }
        if (auto ii = dyn_cast<IntrinsicInst>(&I)) {
            // metadata operand of llvm.type.test
            if (ii->getCalledFunction()->getName().starts_with("llvm.type.test"))
                if (auto mv = dyn_cast<MetadataAsValue>(c->getArgOperand(1)))
                    if (auto ms = dyn_cast<MDString>(mv->getMetadata())) o["md"] = ms->getString().str();
        }
    } else if (auto p = dyn_cast<PHINode>(&I)) {
        json::Array inc;
        for (unsigned i = 0; i < p->getNumIncomingValues(); ++i)
            inc.push_back(json::Array{opStr(p->getIncomingValue(i)), bids[p->getIncomingBlock(i)]});
        o["inc"] = std::move(inc);
    } else if (auto b = dyn_cast<BranchInst>(&I)) {
        if (b->isConditional()) a.push_back(opStr(b->getCondition()));
        json::Array t;
        for (unsigned i = 0; i < b->getNumSuccessors(); ++i) t.push_back(bids[b->getSuccessor(i)]);
        o["t"] = std::move(t);
    } else if (auto s = dyn_cast<SwitchInst>(&I)) {
        a.push_back(opStr(s->getCondition()));
        o["def"] = bids[s->getDefaultDest()];
        json::Array cs;
        for (auto& c : s->cases()) cs.push_back(json::Array{c.getCaseValue()->getSExtValue(), bids[c.getCaseSuccessor()]});
        o["cases"] = std::move(cs);
        o["ty"] = typeStr(s->getCondition()->getType());
    } else if (auto lp = dyn_cast<LandingPadInst>(&I)) {
        json::Array cl;
        for (unsigned i = 0; i < lp->getNumClauses(); ++i)
            cl.push_back(std::string(lp->isCatch(i) ? "catch " : "filter ") + opStr(lp->getClause(i)));
        o["clauses"] = std::move(cl);
        o["cleanup"] = lp->isCleanup();
    } else if (auto al = dyn_cast<AllocaInst>(&I)) {
        o["aty"] = typeStr(al->getAllocatedType());
        o["asz"] = (int64_t)DL->getTypeAllocSize(al->getAllocatedType()).getFixedValue();
        all();
    } else if (auto ci = dyn_cast<CmpInst>(&I)) {
        o["pred"] = CmpInst::getPredicateName(ci->getPredicate()).str();
        o["oty"] = typeStr(ci->getOperand(0)->getType());
        all();
    } else if (auto ca = dyn_cast<CastInst>(&I)) {
        o["from"] = typeStr(ca->getSrcTy());
        all();
    } else if (auto st = dyn_cast<StoreInst>(&I)) {
        o["oty"] = typeStr(st->getValueOperand()->getType());
        all();
    } else if (auto ev = dyn_cast<ExtractValueInst>(&I)) {
        json::Array ix; for (auto x : ev->indices()) ix.push_back((int64_t)x);
        o["idx"] = std::move(ix); all();
    } else if (auto iv = dyn_cast<InsertValueInst>(&I)) {
        json::Array ix; for (auto x : iv->indices()) ix.push_back((int64_t)x);
        o["idx"] = std::move(ix); all();
    } else
        all();
    if (auto bo = dyn_cast<OverflowingBinaryOperator>(&I)) {
        if (bo->hasNoUnsignedWrap()) o["nuw"] = true;
        if (bo->hasNoSignedWrap()) o["nsw"] = true;
    }
    if (!a.empty()) o["a"] = std::move(a);
    return o;
}

static json::Object dumpFunction(const Function& F, StringRef origName)
{
    json::Object o;
    o["name"] = origName.str();
    o["dem"] = dem(origName);
    if (auto sp = F.getSubprogram()) { o["file"] = sp->getFilename().str(); o["line"] = (int64_t)sp->getLine();
        auto fl = (sp->getDeclaration() ? sp->getDeclaration() : sp)->getFlags() & DINode::FlagAccessibility;
        o["acc"] = fl == DINode::FlagPublic ? "public" : fl == DINode::FlagProtected ? "protected" : fl == DINode::FlagPrivate ? "private" : "default"; }
    ids.clear(); bids.clear();
    int n = 0, b = 0;
    for (auto& B : F) { bids[&B] = b++; for (auto& I : B) ids[&I] = n++; }
    json::Array args;
    for (auto& A : F.args()) {
        json::Object ao{{"ty", typeStr(A.getType())}, {"n", A.getName().str()}};
        if (A.hasStructRetAttr()) ao["sret"] = true;
        args.push_back(std::move(ao));
    }
    o["args"] = std::move(args);
    o["ret"] = typeStr(F.getReturnType());
    o["nounwind"] = F.doesNotThrow();
    o["linkage"] = (int64_t)F.getLinkage();
    json::Array blocks;
    for (auto& B : F) {
        json::Array ins;
        for (auto& I : B) {
            if (isa<DbgInfoIntrinsic>(I)) continue;
            if (auto ii = dyn_cast<IntrinsicInst>(&I)) {
                auto id = ii->getIntrinsicID();
                if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume) { }
            }
            ins.push_back(dumpInstr(I));
        }
        json::Object bo{{"id", bids[&B]}, {"i", std::move(ins)}};
        if (B.hasName()) bo["n"] = B.getName().str();
        blocks.push_back(std::move(bo));
    }
    o["blocks"] = std::move(blocks);
    return o;
}

static std::string diQual(const DIScope* s)
{
    if (!s) return "";
    std::string n = s->getName().str();
    if (isa<DIFile>(s) || isa<DICompileUnit>(s)) return "";
    auto p = s->getScope();
    std::string q = p ? diQual(p) : "";
    if (n.empty()) n = isa<DINamespace>(s) ? "(anonymous namespace)" : n;
    return q.empty() ? n : q + "::" + n;
}

static std::string diTypeName(const DIType* t)
{
    if (!t) return "void";
    if (auto d = dyn_cast<DIDerivedType>(t)) {
        switch (d->getTag()) {
            case dwarf::DW_TAG_pointer_type: return diTypeName(d->getBaseType()) + "*";
            case dwarf::DW_TAG_reference_type: return diTypeName(d->getBaseType()) + "&";
            case dwarf::DW_TAG_rvalue_reference_type: return diTypeName(d->getBaseType()) + "&&";
            case dwarf::DW_TAG_const_type: return "const " + diTypeName(d->getBaseType());
            case dwarf::DW_TAG_typedef: return diQual(d);
            default: return diTypeName(d->getBaseType());
        }
    }
    if (auto c = dyn_cast<DICompositeType>(t)) {
        if (c->getTag() == dwarf::DW_TAG_array_type) {
            std::string r = diTypeName(c->getBaseType());
            for (auto e : c->getElements())
                if (auto sr = dyn_cast<DISubrange>(e))
                    if (auto ci = dyn_cast_if_present<ConstantInt*>(sr->getCount())) r += "[" + std::to_string(ci->getSExtValue()) + "]";
            return r;
        }
        return diQual(c);
    }
    return t->getName().str();
}

int main(int argc, char** argv)
{
    // irdump BC CONFIG.json OUT.json
    if (argc < 4) { errs() << "usage\n"; return 2; }
    LLVMContext ctx;
    SMDiagnostic err;
    auto M = parseIRFile(argv[1], err, ctx);
    if (!M) { err.print("irdump", errs()); return 2; }
    DL = &M->getDataLayout();
    std::set<const GlobalVariable*> readOnly;
    for (auto& G : M->globals())
        if (G.hasLocalLinkage() && G.hasInitializer() && onlyRead(&G)) readOnly.insert(&G);
    auto buf = MemoryBuffer::getFile(argv[2]);
    if (!buf) { errs() << "no config\n"; return 2; }
    auto cfg = json::parse((*buf)->getBuffer());
    if (!cfg) { errs() << "bad config\n"; return 2; }
    auto& C = *cfg->getAsObject();
    auto regexes = [&](StringRef key) {
        std::vector<Regex> r;
        if (auto a = C.getArray(key)) for (auto& v : *a) r.emplace_back(v.getAsString()->str());
        return r;
    };
    auto roots = regexes("roots"), noinl = regexes("noinline"), forceinl = regexes("inline");
    std::vector<Regex> noinl_anchored;
    if (auto a = C.getArray("noinline"))
        for (auto& v : *a)
            if (v.getAsString()->starts_with("^")) noinl_anchored.emplace_back(v.getAsString()->str());
    Regex algorithms("(^| )std::(__)?(find|any_of|all_of|none_of|count|for_each|copy|transform|accumulate|equal|mismatch|fill|lower_bound|upper_bound|min|max)(_if|_n|_if_not|_aux|_aux1)?<");
    int64_t stdmax = C.getInteger("std_max").value_or(30);
    int64_t cap = C.getInteger("cap").value_or(20000);
    int64_t maxrec = C.getInteger("rec").value_or(0);
    int64_t repomax = C.getInteger("repo_max").value_or(100000);
    bool doinline = C.getBoolean("do_inline").value_or(true);
    bool dumpDI = C.getBoolean("di").value_or(true);
    bool dumpGlobals = C.getBoolean("globals").value_or(true);
    std::string pre = C.getString("pre").value_or("function(sroa,early-cse,simplifycfg)").str();
    std::string post = C.getString("post").value_or(
        "function(sroa,early-cse,sccp,instsimplify,simplifycfg,adce)").str();
    std::string prefix = C.getString("repo_prefix").value_or("/repo/").str();

    auto runPasses = [&](const std::string& text) {
        if (text.empty()) return true;
        PassBuilder PB;
        LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
        PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM);
        PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
        ModulePassManager MPM;
        if (auto e = PB.parsePassPipeline(MPM, text)) { errs() << "bad passes: " << toString(std::move(e)) << "\n"; return false; }
        MPM.run(*M, MAM);
        return true;
    };
    // constructors and destructors are often called through aliases: resolve them
    for (auto& A : M->aliases())
        if (auto* g = dyn_cast<GlobalValue>(A.getAliasee()->stripPointerCasts()))
            A.replaceAllUsesWith(g);
    if (!runPasses(pre)) return 2;

    std::unordered_map<const Function*, std::string> demc;
    auto dname = [&](const Function* f) -> const std::string& {
        auto it = demc.find(f);
        if (it == demc.end()) it = demc.emplace(f, dem(f->getName())).first;
        return it->second;
    };
    auto anyMatch = [&](std::vector<Regex>& rs, const std::string& s) {
        for (auto& r : rs) if (r.match(s)) return true;
        return false;
    };
    auto isRepo = [&](const Function* f) {
        if (auto sp = f->getSubprogram()) {
            std::string full = sp->getFilename().str();
            if (!full.empty() && full[0] != '/') full = sp->getDirectory().str() + "/" + full;
            return StringRef(full).starts_with(prefix);
        }
        return false;
    };

    std::vector<Function*> rootf;
    for (auto& F : *M) {
        if (F.isDeclaration()) continue;
        if (anyMatch(roots, dname(&F))) rootf.push_back(&F);
    }
    std::unordered_map<const Function*, int> sizes;
    for (auto& F : *M) sizes[&F] = F.getInstructionCount();
    std::vector<std::pair<Function*, std::string>> out;
    std::set<std::string> uninlined;
    for (auto* R : rootf) {
        std::string orig = R->getName().str();
        Function* F = R;
        if (doinline) {
            ValueToValueMapTy vm;
            F = CloneFunction(R, vm);
            F->setName(orig + ".wra");
            // worklist of (call, history index)
            std::vector<std::pair<Function*, int>> hist;
            std::vector<std::pair<CallBase*, int>> work;
            hist.push_back({R, -1});
            for (auto& B : *F) for (auto& I : B) if (auto c = dyn_cast<CallBase>(&I)) work.push_back({c, 0});
            size_t wi = 0;
            while (wi < work.size()) {
                auto [cb, h] = work[wi++];
                Function* callee = cb->getCalledFunction();
                if (!callee || callee->isDeclaration() || callee->isIntrinsic()) continue;
                int rec = 0;
                for (int x = h; x >= 0; x = hist[x].second) if (hist[x].first == callee) ++rec;
                if (rec > maxrec) continue;
                const std::string& dn = dname(callee);
                // algorithms over the repository's own predicates are part of the code that uses them
                bool algo = algorithms.match(dn);
                bool lambda = dn.find("'lambda") != std::string::npos || dn.find("::$_") != std::string::npos;
                bool closure = lambda && isRepo(callee) && dn.find("operator()(") != std::string::npos;
                if (!closure && (lambda ? anyMatch(noinl_anchored, dn) : anyMatch(noinl, dn))) continue;
                if (!algo && !anyMatch(forceinl, dn)) {
                    if (isRepo(callee)) { if (sizes[callee] > repomax) continue; }
                    else if (sizes[callee] > stdmax) continue;
                }
                if ((int64_t)F->getInstructionCount() > cap) { uninlined.insert(orig); break; }
                // alwaysinline-incompatible callee attributes do not matter here
                InlineFunctionInfo ifi;
                auto res = InlineFunction(*cb, ifi, false, nullptr, true);
                if (!res.isSuccess()) continue;
                hist.push_back({callee, h});
                int nh = hist.size() - 1;
                for (auto* nc : ifi.InlinedCallSites) work.push_back({nc, nh});
            }
        }
        out.push_back({F, orig});
    }
    if (!runPasses(post)) return 2;

    json::Object top;
    json::Object fns;
    for (auto& [F, name] : out) fns[name] = dumpFunction(*F, name);
    top["functions"] = std::move(fns);
    json::Array un; for (auto& u : uninlined) un.push_back(u);
    top["capped"] = std::move(un);

    if (dumpGlobals) {
        json::Object gs;
        for (auto& G : M->globals()) {
            json::Object o;
            o["const"] = G.isConstant() || readOnly.count(&G);
            o["tls"] = G.isThreadLocal();
            o["ty"] = typeStr(G.getValueType());
            o["decl"] = G.isDeclaration();
            o["linkage"] = (int64_t)G.getLinkage();
            o["dem"] = dem(G.getName());
            SmallVector<DIGlobalVariableExpression*, 1> dies;
            G.getDebugInfo(dies);
            if (!dies.empty()) {
                auto v = dies[0]->getVariable();
                o["file"] = v->getFilename().str(); o["line"] = (int64_t)v->getLine();
                o["dity"] = diTypeName(v->getType());
            }
            if (G.hasInitializer()) {
                o["init"] = constJson(G.getInitializer());
                auto cs = dyn_cast<ConstantDataSequential>(G.getInitializer());
                if (G.getValueType()->isAggregateType() && !(cs && cs->isString()) && (G.isConstant() || readOnly.count(&G))) {
                    json::Array fl;
                    if (flat(G.getInitializer(), 0, fl)) o["flat"] = std::move(fl);
                }
            }
            gs[G.getName().str()] = std::move(o);
        }
        top["globals"] = std::move(gs);
        json::Object al;
        for (auto& A : M->aliases()) al[A.getName().str()] = A.getAliasee()->getName().str();
        top["aliases"] = std::move(al);
    }
    if (dumpDI) {
        DebugInfoFinder dif; dif.processModule(*M);
        json::Object types, enums;
        for (auto t : dif.types()) {
            auto c = dyn_cast<DICompositeType>(t);
            if (!c || c->isForwardDecl()) continue;
            std::string q = diQual(c);
            if (c->getTag() == dwarf::DW_TAG_enumeration_type) {
                json::Object vals;
                for (auto e : c->getElements()) if (auto en = dyn_cast<DIEnumerator>(e)) vals[en->getName()] = en->getValue().getSExtValue();
                enums[q] = std::move(vals);
                continue;
            }
            if (c->getTag() != dwarf::DW_TAG_structure_type && c->getTag() != dwarf::DW_TAG_class_type && c->getTag() != dwarf::DW_TAG_union_type) continue;
            json::Array fields;
            for (auto e : c->getElements()) {
                auto d = dyn_cast<DIDerivedType>(e);
                if (!d) continue;
                if (d->getTag() != dwarf::DW_TAG_member && d->getTag() != dwarf::DW_TAG_inheritance) continue;
                if (d->isStaticMember()) continue;
                auto bt = d->getBaseType();
                uint64_t sz = d->getSizeInBits();
                if (!sz && bt) sz = bt->getSizeInBits();
                fields.push_back(json::Object{{"n", d->getName().str()}, {"off", (int64_t)d->getOffsetInBits() / 8},
                    {"bits", (int64_t)sz}, {"ty", diTypeName(bt)}, {"base", d->getTag() == dwarf::DW_TAG_inheritance},
                    {"bf", d->isBitField()}, {"bo", (int64_t)d->getOffsetInBits()}});
            }
            json::Array meths;
            for (auto e : c->getElements())
                if (auto sp = dyn_cast<DISubprogram>(e)) meths.push_back(json::Object{{"n", sp->getName().str()}, {"link", sp->getLinkageName().str()},
                    {"virt", sp->getVirtuality() != 0}, {"pure", sp->getVirtuality() == 2}, {"deleted", sp->isDeleted()}, {"art", sp->isArtificial()}});
            json::Object o{{"size", (int64_t)c->getSizeInBits() / 8}, {"fields", std::move(fields)}, {"union", c->getTag() == dwarf::DW_TAG_union_type},
                {"file", c->getFilename().str()}, {"line", (int64_t)c->getLine()}, {"methods", std::move(meths)}};
            types[q] = std::move(o);
        }
        top["types"] = std::move(types);
        top["enums"] = std::move(enums);
    }
    std::error_code ec;
    raw_fd_ostream os(argv[3], ec);
    os << json::Value(std::move(top));
    return 0;
}
