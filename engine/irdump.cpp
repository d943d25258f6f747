// irdump: reads a bitcode/IR file, normalises it (everything inlined, memory
// promoted to SSA, CFG simplified) and prints it as JSON for the analyses.
// usage: irdump in.ll out.json [substring...]   (functions whose demangled name contains a substring stay opaque)
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/JSON.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Analysis/ScalarEvolution.h>
#include <llvm/Analysis/AssumptionCache.h>
#include <llvm/Analysis/TargetTransformInfo.h>
#include <llvm/Analysis/InstructionSimplify.h>
#include <llvm/Transforms/Utils/LoopRotationUtils.h>
#include <llvm/IR/Dominators.h>
#include <llvm/ADT/APFloat.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/Analysis/ConstantFolding.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/Path.h>
#include <map>
#include <set>
using namespace llvm;

static std::map<const Value *, int> ids;
static const DataLayout *DL;

static std::string tyname(Type *t) {
    if (t->isVoidTy()) return "void";
    if (t->isDoubleTy()) return "f64";
    if (t->isFloatTy()) return "f32";
    if (t->isX86_FP80Ty()) return "f80";
    if (t->isPointerTy()) return "ptr";
    if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
    if (t->isStructTy() || t->isArrayTy()) return "agg";
    if (t->isVectorTy()) return "vec";
    std::string s; raw_string_ostream os(s); t->print(os); return os.str();
}

static json::Value val(const Value *v);

static json::Value fpval(const APFloat &f) {
    SmallString<64> s;
    APFloat g = f;
    if (f.isNaN()) return json::Array{"f", "nan"};
    if (f.isInfinity()) return json::Array{"f", f.isNegative() ? "-inf" : "inf"};
    bool lose;
    g.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lose);
    char buf[64];
    snprintf(buf, sizeof buf, "%a", g.convertToDouble());
    return json::Array{"f", std::string(buf), (int64_t)(APFloat::semanticsPrecision(f.getSemantics()))};
}

static json::Value val(const Value *v) {
    if (auto *c = dyn_cast<ConstantInt>(v)) {
        SmallString<40> s; c->getValue().toStringSigned(s);
        if (c->getType()->isIntegerTy(1)) return json::Array{"c", c->isZero() ? "0" : "1"};
        return json::Array{"c", std::string(s)};
    }
    if (auto *c = dyn_cast<ConstantFP>(v)) return fpval(c->getValueAPF());
    if (isa<ConstantPointerNull>(v)) return json::Array{"c", "0"};
    if (isa<UndefValue>(v)) return json::Array{"u"};
    if (isa<ConstantAggregateZero>(v)) return json::Array{"z"};
    if (auto *g = dyn_cast<GlobalValue>(v)) {
        if (auto *ga = dyn_cast<GlobalAlias>(g)) return val(ga->getAliasee());
        return json::Array{"g", g->getName().str()};
    }
    if (auto *ca = dyn_cast<ConstantAggregate>(v)) {
        json::Array a;
        for (auto &o : ca->operands()) a.push_back(val(o.get()));
        return json::Array{"agg", std::move(a)};
    }
    if (auto *cd = dyn_cast<ConstantDataSequential>(v)) {
        json::Array a;
        for (unsigned i = 0; i < cd->getNumElements(); ++i) a.push_back(val(cd->getElementAsConstant(i)));
        return json::Array{"agg", std::move(a)};
    }
    if (auto *ce = dyn_cast<ConstantExpr>(v)) {
        if (auto *gep = dyn_cast<GEPOperator>(ce)) {
            APInt off(64, 0);
            if (gep->accumulateConstantOffset(*DL, off))
                return json::Array{"off", val(gep->getPointerOperand()), (int64_t)off.getSExtValue()};
        }
        if (ce->isCast()) return val(ce->getOperand(0));
        return json::Array{"u"};
    }
    auto it = ids.find(v);
    if (it != ids.end()) return json::Array{"v", it->second};
    return json::Array{"u"};
}

static void initcells(const Constant *c, uint64_t off, json::Array &out) {
    Type *t = c->getType();
    if (auto *cs = dyn_cast<ConstantStruct>(c)) {
        auto *sl = DL->getStructLayout(cast<StructType>(t));
        for (unsigned i = 0; i < cs->getNumOperands(); ++i)
            initcells(cs->getOperand(i), off + sl->getElementOffset(i), out);
    } else if (auto *ca = dyn_cast<ConstantArray>(c)) {
        uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
        for (unsigned i = 0; i < ca->getNumOperands(); ++i) initcells(ca->getOperand(i), off + i * es, out);
    } else if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
        if (cd->isString()) return;
        uint64_t es = DL->getTypeAllocSize(cd->getElementType());
        for (unsigned i = 0; i < cd->getNumElements(); ++i) initcells(cd->getElementAsConstant(i), off + i * es, out);
    } else if (isa<ConstantAggregateZero>(c)) {
        if (auto *st = dyn_cast<StructType>(t)) {
            auto *sl = DL->getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); ++i)
                initcells(c->getAggregateElement(i), off + sl->getElementOffset(i), out);
        } else if (auto *at = dyn_cast<ArrayType>(t)) {
            uint64_t es = DL->getTypeAllocSize(at->getElementType());
            uint64_t n = std::min<uint64_t>(at->getNumElements(), 4096);
            for (unsigned i = 0; i < n; ++i) initcells(c->getAggregateElement(i), off + i * es, out);
        }
    } else {
        out.push_back(json::Array{(int64_t)off, val(c), (int64_t)DL->getTypeStoreSize(t)});
    }
}

static json::Array debugloc(const Instruction &i) {
    json::Array a;
    DILocation *l = i.getDebugLoc();
    int n = 0;
    while (l && n < 12) {
        std::string f = l->getFilename().str();
        a.push_back(json::Array{f, (int64_t)l->getLine(),
                                l->getScope()->getSubprogram() ? l->getScope()->getSubprogram()->getName().str() : ""});
        l = l->getInlinedAt();
        ++n;
    }
    return a;
}

// a condition over header phis which start with constants (and are no counters), hence known for the first test
static bool known_at_start(Value *v, BasicBlock *h, BasicBlock *pre, BasicBlock *latch, int depth) {
    if (isa<ConstantInt>(v)) return true;
    auto *i = dyn_cast<Instruction>(v);
    if (!i || depth > 6) return false;
    // (a flag kept in an object)
    if (auto *ld = dyn_cast<LoadInst>(i)) {
        auto *g = ld->getPointerOperand()->stripInBoundsConstantOffsets();
        return ld->getParent() == h && ld->isSimple() && ld->getType()->isIntegerTy(8) && isa<AllocaInst>(g);
    }
    if (auto *p = dyn_cast<PHINode>(i)) {
        bool flag = p->getType()->isIntegerTy(8) || p->getType()->isIntegerTy(1);
        if (p->getParent() != h || !flag && !isa<ConstantInt>(p->getIncomingValueForBlock(pre))) return false;
        if (flag && isa<Constant>(p->getIncomingValueForBlock(latch))) return true;
        auto *q = dyn_cast<Instruction>(p->getIncomingValueForBlock(latch));
        if (!q) return false;
        auto o = q->getOpcode();
        return o != Instruction::Add && o != Instruction::Sub && o != Instruction::Mul && o != Instruction::Shl;
    }
    if (!isa<ICmpInst>(i) && !isa<CastInst>(i) && !isa<BinaryOperator>(i) && !isa<SelectInst>(i)) return false;
    for (auto &o : i->operands())
        if (!known_at_start(o, h, pre, latch, depth + 1)) return false;
    return true;
}

// a loop left at its header by such a condition
static bool first_test_is_known(Loop *l) {
    auto *h = l->getHeader(), *pre = l->getLoopPreheader(), *latch = l->getLoopLatch();
    if (!pre || !latch || h == latch || !l->isLoopExiting(h)) return false;
    auto *br = dyn_cast<BranchInst>(h->getTerminator());
    if (!br || !br->isConditional() || isa<Constant>(br->getCondition())) return false;
    for (auto &i : *h)
        if (i.mayHaveSideEffects() || i.mayReadFromMemory() && !(isa<LoadInst>(i) && i.getType()->isIntegerTy(8))) return false;
    return known_at_start(br->getCondition(), h, pre, latch, 0);
}

int main(int argc, char **argv) {
    LLVMContext ctx;
    SMDiagnostic err;
    auto m = parseIRFile(argv[1], err, ctx);
    if (!m) { err.print("irdump", errs()); return 2; }
    DL = &m->getDataLayout();
    std::set<std::string> roots;
    for (auto &f : *m) {
        if (f.isDeclaration()) continue;
        bool keep = false;
        for (int k = 3; k < argc; ++k)
            if (demangle(f.getName().str()).find(argv[k]) != std::string::npos) keep = true;
        if (keep) {
            f.deleteBody();
            f.setComdat(nullptr);
            continue;
        }
        f.removeFnAttr(Attribute::NoInline);
        f.removeFnAttr(Attribute::OptimizeNone);
        bool root = f.getName().starts_with("w_");
        if (!root) {
            f.addFnAttr(Attribute::AlwaysInline);
            if (!f.hasAvailableExternallyLinkage()) f.setLinkage(GlobalValue::InternalLinkage);
            f.setComdat(nullptr);
        } else roots.insert(f.getName().str());
        f.removeFnAttr(Attribute::StackProtectStrong);
    }
    {
        LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cgam; ModuleAnalysisManager mam;
        PassBuilder pb;
        pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cgam); pb.registerFunctionAnalyses(fam);
        pb.registerLoopAnalyses(lam); pb.crossRegisterProxies(lam, fam, cgam, mam);
        ModulePassManager mpm;
        // inlining is repeated because calls through (member) function pointers only
        // become direct after the first simplification
        const char *round = "always-inline,globaldce,"
            "function(sroa<modify-cfg>,early-cse,simplifycfg,instcombine<no-verify-fixpoint>)";
        std::string pipe = std::string("function(lower-expect),") + round + "," + round + "," + round + ","
            "function(sroa<modify-cfg>,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>,"
            "simplifycfg,dse,adce,lowerswitch,loop-simplify,lcssa)";
        if (auto e = pb.parsePassPipeline(mpm, pipe)) { errs() << toString(std::move(e)) << "\n"; return 2; }
        mpm.run(*m, mam);
        // while(res == fail) with res = fail at first is do ... while(res == fail)
        bool any = false;
        for (auto &f : *m) {
            if (f.isDeclaration()) continue;
            for (bool again = true; again;) {
                again = false;
                auto &li = fam.getResult<LoopAnalysis>(f);
                for (auto *l : li.getLoopsInPreorder())
                    if (first_test_is_known(l)) {
                        auto &se = fam.getResult<ScalarEvolutionAnalysis>(f);
                        SimplifyQuery sq(*DL);
                        if (LoopRotation(l, &li, &fam.getResult<TargetIRAnalysis>(f), &fam.getResult<AssumptionAnalysis>(f), &fam.getResult<DominatorTreeAnalysis>(f),
                                         &se, nullptr, sq, false, 1000, true)) {
                            again = any = true;
                            fam.invalidate(f, PreservedAnalyses::none());
                            break;
                        }
                    }
            }
        }
        if (any) {
            ModulePassManager mp2;
            if (auto e = pb.parsePassPipeline(mp2, "function(instcombine<no-verify-fixpoint>,simplifycfg,dse,adce,lowerswitch,loop-simplify,lcssa)")) { errs() << toString(std::move(e)) << "\n"; return 2; }
            mp2.run(*m, mam);
        }
    }
    json::Object top;
    json::Object globals;
    for (auto &g : m->globals()) {
        json::Object o;
        o["size"] = (int64_t)(g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()) : 0);
        o["const"] = g.isConstant();
        json::Array cells;
        if (g.hasInitializer() && g.getName() != "llvm.global_ctors") initcells(g.getInitializer(), 0, cells);
        o["init"] = std::move(cells);
        globals[g.getName()] = std::move(o);
    }
    top["globals"] = std::move(globals);
    json::Object funcs;
    json::Object dem;
    for (auto &f : *m) dem[f.getName()] = demangle(f.getName().str());
    top["demangle"] = std::move(dem);
    for (auto &f : *m) {
        if (f.isDeclaration()) continue;
        ids.clear();
        int k = 0;
        json::Array args;
        for (auto &a : f.args()) { ids[&a] = k++; args.push_back(json::Array{a.getName().str(), tyname(a.getType())}); }
        for (auto &b : f) { ids[&b] = k++; }
        for (auto &i : instructions(f)) ids[&i] = k++;
        json::Array blocks;
        for (auto &b : f) {
            json::Array is;
            for (auto &i : b) {
                if (isa<DbgInfoIntrinsic>(i)) continue;
                if (auto *ii = dyn_cast<IntrinsicInst>(&i)) {
                    auto id = ii->getIntrinsicID();
                    if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume ||
                        id == Intrinsic::experimental_noalias_scope_decl) continue;
                }
                json::Object o;
                o["id"] = ids[&i];
                o["op"] = i.getOpcodeName();
                o["ty"] = tyname(i.getType());
                json::Array ops;
                if (auto *c = dyn_cast<CmpInst>(&i)) {
                    o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
                    o["oty"] = tyname(c->getOperand(0)->getType());
                }
                if (auto *p = dyn_cast<PHINode>(&i)) {
                    for (unsigned j = 0; j < p->getNumIncomingValues(); ++j)
                        ops.push_back(json::Array{val(p->getIncomingValue(j)), ids[p->getIncomingBlock(j)]});
                } else if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
                    MapVector<Value *, APInt> var; APInt coff(64, 0);
                    if (!cast<GEPOperator>(g)->collectOffset(*DL, 64, var, coff)) { errs() << "gep\n"; return 2; }
                    ops.push_back(val(g->getPointerOperand()));
                    json::Array vs;
                    for (auto &pr : var) vs.push_back(json::Array{val(pr.first), (int64_t)pr.second.getSExtValue()});
                    o["coff"] = (int64_t)coff.getSExtValue();
                    o["vars"] = std::move(vs);
                } else if (auto *c = dyn_cast<CallBase>(&i)) {
                    for (auto &a : c->args()) ops.push_back(val(a.get()));
                    o["callee"] = val(c->getCalledOperand());
                    json::Array ats;
                    for (auto &a : c->args()) ats.push_back(tyname(a->getType()));
                    o["atys"] = std::move(ats);
                    json::Array bv;
                    for (unsigned j = 0; j < c->arg_size(); ++j) if (c->isByValArgument(j)) bv.push_back((int64_t)j);
                    if (!bv.empty()) o["byval"] = std::move(bv);
                    if (c->paramHasAttr(0, Attribute::StructRet)) o["sret"] = true;
                    if (c->doesNotReturn()) o["noreturn"] = true;
                    if (auto *iv = dyn_cast<InvokeInst>(&i)) { o["normal"] = ids[iv->getNormalDest()]; }
                } else if (auto *br = dyn_cast<BranchInst>(&i)) {
                    if (br->isConditional()) ops.push_back(val(br->getCondition()));
                    json::Array s; for (unsigned j = 0; j < br->getNumSuccessors(); ++j) s.push_back(ids[br->getSuccessor(j)]);
                    o["succ"] = std::move(s);
                } else if (auto *ev = dyn_cast<ExtractValueInst>(&i)) {
                    ops.push_back(val(ev->getAggregateOperand()));
                    json::Array ix; for (auto j : ev->indices()) ix.push_back((int64_t)j);
                    o["idx"] = std::move(ix);
                } else if (auto *iv = dyn_cast<InsertValueInst>(&i)) {
                    ops.push_back(val(iv->getAggregateOperand())); ops.push_back(val(iv->getInsertedValueOperand()));
                    json::Array ix; for (auto j : iv->indices()) ix.push_back((int64_t)j);
                    o["idx"] = std::move(ix);
                } else {
                    for (auto &u : i.operands()) ops.push_back(val(u.get()));
                }
                if (auto *s = dyn_cast<StoreInst>(&i)) {
                    o["sty"] = tyname(s->getValueOperand()->getType());
                    o["size"] = (int64_t)DL->getTypeStoreSize(s->getValueOperand()->getType());
                }
                if (isa<LoadInst>(i)) o["size"] = (int64_t)DL->getTypeStoreSize(i.getType());
                if (auto *a = dyn_cast<AllocaInst>(&i)) o["size"] = (int64_t)DL->getTypeAllocSize(a->getAllocatedType());
                if (i.getOpcode() == Instruction::FPExt || i.getOpcode() == Instruction::FPTrunc || isa<CastInst>(i))
                    o["from"] = tyname(i.getOperand(0)->getType());
                if (auto *pe = dyn_cast<PossiblyExactOperator>(&i)) if (pe->isExact()) o["exact"] = true;
                if (auto *pd = dyn_cast<PossiblyDisjointInst>(&i)) if (pd->isDisjoint()) o["disjoint"] = true;
                o["ops"] = std::move(ops);
                auto dl = debugloc(i);
                if (!dl.empty()) o["loc"] = std::move(dl);
                is.push_back(std::move(o));
            }
            blocks.push_back(json::Object{{"id", ids[&b]}, {"ins", std::move(is)}});
        }
        funcs[f.getName()] = json::Object{{"args", std::move(args)}, {"blocks", std::move(blocks)},
                                          {"ret", tyname(f.getReturnType())}, {"noreturn", f.doesNotReturn()}};
    }
    top["functions"] = std::move(funcs);
    std::error_code ec;
    raw_fd_ostream os(argv[2], ec);
    os << json::Value(std::move(top)) << "\n";
    return 0;
}
