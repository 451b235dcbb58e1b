// vpsym: solver-based checking of LLVM IR compiled from the code under test.
#include "exec.hpp"
#include <unistd.h>
#include "solver.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <pthread.h>
#include <sys/resource.h>

// ---------------------------------------------------------------- exceptions
static const std::map<std::string, std::string>& stdBases() {
    static const std::map<std::string, std::string> m = {
        {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"},
        {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"},
        {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt13runtime_error", "_ZTISt9exception"},
        {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
        {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"},
        {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt8bad_cast", "_ZTISt9exception"},
        {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTINSt8ios_base7failureB5cxx11E", "_ZTISt12system_error"},
        {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"},
        {"_ZTISt9exception", ""},
    };
    return m;
}
bool Exec::derives(State& st, u64 ti, u64 base, int depth) {
    if (ti == base) return true;
    if (depth > 10) return false;
    Obj* o = st.mem.get((ti >> 32) - 1);
    if (!o) return false;
    auto it = stdBases().find(o->name);
    if (it != stdBases().end()) {
        for (std::string n = it->second; !n.empty(); ) {
            Obj* b = st.mem.get((base >> 32) - 1);
            if (b && b->name == n) return true;
            auto j = stdBases().find(n);
            if (j == stdBases().end()) return false;
            n = j->second;
        }
        return false;
    }
    if (GlobalVariable* G = M.getNamedGlobal(o->name))
        if (G->hasInitializer())
            if (auto* S = dyn_cast<ConstantStruct>(G->getInitializer()))
                for (unsigned i = 2; i < S->getNumOperands(); i++)
                    if (auto* B = dyn_cast<GlobalVariable>(S->getOperand(i)->stripPointerCasts()))
                        if (derives(st, addrOf(idOfGlobal(B)), base, depth + 1)) return true;
    return false;
}
void Exec::landing(Frame& fr, Item& it, LandingPadInst* LP) {
    FnInfo& I = *fr.I;
    Term* ptr = it.st.excPtr;
    if (!ptr) throw Unsupported("landing pad without exception");
    Term* ti = loadTerm(it.st, tm.mkAdd(ptr, k64((u64)-8)), 8);
    std::vector<Term*> ls;
    if (ti->leaves == 0) throw Unsupported("unresolvable exception type");
    tm.leaves(ti, [&](Term* l) { ls.push_back(l); });
    Term* sel = nullptr; Term* none = tm.T0;
    for (Term* l : ls) {
        int s = -1;
        for (unsigned c = 0; c < LP->getNumClauses() && s < 0; c++) {
            if (!LP->isCatch(c)) continue;
            Constant* cl = cast<Constant>(LP->getClause(c)->stripPointerCasts());
            if (isa<ConstantPointerNull>(cl)) s = 1;
            else {
                u64 b = addrOf(idOfGlobal(cast<GlobalValue>(cl)));
                if (derives(it.st, (u64)l->c, b)) s = (int)((b >> 32));
            }
        }
        if (s < 0) { if (LP->isCleanup()) s = 0; else { none = tm.mkOr(none, tm.mkEq(ti, l)); s = 0; } }
        Term* sv = tm.konst(s, 32);
        sel = sel ? tm.ite(tm.mkEq(ti, l), sv, sel) : sv;
    }
    if (!(none->isConst() && !none->c)) {
        State s = it.st;
        addPC(s, none);
        if (s.live) fr.out.exc.push_back({s, Val()});
        addPC(it.st, tm.mkNot(none));
        if (!it.st.live) throw PathEnd();
    }
    Val v; v.agg = std::make_shared<std::vector<Val>>();
    v.agg->push_back(ptr); v.agg->push_back(sel);
    it.regs[I.num[LP]] = v;
}
// ---------------------------------------------------------------- instructions
void Exec::runBlock(Frame& fr, Item it, Ref<PCNode>& pcNow) {
    FnInfo& I = *fr.I;
    pcNow = it.st.pc;
    auto set = [&](Instruction* X, Val v) { it.regs[I.num[X]] = std::move(v); };
    for (Instruction& X : *it.bb) {
        if (isa<PHINode>(X)) continue;
        nInst++; checkBudget();
        switch (X.getOpcode()) {
        case Instruction::Add: set(&X, tm.mkAdd(gt(it, I, X.getOperand(0)), gt(it, I, X.getOperand(1)))); break;
        case Instruction::Sub: set(&X, tm.mkSub(gt(it, I, X.getOperand(0)), gt(it, I, X.getOperand(1)))); break;
        case Instruction::Mul: set(&X, tm.mkMul(gt(it, I, X.getOperand(0)), gt(it, I, X.getOperand(1)))); break;
        case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
            Term* a = gt(it, I, X.getOperand(0)); Term* b = gt(it, I, X.getOperand(1));
            oblige(it.st, OB_DIV, "division by zero", tm.mkNot(tm.mkEq(b, tm.konst(0, b->w))));
            if (b->isConst() && !b->c) throw PathEnd();
            Term* r = X.getOpcode() == Instruction::UDiv ? tm.mkUdiv(a, b) : X.getOpcode() == Instruction::URem ? tm.mkUrem(a, b)
                : X.getOpcode() == Instruction::SDiv ? tm.mkSdiv(a, b) : tm.mkSrem(a, b);
            set(&X, r); break;
        }
        case Instruction::Shl: set(&X, tm.mkShl(gt(it, I, X.getOperand(0)), gt(it, I, X.getOperand(1)))); break;
        case Instruction::LShr: set(&X, tm.mkLshr(gt(it, I, X.getOperand(0)), gt(it, I, X.getOperand(1)))); break;
        case Instruction::AShr: set(&X, tm.mkAshr(gt(it, I, X.getOperand(0)), gt(it, I, X.getOperand(1)))); break;
        case Instruction::And: set(&X, tm.mkAnd(gt(it, I, X.getOperand(0)), gt(it, I, X.getOperand(1)))); break;
        case Instruction::Or: set(&X, tm.mkOr(gt(it, I, X.getOperand(0)), gt(it, I, X.getOperand(1)))); break;
        case Instruction::Xor: set(&X, tm.mkXor(gt(it, I, X.getOperand(0)), gt(it, I, X.getOperand(1)))); break;
        case Instruction::FAdd: set(&X, tm.fadd(gt(it, I, X.getOperand(0)), gt(it, I, X.getOperand(1)), false)); break;
        case Instruction::FSub: set(&X, tm.fadd(gt(it, I, X.getOperand(0)), gt(it, I, X.getOperand(1)), true)); break;
        case Instruction::FMul: set(&X, tm.fmul(gt(it, I, X.getOperand(0)), gt(it, I, X.getOperand(1)))); break;
        case Instruction::FNeg: set(&X, tm.fneg(gt(it, I, X.getOperand(0)))); break;
        case Instruction::FDiv: {
set(&X, tm.fdiv(gt(it, I, X.getOperand(0)), gt(it, I, X.getOperand(1)))); break;
        }
        case Instruction::ICmp: {
            Val a = get(it, I, X.getOperand(0)), b = get(it, I, X.getOperand(1));
            if (!a.t || !b.t) throw Unsupported("undefined register");
            set(&X, icmp(cast<CmpInst>(X).getPredicate(), a.t, b.t)); break;
        }
        case Instruction::FCmp: set(&X, fcmp(cast<CmpInst>(X).getPredicate(), gt(it, I, X.getOperand(0)), gt(it, I, X.getOperand(1)))); break;
        case Instruction::ZExt: set(&X, tm.zext(gt(it, I, X.getOperand(0)), X.getType()->getIntegerBitWidth())); break;
        case Instruction::SExt: set(&X, tm.sext(gt(it, I, X.getOperand(0)), X.getType()->getIntegerBitWidth())); break;
        case Instruction::Trunc: set(&X, tm.extract(gt(it, I, X.getOperand(0)), 0, X.getType()->getIntegerBitWidth())); break;
        case Instruction::PtrToInt: set(&X, tm.zext(gt(it, I, X.getOperand(0)), X.getType()->getIntegerBitWidth())); break;
        case Instruction::IntToPtr: set(&X, tm.zext(gt(it, I, X.getOperand(0)), 64)); break;
        case Instruction::AddrSpaceCast: set(&X, get(it, I, X.getOperand(0))); break;
        case Instruction::BitCast: {
            Term* a = gt(it, I, X.getOperand(0));
            Type* T = X.getType();
            if (T->isDoubleTy()) set(&X, tm.fromBits(a, 64));
            else if (T->isFloatTy()) set(&X, tm.fromBits(a, 32));
            else if (a->fw && T->isIntegerTy()) set(&X, tm.fbits(a));
            else set(&X, a);
            break;
        }
        case Instruction::UIToFP: set(&X, tm.fromUint(gt(it, I, X.getOperand(0)), X.getType()->isDoubleTy() ? 64 : 32)); break;
        case Instruction::SIToFP: set(&X, tm.fromSint(gt(it, I, X.getOperand(0)), X.getType()->isDoubleTy() ? 64 : 32)); break;
        case Instruction::FPToUI: case Instruction::FPToSI:
            set(&X, tm.toInt(gt(it, I, X.getOperand(0)), X.getType()->getIntegerBitWidth(), X.getOpcode() == Instruction::FPToSI)); break;
        case Instruction::FPExt: set(&X, tm.fresize(gt(it, I, X.getOperand(0)), 64)); break;
        case Instruction::FPTrunc: set(&X, tm.fresize(gt(it, I, X.getOperand(0)), 32)); break;
        case Instruction::Freeze: set(&X, get(it, I, X.getOperand(0))); break;
        case Instruction::Select: set(&X, iteVal(gt(it, I, X.getOperand(0)), get(it, I, X.getOperand(1)), get(it, I, X.getOperand(2)))); break;
        case Instruction::GetElementPtr: set(&X, gep(it, I, cast<GEPOperator>(&X))); break;
        case Instruction::Alloca: {
            auto& A = cast<AllocaInst>(X);
            Term* n = gt(it, I, A.getArraySize());
            if (!n->isConst()) throw Unsupported("variable-length array");
            u64 sz = DL.getTypeAllocSize(A.getAllocatedType()) * (u64)n->c;
            u64 id = newObj(it.st, sz, O_STACK, (A.hasName() ? A.getName().str() : "local") + " in " + I.F->getName().str());
            fr.allocas.push_back(id);
            set(&X, k64(addrOf(id)));
            break;
        }
        case Instruction::Load: {
            Val v = loadTyped(it.st, X.getType(), gt(it, I, X.getOperand(0)));
            pcNow = it.st.pc;
            set(&X, v); break;
        }
        case Instruction::Store: storeTyped(it.st, X.getOperand(0)->getType(), gt(it, I, X.getOperand(1)), get(it, I, X.getOperand(0))); break;
        case Instruction::ExtractValue: {
            Val v = get(it, I, X.getOperand(0));
            for (unsigned i : cast<ExtractValueInst>(X).getIndices()) { if (!v.agg) throw Unsupported("extractvalue"); Val w = (*v.agg)[i]; v = w; }
            set(&X, v); break;
        }
        case Instruction::InsertValue: {
            std::function<Val(Val, unsigned)> ins = [&](Val a, unsigned k) -> Val {
                auto idx = cast<InsertValueInst>(X).getIndices();
                if (k == idx.size()) return get(it, I, X.getOperand(1));
                Val r; r.agg = std::make_shared<std::vector<Val>>(*a.agg);
                (*r.agg)[idx[k]] = ins((*a.agg)[idx[k]], k + 1);
                return r;
            };
            Val a = get(it, I, X.getOperand(0));
            set(&X, ins(a, 0)); break;
        }
        case Instruction::AtomicRMW: {
            auto& A = cast<AtomicRMWInst>(X);
            Term* p = gt(it, I, A.getPointerOperand());
            Term* old = loadTyped(it.st, X.getType(), p).t; Term* v = gt(it, I, A.getValOperand()); Term* n;
            switch (A.getOperation()) {
            case AtomicRMWInst::Xchg: n = v; break;
            case AtomicRMWInst::Add: n = tm.mkAdd(old, v); break;
            case AtomicRMWInst::Sub: n = tm.mkSub(old, v); break;
            case AtomicRMWInst::And: n = tm.mkAnd(old, v); break;
            case AtomicRMWInst::Or: n = tm.mkOr(old, v); break;
            case AtomicRMWInst::Xor: n = tm.mkXor(old, v); break;
            case AtomicRMWInst::UMax: n = tm.ite(tm.mkUlt(old, v), v, old); break;
            case AtomicRMWInst::UMin: n = tm.ite(tm.mkUlt(v, old), v, old); break;
            default: throw Unsupported("atomic operation");
            }
            storeTyped(it.st, X.getType(), p, n);
            set(&X, old); break;
        }
        case Instruction::AtomicCmpXchg: {
            auto& A = cast<AtomicCmpXchgInst>(X);
            Term* p = gt(it, I, A.getPointerOperand()); Type* T = A.getCompareOperand()->getType();
            Term* old = loadTyped(it.st, T, p).t;
            Term* ok = tm.mkEq(old, gt(it, I, A.getCompareOperand()));
            storeTyped(it.st, T, p, tm.ite(ok, gt(it, I, A.getNewValOperand()), old));
            Val v; v.agg = std::make_shared<std::vector<Val>>(); v.agg->push_back(old); v.agg->push_back(ok);
            set(&X, v); break;
        }
        case Instruction::Fence: break;
        case Instruction::LandingPad: landing(fr, it, cast<LandingPadInst>(&X)); pcNow = it.st.pc; break;
        case Instruction::Resume: {
            Val v = get(it, I, X.getOperand(0));
            it.st.excPtr = (*v.agg)[0].t;
            fr.out.exc.push_back({std::move(it.st), Val()});
            return;
        }
        case Instruction::Ret: {
            Val v;
            if (X.getNumOperands()) v = get(it, I, X.getOperand(0));
            fr.out.norm.push_back({std::move(it.st), v});
            return;
        }
        case Instruction::Br: {
            auto& B = cast<BranchInst>(X);
            if (B.isUnconditional()) return jump(fr, std::move(it), B.getSuccessor(0));
            Term* c = gt(it, I, B.getCondition());
            return branch(fr, std::move(it), c, B.getSuccessor(0), B.getSuccessor(1));
        }
        case Instruction::Switch: {
            auto& S = cast<SwitchInst>(X);
            Term* v = gt(it, I, S.getCondition());
            std::map<BasicBlock*, Term*> by; std::vector<BasicBlock*> ord;
            Term* rest = tm.T1;
            for (auto& c : S.cases()) {
                Term* e = tm.mkEq(v, constVal(c.getCaseValue()).t);
                rest = tm.mkAnd(rest, tm.mkNot(e));
                auto& t = by[c.getCaseSuccessor()];
                if (!t) { t = e; ord.push_back(c.getCaseSuccessor()); } else t = tm.mkOr(t, e);
            }
            auto& t = by[S.getDefaultDest()];
            if (!t) { t = rest; ord.push_back(S.getDefaultDest()); } else t = tm.mkOr(t, rest);
            for (BasicBlock* B : ord) {
                int k = known(it.st.pc, by[B]);
                if (k == 0) continue;
                Item o = it;
                if (k < 0) { nFork++; addPC(o.st, by[B]); }
                if (o.st.live) jump(fr, std::move(o), B);
                if (k == 1) break;
            }
            return;
        }
        case Instruction::Unreachable:
            oblige(it.st, OB_UNREACH, "unreachable code reached in " + I.F->getName().str(), tm.T0);
            return;
        case Instruction::Call: case Instruction::Invoke: {
            auto& CB = cast<CallBase>(X);
            std::vector<Val> args;
            if (isa<DbgInfoIntrinsic>(X)) break;
            for (auto& a : CB.args()) {
                if (a->getType()->isMetadataTy()) { args.push_back(Val()); continue; }
                args.push_back(get(it, I, a.get()));
            }
            Outcomes out;
            Value* cv = CB.getCalledOperand()->stripPointerCasts();
            if (auto* GA = dyn_cast<GlobalAlias>(cv)) cv = GA->getAliasee()->stripPointerCasts();
            if (auto* F = dyn_cast<Function>(cv)) out = callFunction(&CB, F, args, std::move(it.st));
            else {
                Term* p = gt(it, I, CB.getCalledOperand());
                std::vector<Term*> ls;
                if (!p->leaves) throw Unsupported("indirect call through an unresolved pointer");
                tm.leaves(p, [&](Term* l) { ls.push_back(l); });
                for (Term* l : ls) {
                    State s = it.st;
                    addPC(s, tm.mkEq(p, l));
                    if (!s.live) continue;
                    auto f = fnOf.find((u64)(l->c >> 32) - 1);
                    if (f == fnOf.end()) { oblige(s, OB_MEM, "call through an invalid function pointer", tm.T0); continue; }
                    Outcomes o = callFunction(&CB, f->second, args, std::move(s));
                    for (auto& q : o.norm) out.norm.push_back(std::move(q));
                    for (auto& q : o.exc) out.exc.push_back(std::move(q));
                }
                mergeOutcomes(out.norm); mergeOutcomes(out.exc);
            }
            for (auto& e : out.exc) {
                if (auto* IV = dyn_cast<InvokeInst>(&X)) {
                    Item o; o.bb = it.bb; o.st = std::move(e.st); o.regs = it.regs; o.loops = it.loops;
                    jump(fr, std::move(o), IV->getUnwindDest());
                } else fr.out.exc.push_back(std::move(e));
            }
            if (out.norm.empty()) return;
            it.st = std::move(out.norm[0].st);
            pcNow = it.st.pc;
            if (!it.st.live) return;
            if (!X.getType()->isVoidTy()) set(&X, out.norm[0].ret);
            if (auto* IV = dyn_cast<InvokeInst>(&X)) return jump(fr, std::move(it), IV->getNormalDest());
            break;
        }
        default: throw Unsupported(std::string("instruction ") + X.getOpcodeName());
        }
    }
}
Outcomes Exec::callFunction(CallBase* CB, Function* F, std::vector<Val>& args, State st) {
    std::string n = F->getName().str();
    Outcomes out;
    auto b = builtins.find(n);
    // models/except.cpp, when linked, defines the standard exceptions
    GlobalVariable* ev = M.getNamedGlobal("_ZTVSt11logic_error");
    bool modelled = ev && ev->hasInitializer();
    if (b != builtins.end() && !(modelled && !F->isDeclaration() && n.compare(0, 4, "_ZSt") == 0 && n.find("__throw_") != std::string::npos)) {
        if (b->second(*this, CB, args, st, out)) return out;
    }
    if (n.compare(0, 5, "llvm.") == 0) {
        // overloaded intrinsics by prefix
        std::string base = n;
        for (;;) {
            size_t p = base.rfind('.');
            if (p == std::string::npos || p <= 4) break;
            base = base.substr(0, p);
            auto c = builtins.find(base);
            if (c != builtins.end() && c->second(*this, CB, args, st, out)) return out;
        }
        throw Unsupported("intrinsic " + n);
    }
    if (F->isDeclaration() || (!modelled && n.compare(0, 4, "_ZNS") == 0)) {
        // constructors and destructors of standard exceptions carry no observable state here
        static const char* ex[] = {"invalid_argument", "logic_error", "runtime_error", "out_of_range", "domain_error", "length_error",
            "range_error", "overflow_error", "underflow_error", "9exception", "bad_alloc", "bad_array_new_length", "8bad_cast"};
        if (n.compare(0, 5, "_ZNSt") == 0)
            for (const char* e : ex) {
                size_t p = n.find(e);
                if (p != std::string::npos && p < 9) {
                    size_t q = p + strlen(e);
                    if (q < n.size() && (n[q] == 'C' || n[q] == 'D')) { out.norm.push_back({std::move(st), Val()}); return out; }
                }
            }
    }
    if (F->isDeclaration()) {
        oblige(st, OB_UNSUP, "call of external function " + demangle(n), tm.T0);
        return out;
    }
    return execFunction(F, args, std::move(st));
}
// ---------------------------------------------------------------- builtins
void Exec::registerBuiltins() {
    auto ret = [](Outcomes& o, State& st, Val v = Val()) { o.norm.push_back({std::move(st), v}); return true; };
    auto add = [&](const std::string& n, Builtin b) { builtins[n] = b; };
    auto nop = [&](const std::string& n) { add(n, [=](Exec&, CallBase*, std::vector<Val>&, State& st, Outcomes& o) { return ret(o, st); }); };
    for (const char* n : {"llvm.lifetime.start", "llvm.lifetime.end", "llvm.assume", "llvm.experimental.noalias.scope.decl", "llvm.dbg.value",
             "llvm.dbg.declare", "llvm.invariant.start", "llvm.invariant.end", "llvm.prefetch", "llvm.donothing", "llvm.stackrestore", "llvm.var.annotation",
             "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "__cxa_free_exception", "_ZNSt6localeC1Ev", "_ZNSt6localeD1Ev", "__cxa_guard_release", "__cxa_guard_abort"}) nop(n);
    add("__cxa_atexit", [=](Exec& e, CallBase*, std::vector<Val>&, State& st, Outcomes& o) { return ret(o, st, e.tm.konst(0, 32)); });
    add("__cxa_guard_acquire", [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) {
        Term* g = e.loadTerm(st, a[0].t, 1);
        e.storeTerm(st, a[0].t, e.tm.konst(1, 8), 1);
        return ret(o, st, e.tm.zext(e.tm.mkEq(g, e.tm.konst(0, 8)), 32)); });
    add("llvm.stacksave", [=](Exec& e, CallBase*, std::vector<Val>&, State& st, Outcomes& o) { return ret(o, st, e.k64(0)); });
    for (const char* n : {"llvm.expect", "llvm.expect.with.probability", "llvm.launder.invariant.group", "llvm.strip.invariant.group"})
        add(n, [=](Exec&, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) { return ret(o, st, a[0]); });
    add("llvm.is.constant", [=](Exec& e, CallBase*, std::vector<Val>&, State& st, Outcomes& o) { return ret(o, st, e.tm.T0); });
    add("llvm.objectsize", [=](Exec& e, CallBase*, std::vector<Val>&, State& st, Outcomes& o) { return ret(o, st, e.k64(~0ull)); });
    auto cp = [=](Exec& e, CallBase* cb, std::vector<Val>& a, State& st, Outcomes& o) { e.memCopy(st, a[0].t, a[1].t, e.tm.zext(a[2].t, 64)); return ret(o, st, a[0]); };
    for (const char* n : {"llvm.memcpy", "llvm.memmove", "memcpy", "memmove"}) add(n, cp);
    auto ms = [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) { e.memSet(st, a[0].t, a[1].t, e.tm.zext(a[2].t, 64)); return ret(o, st, a[0]); };
    for (const char* n : {"llvm.memset", "memset"}) add(n, ms);
    auto mm = [&](const char* n, int k) {
        add(n, [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) {
            Term *x = a[0].t, *y = a[1].t; Term* c = k < 2 ? e.tm.mkUlt(x, y) : e.tm.mkSlt(x, y);
            return ret(o, st, e.tm.ite(c, (k & 1) ? y : x, (k & 1) ? x : y)); });
    };
    mm("llvm.umin", 0); mm("llvm.umax", 1); mm("llvm.smin", 2); mm("llvm.smax", 3);
    add("llvm.abs", [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) {
        Term* x = a[0].t; return ret(o, st, e.tm.ite(e.tm.mkSlt(x, e.tm.konst(0, x->w)), e.tm.mkNeg(x), x)); });
    add("llvm.ctpop", [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) {
        Term* x = a[0].t; Term* s = e.tm.konst(0, x->w);
        for (int i = 0; i < x->w; i++) s = e.tm.mkAdd(s, e.tm.zext(e.tm.extract(x, i, 1), x->w));
        return ret(o, st, s); });
    add("llvm.cttz", [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) {
        Term* x = a[0].t; Term* s = e.tm.konst(x->w, x->w);
        for (int i = x->w; i-- > 0;) s = e.tm.ite(e.tm.extract(x, i, 1), e.tm.konst(i, x->w), s);
        return ret(o, st, s); });
    add("llvm.ctlz", [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) {
        Term* x = a[0].t; Term* s = e.tm.konst(x->w, x->w);
        for (int i = 0; i < x->w; i++) s = e.tm.ite(e.tm.extract(x, i, 1), e.tm.konst(x->w - 1 - i, x->w), s);
        return ret(o, st, s); });
    auto ov = [&](const char* n, int k) {
        add(n, [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) {
            Term *x = a[0].t, *y = a[1].t; int w = x->w; TermMgr& t = e.tm;
            bool sg = k & 1; int W = k >= 4 ? 2 * w : w + 1;
            if (W > 128) throw Unsupported("wide overflow intrinsic");
            Term *X = sg ? t.sext(x, W) : t.zext(x, W), *Y = sg ? t.sext(y, W) : t.zext(y, W);
            Term* r = k < 2 ? t.mkAdd(X, Y) : k < 4 ? t.mkSub(X, Y) : t.mkMul(X, Y);
            Term* lo = t.extract(r, 0, w);
            Term* ok = t.mkEq(r, sg ? t.sext(lo, W) : t.zext(lo, W));
            Val v; v.agg = std::make_shared<std::vector<Val>>(); v.agg->push_back(lo); v.agg->push_back(t.mkNot(ok));
            return ret(o, st, v); });
    };
    ov("llvm.uadd.with.overflow", 0); ov("llvm.sadd.with.overflow", 1); ov("llvm.usub.with.overflow", 2);
    ov("llvm.ssub.with.overflow", 3); ov("llvm.umul.with.overflow", 4); ov("llvm.smul.with.overflow", 5);
    add("llvm.fmuladd", [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) { return ret(o, st, e.tm.fadd(e.tm.fmul(a[0].t, a[1].t), a[2].t, false)); });
    add("llvm.fma", builtins["llvm.fmuladd"]);
    add("llvm.fabs", [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) { return ret(o, st, e.tm.fabs_(a[0].t)); });
    for (const char* n : {"fabs", "fabsf"}) add(n, builtins["llvm.fabs"]);
    auto fm = [&](const char* n, bool mx) {
        add(n, [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) {
            Term* c = e.tm.fcmp(a[0].t, a[1].t, 2);
            return ret(o, st, e.tm.ite(c, mx ? a[1].t : a[0].t, mx ? a[0].t : a[1].t)); });
    };
    for (const char* n : {"llvm.minnum", "fmin", "fminf"}) fm(n, false);
    for (const char* n : {"llvm.maxnum", "fmax", "fmaxf"}) fm(n, true);
    add("llvm.eh.typeid.for", [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) {
        return ret(o, st, e.tm.konst((u64)(a[0].t->c >> 32), 32)); });
    for (const char* n : {"pow", "powf", "llvm.pow", "llvm.powi"})
        add(n, [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) {
            Term* p = a[1].t; double k = p->fw ? (TermMgr::fIsConst(p) ? TermMgr::fconstVal(p) : -1) : p->isConst() ? (double)(int)(u64)p->c : -1;
            if (k != 0 && k != 1 && k != 2 && k != 3) throw Unsupported("pow with this exponent");
            Term* r = e.tm.fconst(1, a[0].t->fw);
            for (int i = 0; i < (int)k; i++) r = e.tm.fmul(r, a[0].t);
            return ret(o, st, r); });
    // allocation
    auto alloc = [=](ObjKind kind, bool zero) {
        return [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) {
            Term* n = zero ? e.tm.mkMul(a[0].t, a[1].t) : a[0].t;
            u64 cap; Term* sym = nullptr;
            if (n->isConst()) {
                if (n->c > (1u << 25)) throw Unsupported("allocation of " + std::to_string((u64)n->c) + " bytes");
                cap = (u64)n->c;
            } else {
                cap = e.allocCap;
                if (n->hi <= cap) cap = (u64)n->hi;
                else {
                    e.cuts.insert("executions that allocate more than " + std::to_string(cap) + " bytes at once are outside the bound");
                    e.addPC(st, e.tm.mkUle(n, e.k64(cap)));
                    if (!st.live) return true;
                }
                sym = n;
            }
            u64 id = e.newObj(st, cap, kind, "heap block allocated in " + e.where(), sym);
            if (zero) e.memSet(st, e.k64(addrOf(id)), e.tm.konst(0, 8), e.k64(cap));
            return ret(o, st, e.k64(addrOf(id)));
        };
    };
    for (const char* n : {"_Znwm", "_ZnwmRKSt9nothrow_t", "_ZnwmSt11align_val_t"}) add(n, alloc(O_HEAP, false));
    for (const char* n : {"_Znam", "_ZnamRKSt9nothrow_t"}) add(n, alloc(O_NEWARR, false));
    add("malloc", alloc(O_MALLOC, false)); add("calloc", alloc(O_MALLOC, true));
    auto dealloc = [=](ObjKind kind) {
        return [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) {
            Term* p = a[0].t;
            std::vector<Term*> ls;
            if (!p->leaves) throw Unsupported("free of an unresolved pointer");
            e.tm.leaves(p, [&](Term* l) { ls.push_back(l); });
            for (Term* l : ls) {
                Term* g = e.tm.mkEq(p, l);
                if (l->c == 0 || (g->isConst() && !g->c) || e.known(st.pc, g) == 0) continue;
                Obj* ob = st.mem.get((u64)(l->c >> 32) - 1);
                bool bad = !ob || (l->c & 0xffffffffu) || ob->kind == O_STACK || ob->kind == O_GLOBAL || ob->kind == O_CONST || ob->kind == O_FUNC || ob->kind != kind;
                if (bad) { e.oblige(st, OB_MEM, "free of memory not obtained from the matching allocation", e.tm.mkNot(g)); continue; }
                e.checkAlive(st, g, ob, "free");
                Obj* w = st.mem.mut((u64)(l->c >> 32) - 1);
                if (g->isConst()) { w->dead = e.tm.T1; w->cells.clear(); w->cells.shrink_to_fit(); w->size = 0; w->symSize = nullptr; w->name += " (freed)"; }
                else w->dead = w->dead ? e.tm.mkOr(w->dead, g) : g;
            }
            return ret(o, st);
        };
    };
    for (const char* n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t"}) add(n, dealloc(O_HEAP));
    for (const char* n : {"_ZdaPv", "_ZdaPvm"}) add(n, dealloc(O_NEWARR));
    add("free", dealloc(O_MALLOC));
    // exceptions
    add("__cxa_allocate_exception", [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) {
        u64 id = e.newObj(st, 16 + (u64)a[0].t->c, O_GLOBAL, "exception object");
        return ret(o, st, e.k64(addrOf(id) + 16)); });
    add("__cxa_throw", [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) {
        e.storeTerm(st, e.tm.mkAdd(a[0].t, e.k64((u64)-8)), a[1].t, 8);
        e.throwExc(st, a[0].t, o); return true; });
    add("__cxa_begin_catch", [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) { st.caught.push_back(a[0].t); return ret(o, st, a[0]); });
    add("__cxa_get_exception_ptr", [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) { return ret(o, st, a[0]); });
    add("__cxa_end_catch", [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) { if (!st.caught.empty()) st.caught.pop_back(); return ret(o, st); });
    add("__cxa_rethrow", [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) {
        if (st.caught.empty()) throw Unsupported("rethrow without exception");
        e.throwExc(st, st.caught.back(), o); return true; });
    auto thrower = [=](const std::string& ti) {
        return [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) {
            u64 tid = 0;
            if (GlobalVariable* G = e.M.getNamedGlobal(ti)) tid = addrOf(e.idOfGlobal(G));
            else {
                auto it = e.tiExtra.find(ti);
                if (it == e.tiExtra.end()) throw Unsupported("type info " + ti);
                tid = addrOf(it->second);
            }
            u64 id = e.newObj(st, 32, O_GLOBAL, "exception object");
            e.storeTerm(st, e.k64(addrOf(id) + 8), e.k64(tid), 8);
            e.throwExc(st, e.k64(addrOf(id) + 16), o);
            return true;
        };
    };
    add("_ZSt20__throw_length_errorPKc", thrower("_ZTISt12length_error"));
    add("_ZSt17__throw_bad_allocv", thrower("_ZTISt9bad_alloc"));
    add("_ZSt28__throw_bad_array_new_lengthv", thrower("_ZTISt20bad_array_new_length"));
    add("_ZSt24__throw_out_of_range_fmtPKcz", thrower("_ZTISt12out_of_range"));
    add("_ZSt20__throw_out_of_rangePKc", thrower("_ZTISt12out_of_range"));
    add("_ZSt19__throw_logic_errorPKc", thrower("_ZTISt11logic_error"));
    add("_ZSt24__throw_invalid_argumentPKc", thrower("_ZTISt16invalid_argument"));
    add("_ZSt25__throw_bad_function_callv", thrower("_ZTISt17bad_function_call"));
    add("vp_throw_invalid_argument", thrower("_ZTISt16invalid_argument"));
    auto die = [&](const char* n, const std::string& why) {
        add(n, [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) { e.oblige(st, OB_ABORT, why, e.tm.T0); return true; });
    };
    die("_ZSt9terminatev", "std::terminate is called"); die("abort", "abort is called"); die("__assert_fail", "an assertion fails");
    die("_ZSt21__glibcxx_assert_failPKciS0_S0_", "a standard library precondition is violated (out-of-range element access)");
    die("__cxa_pure_virtual", "pure virtual call"); die("exit", "exit is called"); die("_exit", "exit is called"); die("__cxa_call_unexpected", "unexpected exception");
    die("llvm.trap", "trap");
    // strings
    add("strlen", [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) {
        Term* p = a[0].t; u64 lim = e.objLimit(st, p);
        std::vector<Term*> ch; bool ended = false;
        for (u64 i = 0; i < lim && !ended; i++) {
            Term* c;
            u64 off = p->isConst() ? (u64)p->c & 0xffffffffu : 0;
            if (off + i >= lim) break;
            c = e.loadTerm(st, e.tm.mkAdd(p, e.k64(i)), 1, "strlen read");
            ch.push_back(c);
            if (c->isConst() && !c->c) ended = true;
        }
        Term* r = e.k64(ch.size());
        for (size_t i = ch.size(); i-- > 0;) r = e.tm.ite(e.tm.mkEq(ch[i], e.tm.konst(0, 8)), e.k64(i), r);
        return ret(o, st, r); });
    auto cmp = [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) {
        Term* n = a[2].t; TermMgr& t = e.tm;
        u64 m = n->isConst() ? (u64)n->c : (u64)std::min<u128>(n->hi, std::min(e.objLimit(st, a[0].t), e.objLimit(st, a[1].t)));
        std::vector<Cell> x, y;
        Term* r = t.konst(0, 32);
        if (m) {
            e.readBlock(st, a[0].t, n, m, x, "memcmp read"); e.readBlock(st, a[1].t, n, m, y, "memcmp read");
            for (u64 i = m; i-- > 0;) {
                if (!x[i].t || !y[i].t) { if (n->isConst()) throw Unsupported("comparison of uninitialised memory"); continue; }
                Term *p = e.byteOf(x[i]), *q = e.byteOf(y[i]);
                Term* in = t.mkUlt(e.k64(i), n);
                r = t.ite(t.mkAnd(in, t.mkNot(t.mkEq(p, q))), t.ite(t.mkUlt(p, q), t.konst(~0u, 32), t.konst(1, 32)), r);
            }
        }
        return ret(o, st, r);
    };
    add("memcmp", cmp); add("bcmp", cmp);
    add("memchr", [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) {
        Term* n = a[2].t; TermMgr& t = e.tm;
        u64 m = n->isConst() ? (u64)n->c : (u64)std::min<u128>(n->hi, e.objLimit(st, a[0].t));
        std::vector<Cell> x; Term* r = e.k64(0);
        if (m) e.readBlock(st, a[0].t, n, m, x, "memchr read");
        for (u64 i = m; i-- > 0;) {
            if (!x[i].t) continue;
            Term* hit = t.mkAnd(t.mkUlt(e.k64(i), n), t.mkEq(e.byteOf(x[i]), t.extract(a[1].t, 0, 8)));
            r = t.ite(hit, t.mkAdd(a[0].t, e.k64(i)), r);
        }
        return ret(o, st, r); });
    // std::to_string only feeds error messages here: the text is empty in the model
    for (char c : std::string("mjildfxye"))
        add((std::string("_ZNSt7__cxx119to_stringE") + c).c_str(), [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) {
            Term* p = a[0].t;
            e.cuts.insert("std::to_string yields an empty string (used in error messages only)");
            e.storeTerm(st, p, e.tm.mkAdd(p, e.k64(16)), 8);
            e.storeTerm(st, e.tm.mkAdd(p, e.k64(8)), e.k64(0), 8);
            e.storeTerm(st, e.tm.mkAdd(p, e.k64(16)), e.tm.konst(0, 8), 1);
            return ret(o, st); });
    // harness interface
    auto vname = [](Exec& e, State& st, std::vector<Val>& a) {
        std::string s = e.readCStr(st, a[0].t);
        if (!a[1].t->isConst()) throw Unsupported("symbolic variable index");
        i64 i = (i64)TermMgr::sx(a[1].t->c, a[1].t->w);
        if (i >= 0) s += "[" + std::to_string(i) + "]";
        if (!e.varNames.insert(s).second) throw Unsupported("harness variable declared twice: " + s);
        return s;
    };
    add("vp_u64", [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) {
        if (!a[2].t->isConst() || !a[3].t->isConst()) throw Unsupported("symbolic bounds");
        u64 lo = (u64)a[2].t->c, hi = (u64)a[3].t->c;
        int w = 1; while (w < 64 && (hi >> w)) w++;
        return ret(o, st, e.tm.zext(e.tm.var(vname(e, st, a), w, lo, hi), 64)); });
    add("vp_int_double", [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) {
        i64 lo = (i64)(u64)a[2].t->c, hi = (i64)(u64)a[3].t->c; i64 sc = (int)(u64)a[4].t->c;
        std::string n = vname(e, st, a);
        u64 span = (u64)(hi - lo); int w = 1; while (w < 64 && (span >> w)) w++;
        Term* v = e.tm.var(n, w, 0, span);
        int W = TermMgr::bitsFor(lo, hi); if (W <= w) W = w + 1;
        Term* t = e.tm.mkAdd(e.tm.zext(v, W), e.tm.konst((u128)(i128)lo, W));
        return ret(o, st, e.tm.fint(t, (int)sc, lo, hi, 64)); });
    add("vp_raw_double", [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) {
        return ret(o, st, e.tm.fromBits(e.tm.var(vname(e, st, a), 64, 0, TermMgr::mask(64)), 64)); });
    add("vp_assume", [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) {
        Term* c = e.tm.mkNot(e.tm.mkEq(a[0].t, e.tm.konst(0, a[0].t->w)));
        int k = e.known(st.pc, c);
        if (k == 0) return true;
        if (k < 0) e.addPC(st, c);
        return ret(o, st); });
    add("vp_check", [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) {
        Term* c = e.tm.mkNot(e.tm.mkEq(a[0].t, e.tm.konst(0, a[0].t->w)));
        e.nChecks++;
        e.oblige(st, OB_CHECK, e.readCStr(st, a[1].t), c);
        return ret(o, st); });
    add("vp_reach", [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) {
        e.reaches.push_back({e.readCStr(st, a[0].t), st.pc}); return ret(o, st); });
    add("vp_observe", [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) {
        std::string n = e.readCStr(st, a[0].t);
        if (!a[1].t->isConst()) throw Unsupported("symbolic observation index");
        n += "[" + std::to_string((i64)(u64)a[1].t->c) + "]";
        e.observes.push_back({n, st.pc, a[2].t}); return ret(o, st); });
    add("vp_observe_d", builtins["vp_observe"]);
    add("vp_param", [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) {
        std::string n = e.readCStr(st, a[0].t);
        auto it = e.params.find(n);
        u64 v = it == e.params.end() ? (u64)a[1].t->c : std::stoull(it->second);
        e.usedParams[n] = std::to_string(v);
        return ret(o, st, e.k64(v)); });
    add("vp_and", [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) { return ret(o, st, e.tm.mkAnd(a[0].t, a[1].t)); });
    add("vp_or", [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) { return ret(o, st, e.tm.mkOr(a[0].t, a[1].t)); });
    add("vp_ite_u64", [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) {
        return ret(o, st, e.tm.ite(e.tm.extract(a[0].t, 0, 1), a[1].t, a[2].t)); });
    add("vp_ite_d", builtins["vp_ite_u64"]);
    // least upper bound of a value on this path, found by the solver when the intervals are useless
    add("vp_upper", [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) {
        Term* t = a[0].t;
        if (t->isConst()) return ret(o, st, t);
        if (t->hi <= 64) return ret(o, st, e.k64((u64)t->hi));
        u64 top = 64;
        std::vector<u128> none;
        auto may = [&](u64 v) { Term* q = e.tm.mkAnd(e.conj(st.pc), e.tm.mkUlt(e.k64(v), t)); if (q->isConst()) return q->c != 0; e.nFeas++; return e.solveQuick(q) != 0; };
        u64 lo = 0;
        while (t->hi > top && may(top)) {
            if (top >= 512) throw Unsupported("a range may have more than 512 elements");
            lo = top + 1; top *= 2;
        }
        while (lo < top) { u64 m = (lo + top) / 2; if (may(m)) lo = m + 1; else top = m; }
        return ret(o, st, e.k64(top)); });
    add("vp_peek_double", [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) {
        Term* g = e.tm.mkUlt(a[1].t, a[2].t); int k = e.known(st.pc, g);
        Term* zero = e.tm.fint(e.tm.konst(0, 1), 0, 0, 0, 64);
        if (k == 0) return ret(o, st, zero);
        Term* p = e.tm.mkAdd(a[0].t, e.tm.mkMul(a[1].t, e.k64(8)));
        if (k == 1) return ret(o, st, e.tm.fromBits(e.loadTerm(st, p, 8), 64));
        State s2 = st; e.addPC(s2, g);
        Term* v = e.loadTerm(s2, p, 8);
        return ret(o, st, v ? e.tm.ite(g, e.tm.fromBits(v, 64), zero) : zero); });
    add("vp_poke_double", [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) {
        Term* g = e.tm.mkUlt(a[1].t, a[2].t); int k = e.known(st.pc, g);
        if (k == 0) return ret(o, st);
        Term* p = e.tm.mkAdd(a[0].t, e.tm.mkMul(a[1].t, e.k64(8)));
        if (k == 1) { e.storeTerm(st, p, a[3].t, 8); return ret(o, st); }
        State s2 = st; e.addPC(s2, g);
        e.storeTerm(s2, p, a[3].t, 8);
        e.addPC(st, e.tm.mkNot(g));
        e.mergeState(s2, st);
        st = std::move(s2);
        return ret(o, st); });
    add("vp_lo", [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) { return ret(o, st, e.k64((u64)a[0].t->lo)); });
    add("vp_hi", [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) { return ret(o, st, e.k64((u64)a[0].t->hi)); });
    add("vp_concrete", [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) { return ret(o, st, e.tm.boolc(a[0].t->isConst())); });
    add("vp_symbolic_run", [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) { return ret(o, st, e.tm.konst(1, 1)); });
    add("vp_share", [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) {
        u64 id = (u64)(a[0].t->c >> 32) - 1; Obj* ob = st.mem.mut(id);
        ob->shared = true; ob->loAddr = (u64)a[1].t->c; ob->hiAddr = (u64)a[2].t->c;
        return ret(o, st); });
    add("vp_share_last", [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) {
        st.mem.mut((u64)(a[0].t->c >> 32) - 1)->frAddr = (u64)a[1].t->c; return ret(o, st); });
    add("vp_share_size", [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) { return ret(o, st); });
    add("vp_unshare", [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) {
        st.mem.mut((u64)(a[0].t->c >> 32) - 1)->shared = false; return ret(o, st); });
    // OpenMP runtime, sequentialised: thread t of a team of n runs to completion before thread t+1
    auto curTid = [](Exec& e) { return e.team.empty() ? 0 : e.team.back().first; };
    auto curN = [](Exec& e) { return e.team.empty() ? 1 : e.team.back().second; };
    for (const char* n : {"omp_get_num_threads", "omp_get_num_threads_"})
        add(n, [=](Exec& e, CallBase*, std::vector<Val>&, State& st, Outcomes& o) { return ret(o, st, e.tm.konst(curN(e), 32)); });
    add("omp_get_max_threads", [=](Exec& e, CallBase*, std::vector<Val>&, State& st, Outcomes& o) { return ret(o, st, e.tm.konst(e.ompThreads, 32)); });
    add("omp_get_num_procs", builtins["omp_get_max_threads"]);
    add("omp_get_thread_num", [=](Exec& e, CallBase*, std::vector<Val>&, State& st, Outcomes& o) { return ret(o, st, e.tm.konst(curTid(e), 32)); });
    add("__kmpc_global_thread_num", builtins["omp_get_thread_num"]);
    add("__kmpc_push_num_threads", [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) {
        if (!a[2].t->isConst()) throw Unsupported("symbolic num_threads");
        e.ompNext = (int)(u64)a[2].t->c; return ret(o, st); });
    add("__kmpc_fork_call", [=](Exec& e, CallBase* cb, std::vector<Val>& a, State& st, Outcomes& o) {
        int n = e.ompNext ? e.ompNext : e.ompThreads; e.ompNext = 0;
        auto f = e.fnOf.find((u64)(a[2].t->c >> 32) - 1);
        if (f == e.fnOf.end()) throw Unsupported("OpenMP region");
        State cur = std::move(st);
        for (int k = 0; k < n; k++) {
            int t = e.ompReverse ? n - 1 - k : k;
            u64 id = e.newObj(cur, 8, O_STACK, "OpenMP thread ids");
            e.storeTerm(cur, e.k64(addrOf(id)), e.tm.konst(t, 32), 4);
            e.storeTerm(cur, e.k64(addrOf(id) + 4), e.tm.konst(t, 32), 4);
            std::vector<Val> args{Val(e.k64(addrOf(id))), Val(e.k64(addrOf(id) + 4))};
            for (size_t i = 3; i < a.size(); i++) args.push_back(a[i]);
            e.team.push_back({t, n});
            Outcomes r = e.execFunction(f->second, args, std::move(cur));
            e.team.pop_back();
            if (!r.exc.empty()) e.oblige(r.exc[0].st, OB_ABORT, "an exception leaves an OpenMP region", e.tm.T0);
            if (r.norm.empty()) return true;
            cur = std::move(r.norm[0].st);
            cur.mem.erase(id);
        }
        return ret(o, cur); });
    auto sched = [&](const char* n, int bits, bool sg) {
        // (loc, gtid, schedtype, plast, plower, pupper, pstride, incr, chunk): static block distribution
        add(n, [=](Exec& e, CallBase*, std::vector<Val>& a, State& st, Outcomes& o) {
            int B = bits / 8;
            Term* lo = e.loadTerm(st, a[4].t, B); Term* up = e.loadTerm(st, a[5].t, B);
            if (!lo->isConst() || !up->isConst()) throw Unsupported("symbolic OpenMP loop bounds");
            u64 L = (u64)lo->c, U = (u64)up->c; int N = curN(e), T = curTid(e);
            u64 trip = U - L + 1, small = trip / N, extra = trip % N;
            u64 l = L + T * small + std::min<u64>(T, extra);
            u64 cnt = small + ((u64)T < extra ? 1 : 0);
            u64 u = l + cnt - 1;
            e.storeTerm(st, a[4].t, e.tm.konst(l, bits), B);
            e.storeTerm(st, a[5].t, e.tm.konst(u, bits), B);
            e.storeTerm(st, a[3].t, e.tm.konst(cnt && l + cnt == L + trip, 32), 4);
            e.storeTerm(st, a[6].t, e.tm.konst(trip, bits), B);
            return ret(o, st); });
    };
    sched("__kmpc_for_static_init_4", 32, true); sched("__kmpc_for_static_init_4u", 32, false);
    sched("__kmpc_for_static_init_8", 64, true); sched("__kmpc_for_static_init_8u", 64, false);
    for (const char* n : {"__kmpc_for_static_fini", "__kmpc_barrier", "__kmpc_end_reduce_nowait", "__kmpc_end_reduce", "__kmpc_critical", "__kmpc_end_critical",
                          "omp_set_num_threads", "omp_set_dynamic", "omp_set_nested", "__kmpc_flush"}) nop(n);
    for (const char* n : {"__kmpc_reduce_nowait", "__kmpc_reduce", "__kmpc_master", "__kmpc_single"})
        add(n, [=](Exec& e, CallBase*, std::vector<Val>&, State& st, Outcomes& o) { return ret(o, st, e.tm.konst(1, 32)); });
    for (const char* n : {"__kmpc_end_master", "__kmpc_end_single"}) nop(n);
}
// ---------------------------------------------------------------- driver
static std::string jstr(const std::string& s) {
    std::string r = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
static std::string u128s(u128 v) {
    if (!v) return "0";
    std::string s; while (v) { s += char('0' + (int)(v % 10)); v /= 10; }
    std::reverse(s.begin(), s.end()); return s;
}
static int gargc; static char** gargv; static int grc;
// what the environment did along the path of a model: "e<i>[k]" value found by the i-th shared read, "w<i>" freeze decision of the i-th write
static void envSeq(Exec& E, std::vector<u128>& model, std::ostringstream& c, bool& first) {
    std::unordered_map<Term*, u128> memo; int i = 0, w = 0;
    for (auto& ev : E.envEvents) {
        if (!E.tm.evalBV(E.tm.mkAnd(E.conj(ev.pc), ev.guard), model, memo)) continue;
        for (size_t k = 0; k < ev.vals.size(); k++) {
            std::string n = ev.write ? "w#" + std::to_string(w) : "e#" + std::to_string(i) + "[" + std::to_string(k) + "]";
            c << (first ? "" : ",") << jstr(n) << ":" << jstr(u128s(E.tm.evalBV(ev.vals[k], model, memo))); first = false;
        }
        if (ev.write) w++; else i++;
    }
}
static int realMain(int argc, char** argv) {
    std::string file, entry = "vp_harness", outf, dump;
    LLVMContext ctx; SMDiagnostic err;
    std::map<std::string, std::string> params, opts;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "-p") { std::string kv = argv[++i]; size_t q = kv.find('='); params[kv.substr(0, q)] = kv.substr(q + 1); }
        else if (a.size() > 2 && a.substr(0, 2) == "--") { std::string v = argv[++i]; opts[a.substr(2)] = v; }
        else file = a;
    }
    if (opts.count("entry")) entry = opts["entry"];
    auto mod = parseIRFile(file, err, ctx);
    if (!mod) { err.print("vpsym", errs()); return 3; }
    Exec E(*mod);
    E.params = params;
    if (opts.count("unwind")) E.unwind = std::stoul(opts["unwind"]);
    if (opts.count("feas")) E.feasFrom = std::stoul(opts["feas"]);
    if (opts.count("feasown")) E.feasOwn = true;
    if (opts.count("cap")) E.allocCap = std::stoul(opts["cap"]);
    if (opts.count("time")) E.maxSeconds = std::stod(opts["time"]);
    if (opts.count("threads")) E.ompThreads = std::stoi(opts["threads"]);
    if (opts.count("reverse")) E.ompReverse = std::stoi(opts["reverse"]);
    double budget = E.maxSeconds;
    Solver S(E.tm);
    if (opts.count("backend")) S.backend = opts["backend"];
    if (opts.count("dump")) S.dumpDir = opts["dump"];
    const bool trace = getenv("VPSYM_TRACE");
    const bool lazy = opts.count("lazy");   // one case of several: a marker has to be reachable in one of them
    E.solveQuick = [&](Term* t) {
        double b = S.seconds;
        int r = S.check(t, E.feasOwn ? 3 : 20, nullptr);
        if (trace) fprintf(stderr, "feasibility: %d in %.2f s at %s\n", r, S.seconds - b, E.where().c_str());
        return r; };
    E.registerBuiltins();
    std::string status = "pass", reason;
    std::ostringstream J;
    std::string cexJson = "null", witJson = "null", failJson = "null";
    auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - E.t0).count(); };
    double execS = 0;
    size_t discharged = 0, trivial = 0, nOb = 0, groups = 0;
    std::vector<std::string> reached;
    std::map<std::string, int> byKind;
    try {
        State st;
        E.initGlobals(st);
        for (auto& b : stdBases()) if (!mod->getNamedGlobal(b.first)) {
            u64 id = E.newObj(st, 8, O_CONST, b.first); E.tiExtra[b.first] = id;
        }
        for (auto& g : mod->globals()) (void)g;
        if (auto* G = mod->getNamedGlobal("llvm.global_ctors"))
            if (auto* A = dyn_cast<ConstantArray>(G->getInitializer()))
                for (auto& op : A->operands()) {
                    auto* F = dyn_cast<Function>(cast<ConstantStruct>(op)->getOperand(1)->stripPointerCasts());
                    if (!F) continue;
                    Outcomes o = E.execFunction(F, {}, std::move(st));
                    if (o.norm.empty()) throw std::runtime_error("a global constructor does not return");
                    st = std::move(o.norm[0].st);
                }
        Function* F = mod->getFunction(entry);
        if (!F) throw std::runtime_error("no entry function " + entry);
        Outcomes o = E.execFunction(F, {}, std::move(st));
        for (auto& x : o.exc) E.oblige(x.st, OB_THROW, "an exception leaves the harness", E.tm.T0);
        if (!o.norm.empty()) E.reaches.push_back({"end of harness", o.norm[0].st.pc});
        execS = elapsed();
        // group the obligations
        nOb = E.obs.size();
        struct G { std::string key; std::vector<size_t> idx; };
        std::vector<G> gs; std::map<std::string, size_t> gi;
        std::vector<Term*> viol(E.obs.size());
        for (size_t i = 0; i < E.obs.size(); i++) {
            auto& ob = E.obs[i];
            viol[i] = E.tm.mkAnd(E.conj(ob.pc), E.tm.mkNot(ob.cond));
            byKind[obName(ob.kind)]++;
            if (viol[i]->isConst() && !viol[i]->c) { trivial++; discharged++; continue; }
            std::string key = ob.kind == OB_CHECK ? "check:" + ob.msg : ob.kind == OB_UNSUP ? "unsup" : ob.kind == OB_BOUND ? "bound" : "safety";
            if (!gi.count(key)) { gi[key] = gs.size(); gs.push_back({key, {}}); }
            gs[gi[key]].idx.push_back(i);
        }
        // unsupported and bound obligations last: a definite violation matters more
        std::stable_sort(gs.begin(), gs.end(), [](const G& a, const G& b) {
            auto r = [](const std::string& k) { return k == "unsup" ? 2 : k == "bound" ? 1 : 0; };
            return r(a.key) < r(b.key); });
        bool inconclusive = false;
        for (auto& g : gs) {
            groups++;
            std::vector<std::vector<size_t>> work{g.idx};
            while (!work.empty()) {
                auto w = work.back(); work.pop_back();
                Term* any = E.tm.T0;
                for (size_t i : w) any = E.tm.mkOr(any, viol[i]);
                std::vector<u128> model;
                double left = budget - elapsed();
                int r = left <= 1 ? -1 : S.check(any, w.size() > 1 ? std::min(left, std::max(60.0, left / 3)) : left, &model);
                if (r == 0) { discharged += w.size(); continue; }
                if (r < 0) {
                    if (w.size() > 1 && budget - elapsed() > 5) {
                        size_t h = w.size() / 2;
                        work.push_back({w.begin() + h, w.end()}); work.push_back({w.begin(), w.begin() + h});
                        continue;
                    }
                    inconclusive = true;
                    reason += "solver gave no answer for: " + E.obs[w[0]].msg + "; ";
                    continue;
                }
                // satisfiable: which obligation
                std::unordered_map<Term*, u128> memo;
                size_t hit = w[0]; bool found = false;
                for (size_t i : w) if (E.tm.evalBV(viol[i], model, memo)) { hit = i; found = true; break; }
                if (!found) throw std::runtime_error("solver model does not satisfy the query (translation error)");
                auto& ob = E.obs[hit];
                if (ob.kind == OB_UNSUP) { inconclusive = true; reason += "unsupported: " + ob.msg + " at " + ob.where + "; "; continue; }
                std::ostringstream c;
                c << "{\"kind\":" << jstr(obName(ob.kind)) << ",\"msg\":" << jstr(ob.msg) << ",\"where\":" << jstr(ob.where) << ",\"vars\":{";
                bool first = true;
                for (size_t v = 0; v < E.tm.vars.size(); v++) {
                    auto& x = E.tm.vars[v];
                    if (x.internal) continue;
                    c << (first ? "" : ",") << jstr(x.name) << ":" << jstr(u128s(x.t->isConst() ? x.lo : model[v])); first = false;
                }
                envSeq(E, model, c, first);
                c << "}}";
                cexJson = c.str();
                status = "violation";
                break;
            }
            if (status == "violation") break;
        }
        if (status != "violation" && inconclusive) status = "inconclusive";
        // vacuity: every reachability marker must be satisfiable
        if (status == "pass") {
            std::vector<u128> model; bool haveWit = false;
            if (E.reaches.empty() && !lazy) { status = "inconclusive"; reason = "no reachability marker was reached"; }
            std::map<std::string, Term*> rm;
            for (auto& r : E.reaches) { Term* c = E.conj(r.second); rm[r.first] = rm.count(r.first) ? E.tm.mkOr(rm[r.first], c) : c; }
            for (auto& r : rm) {
                std::vector<u128> m;
                int q = S.check(r.second, std::max(5.0, budget - elapsed()), &m);
                if (q == 1) { reached.push_back(r.first); if (r.first == "witness" || !haveWit) { model = m; haveWit = true; } }
                else if (q == 0 && lazy) ;
                else if (q == 0) { status = "inconclusive"; reason += "vacuous: " + r.first + " is unreachable; "; }
                else { status = "inconclusive"; reason += "solver gave no answer for reachability of " + r.first + "; "; }
            }
            if (haveWit && status == "pass") {
                std::ostringstream c; bool first = true;
                c << "{\"vars\":{";
                for (size_t v = 0; v < E.tm.vars.size(); v++) {
                    auto& x = E.tm.vars[v];
                    if (x.internal) continue;
                    c << (first ? "" : ",") << jstr(x.name) << ":" << jstr(u128s(x.t->isConst() ? x.lo : model[v])); first = false;
                }
                envSeq(E, model, c, first);
                c << "},\"observe\":{"; first = true;
                std::unordered_map<Term*, u128> memo;
                for (auto& ob : E.observes) {
                    if (!E.tm.evalBV(E.conj(ob.pc), model, memo)) continue;
                    c << (first ? "" : ",") << jstr(ob.name) << ":" << jstr(u128s(E.tm.evalBV(ob.t, model, memo))); first = false;
                }
                c << "}}";
                witJson = c.str();
            }
        }
    } catch (std::exception& e) {
        status = "inconclusive"; reason += std::string("engine: ") + e.what();
    }
    J << "{\"status\":" << jstr(status) << ",\"reason\":" << jstr(reason) << ",\"cex\":" << cexJson << ",\"witness\":" << witJson;
    J << ",\"stats\":{\"instructions\":" << E.nInst << ",\"calls\":" << E.nCalls << ",\"forks\":" << E.nFork << ",\"merges\":" << E.nMerge
      << ",\"terms\":" << E.tm.all.size() << ",\"variables\":" << E.tm.vars.size() << ",\"obligations\":" << nOb << ",\"trivial\":" << trivial
      << ",\"discharged\":" << discharged << ",\"queries\":" << S.queries << ",\"solver_s\":" << S.seconds << ",\"exec_s\":" << execS
      << ",\"feasibility_queries\":" << E.nFeas << ",\"pruned\":" << E.nPruned << ",\"checks\":" << E.nChecks << "}";
    J << ",\"by_kind\":{"; bool f = true;
    for (auto& k : byKind) { J << (f ? "" : ",") << jstr(k.first) << ":" << k.second; f = false; }
    J << "},\"reached\":["; f = true;
    for (auto& r : reached) { J << (f ? "" : ",") << jstr(r); f = false; }
    J << "],\"markers\":["; f = true;
    { std::set<std::string> ms; for (auto& r : E.reaches) ms.insert(r.first); for (auto& r : ms) { J << (f ? "" : ",") << jstr(r); f = false; } }
    J << "],\"cuts\":["; f = true;
    for (auto& r : E.cuts) { J << (f ? "" : ",") << jstr(r); f = false; }
    J << "],\"params\":{"; f = true;
    for (auto& r : E.usedParams) { J << (f ? "" : ",") << jstr(r.first) << ":" << r.second; f = false; }
    J << "},\"functions\":["; f = true;
    for (auto& r : E.executed) {
        std::string d = demangle(r);
        if (d.compare(0, 4, "sp::") == 0 || d.compare(0, 6, "bool s") == 0 || opts.count("allfns")) { J << (f ? "" : ",") << jstr(d.substr(0, d.find('('))); f = false; }
    }
    J << "]}";
    if (opts.count("out")) { std::ofstream of(opts["out"]); of << J.str() << "\n"; }
    else std::cout << J.str() << std::endl;
    return status == "pass" ? 0 : status == "violation" ? 1 : 2;
}
static void* thr(void*) { grc = realMain(gargc, gargv); return nullptr; }
int main(int argc, char** argv) {
    gargc = argc; gargv = argv;
    pthread_attr_t at; pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, (size_t)2 << 30);
    pthread_t t;
    if (pthread_create(&t, &at, thr, nullptr)) { perror("thread"); return 3; }
    pthread_join(t, nullptr);
    fflush(stdout); std::cout.flush();
    _exit(grc);
}
