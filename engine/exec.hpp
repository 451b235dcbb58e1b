// Symbolic executor with state merging over LLVM IR.
#pragma once
#include "mem.hpp"
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <chrono>
#include <memory>

using namespace llvm;

struct PCNode : RC {
    Ref<PCNode> up; Term* lit; int depth; Term* conj;
};
struct Val {
    Term* t = nullptr;
    std::shared_ptr<std::vector<Val>> agg;
    Val() {}
    Val(Term* x) : t(x) {}
};
struct State {
    Mem mem;
    Ref<PCNode> pc;
    Term* excPtr = nullptr;
    std::vector<Term*> caught;
    bool live = true;
};
struct Outcome { State st; Val ret; };
struct Outcomes { std::vector<Outcome> norm, exc; };

struct FnInfo {
    Function* F;
    std::unordered_map<const Value*, int> num;
    std::unordered_map<const BasicBlock*, uint32_t> order;
    std::unordered_map<const BasicBlock*, std::vector<int>> liveIn;
    std::unordered_map<const BasicBlock*, std::vector<const Loop*>> loopsOf; // outer..inner
    DominatorTree DT; LoopInfo LI;
    int n = 0;
};

enum ObKind { OB_CHECK, OB_MEM, OB_ABORT, OB_UNREACH, OB_BOUND, OB_UNSUP, OB_DIV, OB_THROW };
inline const char* obName(int k) {
    static const char* n[] = {"check", "memory", "abort", "unreachable", "loop-bound", "unsupported", "division", "exception"};
    return n[k];
}
struct Obligation { ObKind kind; std::string msg; Ref<PCNode> pc; Term* cond; std::string where; };
struct Observation { std::string name; Ref<PCNode> pc; Term* t; };

struct Item {
    BasicBlock* bb;
    State st;
    std::vector<Val> regs;
    struct Iter { const Loop* first; uint32_t second; uint32_t sym; };   // iterations, and those left on an undecided condition
    std::vector<Iter> loops;
};
typedef std::vector<uint32_t> Key;

struct PathEnd { };   // the current path ended (obligation already recorded)

struct CT { Term* guard; u64 id; u64 off; };   // concrete access target

class Exec;
typedef std::function<bool(Exec&, CallBase*, std::vector<Val>&, State&, Outcomes&)> Builtin;

class Exec {
public:
    TermMgr tm;
    Module& M; const DataLayout& DL;
    std::vector<Obligation> obs;
    std::vector<Observation> observes;
    std::vector<std::pair<std::string, Ref<PCNode>>> reaches;
    std::map<std::string, std::string> params;
    std::map<std::string, std::string> usedParams;
    std::set<std::string> executed;
    std::set<std::string> cuts;                // recorded restrictions of the exploration
    std::map<std::string, Builtin> builtins;
    std::unordered_map<const Value*, u64> globalId;
    std::unordered_map<u64, Function*> fnOf;
    std::unordered_map<Function*, std::unique_ptr<FnInfo>> infos;
    std::set<std::string> varNames;
    u64 nextId = 1;
    u64 nInst = 0, nMerge = 0, nFork = 0, nFeas = 0, nPruned = 0, nCalls = 0;
    uint32_t unwind = 400, maxConcrete = 3000000, feasFrom = 8;
    bool feasOwn = false;
    double maxSeconds = 800;
    u64 maxTerms = 60000000;
    u64 allocCap = 4096;
    std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
    std::function<int(Term*)> solveQuick;       // 1 sat, 0 unsat, -1 unknown
    std::vector<std::string> stackTrace;
    int ompThreads = 1; std::vector<std::pair<int,int>> team; int ompNext = 0; // (tid, n)
    u64 dynId = 0; u64 nChecks = 0; int ompReverse = 0; std::map<std::string, u64> tiExtra;
    bool trace = false;

    Exec(Module& m) : M(m), DL(m.getDataLayout()) {}

    // ------------------------------------------------------------ helpers
    static u64 addrOf(u64 id) { return (id + 1) << 32; }
    Term* k64(u64 v) { return tm.konst(v, 64); }
    Term* conj(const Ref<PCNode>& pc) {
        if (!pc) return tm.T1;
        std::vector<PCNode*> todo;
        PCNode* p = pc.p;
        while (p && !p->conj) { todo.push_back(p); p = p->up.p; }
        Term* c = p ? p->conj : tm.T1;
        while (!todo.empty()) { c = tm.mkAnd(c, todo.back()->lit); todo.back()->conj = c; todo.pop_back(); }
        return c;
    }
    static bool hasConj(Term* l, Term* t, int d) {
        if (l == t) return true;
        if (d && l->op == T_AND && l->w == 1) return hasConj(l->a, t, d - 1) || hasConj(l->b, t, d - 1);
        return false;
    }
    // 1 implied, 0 refuted, -1 unknown
    int known(const Ref<PCNode>& pc, Term* t) {
        if (t->isConst()) return t->c ? 1 : 0;
        Term* n = tm.mkNot(t);
        for (PCNode* p = pc.p; p; p = p->up.p) {
            if (hasConj(p->lit, t, 3)) return 1;
            if (hasConj(p->lit, n, 3)) return 0;
        }
        return -1;
    }
    void addPC(State& st, Term* lit) {
        if (lit->isConst()) { if (!lit->c) st.live = false; return; }
        PCNode* n = new PCNode;
        n->up = st.pc; n->lit = lit; n->depth = st.pc ? st.pc->depth + 1 : 1; n->conj = nullptr;
        st.pc = Ref<PCNode>(n);
    }
    std::string where() {
        std::string s;
        for (int i = (int)stackTrace.size() - 1, k = 0; i >= 0 && k < 4; --i, ++k) s += (k ? " < " : "") + stackTrace[i];
        return s;
    }
    void oblige(State& st, ObKind k, const std::string& msg, Term* cond) {
        if (cond->isConst() && cond->c) return;
        int kn = known(st.pc, cond);
        if (kn == 1) return;
        obs.push_back({k, msg, st.pc, cond, where()});
    }
    void kill(State& st, ObKind k, const std::string& msg) {
        oblige(st, k, msg, tm.T0);
        throw PathEnd();
    }
    // ------------------------------------------------------------ values
    Val iteVal(Term* c, const Val& a, const Val& b) {
        if (a.agg || b.agg) {
            if (!a.agg) return b;
            if (!b.agg) return a;
            if (a.agg == b.agg) return a;
            Val r; r.agg = std::make_shared<std::vector<Val>>();
            for (size_t i = 0; i < a.agg->size(); i++) r.agg->push_back(iteVal(c, (*a.agg)[i], (*b.agg)[i]));
            return r;
        }
        if (!a.t) return b;
        if (!b.t) return a;
        return tm.ite(c, a.t, b.t);
    }
    static int tbytes(Term* t) { return t->fw ? t->fw / 8 : t->w / 8; }
    Term* byteOf(const Cell& c) {
        if (c.t->fw) return tm.extract(tm.fbits(c.t), c.i * 8, 8);
        return tm.extract(c.t, c.i * 8, 8);
    }
    static bool fullRun(const std::vector<Cell>& v, size_t off, size_t n) {
        Term* t = v[off].t;
        if (!t || v[off].i != 0 || (size_t)tbytes(t) != n) return false;
        for (size_t k = 1; k < n; k++) if (v[off + k].t != t || v[off + k].i != k) return false;
        return true;
    }
    Term* gather(const std::vector<Cell>& v, size_t off, size_t n, const char* what) {
        if (fullRun(v, off, n)) return v[off].t;
        Term* r = nullptr;
        for (size_t k = 0; k < n; k++) {
            Term* b = v[off + k].t ? byteOf(v[off + k])
                : tm.var(std::string("uninit") + std::to_string(tm.vars.size()), 8, 0, 255, true);
            r = r ? tm.concat(b, r) : b;
        }
        return r;
    }
    // dst := ite(c, a, b) cell-wise over [off, off+n)
    void mergeCells(Term* c, const std::vector<Cell>& a, size_t ao, const std::vector<Cell>& b, size_t bo,
                    std::vector<Cell>& dst, size_t d, size_t n) {
        for (size_t i = 0; i < n;) {
            const Cell& x = a[ao + i]; const Cell& y = b[bo + i];
            if (x.t == y.t && x.i == y.i) { dst[d + i] = x; i++; continue; }
            if (!x.t) { dst[d + i] = y; i++; continue; }
            if (!y.t) { dst[d + i] = x; i++; continue; }
            size_t sz = 0;
            if (x.i == 0 && i + tbytes(x.t) <= n && fullRun(a, ao + i, tbytes(x.t))) sz = tbytes(x.t);
            size_t sy = 0;
            if (y.i == 0 && i + tbytes(y.t) <= n && fullRun(b, bo + i, tbytes(y.t))) sy = tbytes(y.t);
            if (sz && sy && sz != sy) {
                // widen to the larger run if the other side can be gathered
                if (sy > sz) sz = sy;
            } else if (!sz) sz = sy;
            if (sz > 1) {
                bool ok = true;
                for (size_t k = 0; k < sz; k++) if (!a[ao + i + k].t || !b[bo + i + k].t) ok = false;
                if (ok) {
                    Term* tx = gather(a, ao + i, sz, ""); Term* ty = gather(b, bo + i, sz, "");
                    Term* r = tm.ite(c, tx, ty);
                    for (size_t k = 0; k < sz; k++) dst[d + i + k] = {r, (uint32_t)k};
                    i += sz; continue;
                }
            }
            Term* r = tm.ite(c, byteOf(x), byteOf(y));
            dst[d + i] = {r, 0}; i++;
        }
    }
    Ref<Obj> mergeObj(Term* c, const Ref<Obj>& a, const Ref<Obj>& b) {
        Obj* o = new Obj(a->cells.size() < b->cells.size() ? *b.p : *a.p); o->rc = 0;   // a side freed for certain has no cells
        Ref<Obj> r(o);
        if (a->cells.size() != b->cells.size() && o->kind != O_FUNC) {
            Term* d = tm.ite(c, a->dead ? a->dead : tm.T0, b->dead ? b->dead : tm.T0);
            o->dead = d == tm.T0 ? nullptr : d;
            return r;
        }
        if (a->dead != b->dead) {
            Term* d = tm.ite(c, a->dead ? a->dead : tm.T0, b->dead ? b->dead : tm.T0);
            o->dead = d == tm.T0 ? nullptr : d;
        }
        if (o->kind == O_FUNC) return r;
        mergeCells(c, a->cells, 0, b->cells, 0, o->cells, 0, o->cells.size());
        return r;
    }
    void mergeMem(Term* c, Mem& A, const Mem& B) {
        std::vector<u64> diff;
        if (A.root == B.root) return;
        for (int i = 0; i < FAN; i++) {
            Node2* a2 = A.root->ch[i].p; Node2* b2 = B.root->ch[i].p;
            if (a2 == b2 || !b2) continue;
            for (int j = 0; j < FAN; j++) {
                Node1* a1 = a2 ? a2->ch[j].p : nullptr; Node1* b1 = b2->ch[j].p;
                if (a1 == b1 || !b1) continue;
                for (int k = 0; k < FAN; k++) {
                    Node0* a0 = a1 ? a1->ch[k].p : nullptr; Node0* b0 = b1->ch[k].p;
                    if (a0 == b0 || !b0) continue;
                    for (int l = 0; l < FAN; l++) {
                        Obj* x = a0 ? a0->ch[l].p : nullptr; Obj* y = b0->ch[l].p;
                        if (x == y || !y) continue;
                        diff.push_back(((u64)i << 18) | (j << 12) | (k << 6) | l);
                    }
                }
            }
        }
        for (u64 id : diff) {
            Ref<Obj> b(B.get(id));
            Ref<Obj>& s = A.slot(id);
            if (!s) s = b;
            else s = mergeObj(c, s, b);
        }
    }
    // merges b into a; returns condition under which the result is a
    Term* mergePC(const Ref<PCNode>& a, const Ref<PCNode>& b, Ref<PCNode>& out) {
        PCNode *x = a.p, *y = b.p;
        auto dep = [](PCNode* p) { return p ? p->depth : 0; };
        std::vector<Term*> A, B;
        while (x != y) {
            if (dep(x) >= dep(y)) { A.push_back(x->lit); x = x->up.p; }
            else { B.push_back(y->lit); y = y->up.p; }
        }
        auto conjFrom = [&](std::vector<Term*>& v, size_t skip) {   // v is innermost-first
            Term* c = tm.T1;
            for (size_t i = v.size() - skip; i-- > 0;) c = tm.mkAnd(c, v[i]);
            return c;
        };
        Term* c; Term* lit;
        if (!A.empty() && !B.empty() && tm.mkNot(A.back()) == B.back()) {
            c = A.back();
            lit = tm.ite(c, conjFrom(A, 1), conjFrom(B, 1));
        } else {
            Term* ca = conjFrom(A, 0); Term* cb = conjFrom(B, 0);
            c = A.empty() ? tm.mkNot(cb) : ca;
            lit = tm.mkOr(ca, cb);
        }
        State tmp; tmp.pc = Ref<PCNode>(x);
        addPC(tmp, lit);
        out = tmp.pc;
        return c;
    }
    Term* mergeState(State& a, State& b) {
        nMerge++;
        Ref<PCNode> pc;
        Term* c = mergePC(a.pc, b.pc, pc);
        a.pc = pc;
        mergeMem(c, a.mem, b.mem);
        if (a.excPtr != b.excPtr) {
            if (!a.excPtr) a.excPtr = b.excPtr;
            else if (b.excPtr) a.excPtr = tm.ite(c, a.excPtr, b.excPtr);
        }
        if (a.caught.size() != b.caught.size()) throw Unsupported("merge with different exception nesting");
        for (size_t i = 0; i < a.caught.size(); i++) a.caught[i] = tm.ite(c, a.caught[i], b.caught[i]);
        return c;
    }
    void mergeOutcomes(std::vector<Outcome>& v) {
        while (v.size() > 1) {
            Outcome b = std::move(v.back()); v.pop_back();
            Outcome& a = v.back();
            Term* c = mergeState(a.st, b.st);
            a.ret = iteVal(c, a.ret, b.ret);
        }
    }
    // ------------------------------------------------------------ objects
    u64 newObj(State& st, u64 size, ObjKind kind, const std::string& name, Term* symSize = nullptr) {
        u64 id = nextId++;
        Obj* o = new Obj;
        o->size = size; o->kind = kind; o->name = name; o->symSize = symSize;
        o->cells.assign(size, Cell{nullptr, 0});
        st.mem.set(id, o);
        return id;
    }
    int tz(Term* t) { return tm.tz(t); }
    void checkAlive(State& st, Term* g, Obj* o, const char* what) {
        if (o->dead) oblige(st, OB_MEM, std::string(what) + " of freed memory (" + o->name + ")", tm.mkOr(tm.mkNot(g), tm.mkNot(o->dead)));
    }
    void resolve(State& st, Term* p, Term* sizeT, u64 minSize, const char* what, std::vector<CT>& out) {
        resolveRec(st, p, tm.T1, sizeT, minSize, what, out, 0);
        if (out.empty()) throw PathEnd();
    }
    void resolveRec(State& st, Term* p, Term* g, Term* sizeT, u64 minSize, const char* what, std::vector<CT>& out, int depth) {
        if (g->isConst() && !g->c) return;
        if (known(st.pc, g) == 0) return;
        if (depth > 64) throw Unsupported("pointer resolution too deep");
        auto notg = [&](Term* c) { return tm.mkOr(tm.mkNot(g), c); };
        if (p->isConst()) {
            u64 a = (u64)p->c; u64 id = (a >> 32) - 1;
            Obj* o = a >> 32 ? st.mem.get(id) : nullptr;
            u64 off = a & 0xffffffffu;
            if (!o || o->kind == O_FUNC) {
                oblige(st, OB_MEM, std::string(what) + (a >> 32 ? " through an invalid pointer" : " through a null pointer"), notg(tm.T0));
                return;
            }
            if (off + minSize > o->size || off > o->size) {
                oblige(st, OB_MEM, std::string(what) + " out of bounds of " + o->name, notg(tm.T0));
                return;
            }
            checkAlive(st, g, o, what);
            if (o->symSize || !sizeT->isConst()) {
                Term* lim = o->symSize ? o->symSize : k64(o->size);
                Term* end = tm.mkAdd(k64(off), sizeT);
                oblige(st, OB_MEM, std::string(what) + " out of bounds of " + o->name, notg(tm.mkAnd(tm.mkUle(end, lim), tm.mkUle(k64(off), end))));
            }
            for (CT& t : out) if (t.id == id && t.off == off) { t.guard = tm.mkOr(t.guard, g); return; }
            out.push_back({g, id, off});
            return;
        }
        if (p->leaves) {
            std::vector<Term*> ls;
            tm.leaves(p, [&](Term* l) { ls.push_back(l); });
            for (Term* l : ls) resolveRec(st, l, tm.mkAnd(g, tm.mkEq(p, l)), sizeT, minSize, what, out, depth + 1);
            return;
        }
        if ((p->lo >> 32) == (p->hi >> 32)) {
            u64 id = (u64)(p->lo >> 32) - 1;
            Obj* o = st.mem.get(id);
            if (!o) { oblige(st, OB_MEM, std::string(what) + " through an invalid pointer", notg(tm.T0)); return; }
            u64 base = addrOf(id);
            Term* off = tm.mkAdd(p, k64(0 - base));
            u64 lo = (u64)(p->lo - base), hi = (u64)(p->hi - base);
            checkAlive(st, g, o, what);
            Term* lim = o->symSize ? o->symSize : k64(o->size);
            Term* end = tm.mkAdd(off, sizeT);
            oblige(st, OB_MEM, std::string(what) + " out of bounds of " + o->name, notg(tm.mkAnd(tm.mkUle(end, lim), tm.mkUle(off, end))));
            if (o->size < minSize) return;
            u64 step = (u64)1 << std::min(tz(off), 30);
            u64 start = (lo + step - 1) / step * step;
            u64 last = std::min(hi, o->size - minSize);
            if (start <= last && (last - start) / step > 20000) throw Unsupported("too many offsets for a symbolic access");
            for (u64 k = start; k <= last; k += step) {
                Term* gk = tm.mkAnd(g, tm.mkEq(off, k64(k)));
                if (gk->isConst() && !gk->c) continue;
                out.push_back({gk, id, k});
            }
            return;
        }
        if (p->op == T_ITE) {
            resolveRec(st, p->b, tm.mkAnd(g, p->a), sizeT, minSize, what, out, depth + 1);
            resolveRec(st, p->d, tm.mkAnd(g, tm.mkNot(p->a)), sizeT, minSize, what, out, depth + 1);
            return;
        }
        if (p->op == T_ADD) {
            for (int s = 0; s < 2; s++) {
                Term* x = s ? p->b : p->a; Term* y = s ? p->a : p->b;
                bool ptrTree = x->leaves > 1;
                if (ptrTree) {
                    std::vector<Term*> ls; bool ok = true;
                    tm.leaves(x, [&](Term* l) { ls.push_back(l); if (l->c >> 63) ok = false; });
                    bool any = false;
                    for (Term* l : ls) if (l->c >> 32) any = true;
                    if (ok && any) {
                        for (Term* l : ls) resolveRec(st, tm.mkAdd(l, y), tm.mkAnd(g, tm.mkEq(x, l)), sizeT, minSize, what, out, depth + 1);
                        return;
                    }
                }
                if (x->op == T_ITE && x->hi >> 32) {
                    resolveRec(st, tm.mkAdd(x->b, y), tm.mkAnd(g, x->a), sizeT, minSize, what, out, depth + 1);
                    resolveRec(st, tm.mkAdd(x->d, y), tm.mkAnd(g, tm.mkNot(x->a)), sizeT, minSize, what, out, depth + 1);
                    return;
                }
                if (x->op == T_ADD && x->hi >> 32) {
                    // (ptr + off1) + off2: reassociate around an ITE inside
                    for (int q = 0; q < 2; q++) {
                        Term* xx = q ? x->b : x->a; Term* yy = q ? x->a : x->b;
                        if (xx->op == T_ITE && xx->hi >> 32) {
                            Term* rest = tm.mkAdd(yy, y);
                            resolveRec(st, tm.mkAdd(xx->b, rest), tm.mkAnd(g, xx->a), sizeT, minSize, what, out, depth + 1);
                            resolveRec(st, tm.mkAdd(xx->d, rest), tm.mkAnd(g, tm.mkNot(xx->a)), sizeT, minSize, what, out, depth + 1);
                            return;
                        }
                    }
                }
            }
            // const pointer base + unbounded offset: any offset outside the object is an error
            Term* x = p->a; Term* y = p->b;
            if (y->isConst() && (y->c >> 32) && !(y->c >> 63)) {
                u64 id = (u64)(y->c >> 32) - 1;
                Obj* o = st.mem.get(id);
                if (o && o->kind != O_FUNC) {
                    Term* off = tm.mkAdd(p, k64(0 - addrOf(id)));
                    (void)x;
                    checkAlive(st, g, o, what);
                    Term* lim = o->symSize ? o->symSize : k64(o->size);
                    Term* end = tm.mkAdd(off, sizeT);
                    oblige(st, OB_MEM, std::string(what) + " out of bounds of " + o->name, notg(tm.mkAnd(tm.mkUle(end, lim), tm.mkUle(off, end))));
                    if (o->size < minSize) return;
                    u64 step = (u64)1 << std::min(tz(off), 30);
                    u64 last = o->size - minSize;
                    if (last / step > 20000) throw Unsupported("too many offsets for a symbolic access");
                    for (u64 k = 0; k <= last; k += step) {
                        Term* gk = tm.mkAnd(g, tm.mkEq(off, k64(k)));
                        if (gk->isConst() && !gk->c) continue;
                        out.push_back({gk, id, k});
                    }
                    return;
                }
            }
        }
        // a sum of several terms (differences of pointers, for example)
        if (Term* it = wideIte(p, 0)) {
            resolveRec(st, rebuild(p, it, it->b), tm.mkAnd(g, it->a), sizeT, minSize, what, out, depth + 1);
            resolveRec(st, rebuild(p, it, it->d), tm.mkAnd(g, tm.mkNot(it->a)), sizeT, minSize, what, out, depth + 1);
            return;
        }
        u64 base = 0; i128 lo = 0, hi = 0;
        if (linear(p, 1, base, lo, hi)) {
            base += (u64)(i64)lo; hi -= lo;
            base += 0x40000000;   // the sum may begin a little before its object
            u64 id = (base >> 32) - 1;
            Obj* o = base >> 32 ? st.mem.get(id) : nullptr;
            if (o && o->kind != O_FUNC && hi < ((i128)1 << 30)) {
                Term* off = tm.mkAdd(p, k64(0 - addrOf(id)));
                checkAlive(st, g, o, what);
                Term* lim = o->symSize ? o->symSize : k64(o->size);
                Term* end = tm.mkAdd(off, sizeT);
                oblige(st, OB_MEM, std::string(what) + " out of bounds of " + o->name, notg(tm.mkAnd(tm.mkUle(end, lim), tm.mkUle(off, end))));
                if (o->size < minSize) return;
                u64 step = (u64)1 << std::min(tz(off), 30);
                u64 last = o->size - minSize;
                if (last / step > 20000) throw Unsupported("too many offsets for a symbolic access");
                for (u64 k = 0; k <= last; k += step) {
                    Term* gk = tm.mkAnd(g, tm.mkEq(off, k64(k)));
                    if (gk->isConst() && !gk->c) continue;
                    out.push_back({gk, id, k});
                }
                return;
            }
        }
        State s; s.pc = st.pc;
        addPC(s, g);
        if (!s.live || !feasible(s)) return;   // this alternative cannot occur
        throw Unsupported("unresolvable symbolic pointer " + show(p, 4));
    }
    // a choice among values of which one spans objects, inside a sum
    Term* wideIte(Term* t, int d) {
        if (d > 12) return nullptr;
        if (t->op == T_ITE) return (t->lo >> 32) != (t->hi >> 32) ? t : nullptr;
        if (t->op == T_ADD) { Term* r = wideIte(t->a, d + 1); return r ? r : wideIte(t->b, d + 1); }
        if (t->op == T_MUL && t->b->isConst()) return wideIte(t->a, d + 1);
        return nullptr;
    }
    Term* rebuild(Term* t, Term* from, Term* to) {
        if (t == from) return to;
        if (t->op == T_ADD) { Term* a = rebuild(t->a, from, to); Term* b = rebuild(t->b, from, to); return a == t->a && b == t->b ? t : tm.mkAdd(a, b); }
        if (t->op == T_MUL && t->b->isConst()) { Term* a = rebuild(t->a, from, to); return a == t->a ? t : tm.mkMul(a, t->b); }
        return t;
    }
    // t * coef = base + something in lo..hi (modulo 2^64)
    bool linear(Term* t, i64 coef, u64& base, i128& lo, i128& hi) {
        if (t->isConst()) { base += (u64)t->c * (u64)coef; return true; }
        if (t->op == T_ADD) return linear(t->a, coef, base, lo, hi) && linear(t->b, coef, base, lo, hi);
        if (t->op == T_MUL && t->b->isConst()) {
            i64 c = (i64)(u64)t->b->c;
            if (c > 4096 || c < -4096 || coef > 4096 || coef < -4096) return false;
            return linear(t->a, coef * c, base, lo, hi);
        }
        u128 span = t->hi - t->lo;
        if (span >> 31) return false;
        base += (u64)t->lo * (u64)coef;
        i128 r = (i128)span * coef;
        if (r < 0) lo += r; else hi += r;
        return true;
    }
    static std::string show(Term* t, int d) {
        if (!t) return "";
        char b[100];
        if (t->isConst()) { snprintf(b, sizeof b, "%llx", (unsigned long long)t->c); return b; }
        snprintf(b, sizeof b, "op%d.%d[%llx..%llx]l%u", t->op, t->w, (unsigned long long)t->lo, (unsigned long long)t->hi, t->leaves);
        std::string r = b;
        if (!d) return r;
        r += "(" + show(t->a, d - 1);
        if (t->b) r += "," + show(t->b, d - 1);
        if (t->d) r += "," + show(t->d, d - 1);
        return r + ")";
    }
    u64 sharedReads = 0, sharedWrites = 0;
    struct EnvEvent { Ref<PCNode> pc; Term* guard; std::vector<Term*> vals; bool write; };
    std::vector<EnvEvent> envEvents;   // reads (values found) and writes (freeze decision) of shared objects, in program order
    Term* frozenFlag(State& st, Obj* o) {
        if (!o->frAddr) return tm.T0;
        return tm.mkNot(tm.mkEq(gather(st.mem.get((o->frAddr >> 32) - 1)->cells, (uint32_t)o->frAddr, 8, ""), k64(0)));
    }
    // Other threads change a shared object before this access: any value between the bounds,
    // unless this thread is assumed to have made the last write already (frozen).
    void envStep(State& st, u64 id, Term* guard) {
        Obj* o = st.mem.mut(id);
        Obj* lo = st.mem.get((o->loAddr >> 32) - 1); Obj* hi = st.mem.get((o->hiAddr >> 32) - 1);
        Term* fz = frozenFlag(st, o);
        std::string nm = "env" + std::to_string(sharedReads++);
        EnvEvent ev{st.pc, guard, {}, false};
        u64 c;
        for (u64 k = 0; k < o->size; k += c) {
            c = o->size - k >= 8 ? 8 : 1;
            Term* l = gather(lo->cells, k, c, ""); Term* h = gather(hi->cells, k, c, "");
            Term* v = tm.var(nm + "[" + std::to_string(k) + "]", c * 8, 0, TermMgr::mask(c * 8), false);
            // keep only bits between the bounds: l | (v & h)
            Term* nv = tm.mkOr(l, tm.mkAnd(v, h));
            if (o->frAddr) nv = tm.ite(fz, gather(o->cells, k, c, ""), nv);
            for (u64 b = 0; b < c; b++) o->cells[k + b] = {nv, (uint32_t)b};
            ev.vals.push_back(nv);
        }
        envEvents.push_back(ev);
    }
    void guarStep(State& st, u64 id, Term* guard) {  // this thread's write must stay between the bounds
        Obj* o = st.mem.get(id);
        Obj* lo = st.mem.get((o->loAddr >> 32) - 1); Obj* hi = st.mem.get((o->hiAddr >> 32) - 1);
        u64 c;
        for (u64 k = 0; k < o->size; k += c) {
            c = o->size - k >= 8 ? 8 : 1;
            Term* l = gather(lo->cells, k, c, ""); Term* h = gather(hi->cells, k, c, "");
            Term* v = gather(o->cells, k, c, "");
            oblige(st, OB_CHECK, "a write to the shared availability drops a supported node",
                   tm.mkEq(tm.mkAnd(l, tm.mkNot(v)), tm.konst(0, c * 8)));
            oblige(st, OB_CHECK, "a write to the shared availability revives a node",
                   tm.mkEq(tm.mkAnd(v, tm.mkNot(h)), tm.konst(0, c * 8)));
        }
        if (o->frAddr) {
            // the last write of all threads may have been made before: then this path does not exist
            addPC(st, tm.mkNot(tm.mkAnd(guard, frozenFlag(st, o))));
            Term* last = tm.var("last" + std::to_string(sharedWrites++), 1, 0, 1, false);
            u64 fid = (o->frAddr >> 32) - 1; u64 off = (uint32_t)o->frAddr;
            Term* nf = tm.ite(tm.mkAnd(guard, last), k64(1), gather(st.mem.get(fid)->cells, off, 8, ""));
            Obj* fo = st.mem.mut(fid);
            for (u64 b = 0; b < 8; b++) fo->cells[off + b] = {nf, (uint32_t)b};
            envEvents.push_back({st.pc, guard, {last}, true});
        }
    }
    Term* loadTerm(State& st, Term* p, u64 n, const char* what = "read") {
        std::vector<CT> ts;
        resolve(st, p, k64(n), n, what, ts);
        Term* r = nullptr;
        for (size_t i = ts.size(); i-- > 0;) {
            Obj* o = st.mem.get(ts[i].id);
            if (o->shared) { envStep(st, ts[i].id, ts[i].guard); o = st.mem.get(ts[i].id); }
            Term* v = gather(o->cells, ts[i].off, n, "");
            r = r ? tm.ite(ts[i].guard, v, r) : v;
        }
        return r;
    }
    void storeTerm(State& st, Term* p, Term* v, u64 n, const char* what = "write") {
        if (!v->fw && v->w != (int)n * 8) v = tm.zext(v, n * 8);
        std::vector<CT> ts;
        resolve(st, p, k64(n), n, what, ts);
        for (CT& t : ts) {
            Obj* ro = st.mem.get(t.id);
            if (ro->kind == O_CONST) oblige(st, OB_MEM, "write to constant memory " + ro->name, tm.mkNot(t.guard));
            Obj* o = st.mem.mut(t.id);
            if (t.guard->isConst() && ts.size() == 1) {
                for (u64 k = 0; k < n; k++) o->cells[t.off + k] = {v, (uint32_t)k};
            } else {
                std::vector<Cell> nv(n);
                for (u64 k = 0; k < n; k++) nv[k] = {v, (uint32_t)k};
                std::vector<Cell> old(o->cells.begin() + t.off, o->cells.begin() + t.off + n);
                for (auto& c : old) if (!c.t) c = {tm.konst(0, 8), 0};
                mergeCells(t.guard, nv, 0, old, 0, o->cells, t.off, n);
            }
            if (ro->shared) guarStep(st, t.id, t.guard);
        }
    }
    void readBlock(State& st, Term* p, Term* len, u64 n, std::vector<Cell>& out, const char* what) {
        std::vector<CT> ts;
        u64 min = len->isConst() ? n : 0;
        resolve(st, p, len, min, what, ts);
        bool first = true;
        for (size_t i = ts.size(); i-- > 0;) {
            Obj* o = st.mem.get(ts[i].id);
            if (o->shared) { envStep(st, ts[i].id, ts[i].guard); o = st.mem.get(ts[i].id); }
            std::vector<Cell> v(n, Cell{nullptr, 0});
            for (u64 k = 0; k < n && ts[i].off + k < o->cells.size(); k++) v[k] = o->cells[ts[i].off + k];
            if (first) { out = v; first = false; }
            else { std::vector<Cell> r(n); mergeCells(ts[i].guard, v, 0, out, 0, r, 0, n); out = r; }
        }
    }
    void writeBlock(State& st, Term* p, Term* len, u64 n, const std::vector<Cell>& v, const char* what) {
        std::vector<CT> ts;
        u64 min = len->isConst() ? n : 0;
        resolve(st, p, len, min, what, ts);
        u64 step = 1; int z = len->isConst() ? 0 : tz(len);
        if (!len->isConst()) step = std::min<u64>(16, (u64)1 << std::min(z, 4));
        if (step > 8) step = 8;
        for (CT& t : ts) {
            Obj* ro = st.mem.get(t.id);
            if (ro->kind == O_CONST) oblige(st, OB_MEM, "write to constant memory " + ro->name, tm.mkNot(t.guard));
            Obj* o = st.mem.mut(t.id);
            u64 m = std::min<u64>(n, o->cells.size() - t.off);
            if (len->isConst() && t.guard->isConst()) {
                for (u64 k = 0; k < m; k++) o->cells[t.off + k] = v[k];
            } else {
                std::vector<Cell> old(o->cells.begin() + t.off, o->cells.begin() + t.off + m);
                if (len->isConst()) mergeCells(t.guard, v, 0, old, 0, o->cells, t.off, m);
                else for (u64 k = 0; k < m; k += step) {
                    Term* g = tm.mkAnd(t.guard, tm.mkUlt(k64(k), len));
                    u64 w = std::min(step, m - k);
                    if (g->isConst() && !g->c) continue;
                    if (g->isConst()) { for (u64 q = 0; q < w; q++) o->cells[t.off + k + q] = v[k + q]; }
                    else mergeCells(g, v, k, old, k, o->cells, t.off + k, w);
                }
            }
            if (ro->shared) guarStep(st, t.id, t.guard);
        }
    }
    void memCopy(State& st, Term* d, Term* s, Term* len) {
        if (len->isConst() && len->c == 0) return;
        u64 n = blockMax(st, len, d, s);
        std::vector<Cell> v;
        readBlock(st, s, len, n, v, "memcpy read");
        writeBlock(st, d, len, n, v, "memcpy write");
    }
    u64 objLimit(State& st, Term* p) {
        u64 best = 0;
        auto one = [&](u64 a) { Obj* o = a >> 32 ? st.mem.get((a >> 32) - 1) : nullptr; if (o) best = std::max(best, o->size); };
        if (p->leaves) tm.leaves(p, [&](Term* l) { one((u64)l->c); });
        else if ((p->lo >> 32) == (p->hi >> 32)) one((u64)p->lo);
        else best = allocCap;
        return best;
    }
    u64 blockMax(State& st, Term* len, Term* d, Term* s) {
        if (len->isConst()) {
            if (len->c > (1u << 28)) kill(st, OB_MEM, "block operation with an excessive length");
            return (u64)len->c;
        }
        u64 lim = objLimit(st, d);
        if (s) lim = std::min(lim, objLimit(st, s));
        return (u64)std::min<u128>(len->hi, lim);
    }
    void memSet(State& st, Term* d, Term* val, Term* len) {
        if (len->isConst() && len->c == 0) return;
        u64 n = blockMax(st, len, d, nullptr);
        std::vector<Cell> v(n);
        if (val->isConst() && val->c == 0) {
            Term* z = tm.konst(0, 64); Term* z1 = tm.konst(0, 8);
            u64 k = 0;
            for (; k + 8 <= n; k += 8) for (uint32_t q = 0; q < 8; q++) v[k + q] = {z, q};
            for (; k < n; k++) v[k] = {z1, 0};
        } else {
            Term* b = tm.extract(val, 0, 8);
            for (u64 k = 0; k < n; k++) v[k] = {b, 0};
        }
        writeBlock(st, d, len, n, v, "memset");
    }
    std::string readCStr(State& st, Term* p) {
        if (!p->isConst()) throw Unsupported("symbolic C string pointer");
        u64 a = (u64)p->c; Obj* o = st.mem.get((a >> 32) - 1);
        std::string s;
        if (!o) return "?";
        for (u64 off = a & 0xffffffffu; off < o->cells.size(); off++) {
            if (!o->cells[off].t) throw Unsupported("uninitialised C string");
            Term* b = byteOf(o->cells[off]);
            if (!b->isConst()) throw Unsupported("symbolic C string");
            if (!b->c) break;
            s += (char)(u64)b->c;
        }
        return s;
    }
    // ------------------------------------------------------------ constants
    u64 idOfGlobal(const GlobalValue* G) {
        auto it = globalId.find(G);
        if (it == globalId.end()) throw Unsupported("global without memory: " + G->getName().str());
        return it->second;
    }
    Val undefOf(Type* T) {
        if (T->isIntegerTy()) return tm.konst(0, T->getIntegerBitWidth());
        if (T->isPointerTy()) return k64(0);
        if (T->isDoubleTy()) return tm.fconst(0, 64);
        if (T->isFloatTy()) return tm.fconst(0, 32);
        Val v; v.agg = std::make_shared<std::vector<Val>>();
        if (auto* S = dyn_cast<StructType>(T)) { for (auto* E : S->elements()) v.agg->push_back(undefOf(E)); return v; }
        if (auto* A = dyn_cast<ArrayType>(T)) { for (u64 i = 0; i < A->getNumElements(); i++) v.agg->push_back(undefOf(A->getElementType())); return v; }
        throw Unsupported("undef of unusual type");
    }
    Val constVal(const Constant* C) {
        if (auto* I = dyn_cast<ConstantInt>(C)) {
            if (I->getBitWidth() > 128) throw Unsupported("wide integer");
            const APInt& a = I->getValue();
            u128 v = a.getRawData()[0];
            if (a.getBitWidth() > 64) v |= (u128)a.getRawData()[1] << 64;
            return tm.konst(v, I->getBitWidth());
        }
        if (auto* F = dyn_cast<ConstantFP>(C)) {
            APFloat f = F->getValueAPF();
            if (F->getType()->isDoubleTy()) return tm.fconst(f.convertToDouble(), 64);
            if (F->getType()->isFloatTy()) return tm.fconst(f.convertToFloat(), 32);
            throw Unsupported("unusual floating-point type");
        }
        if (isa<ConstantPointerNull>(C)) return k64(0);
        if (isa<UndefValue>(C)) return undefOf(C->getType());
        if (isa<ConstantAggregateZero>(C)) return undefOf(C->getType());
        if (auto* G = dyn_cast<GlobalAlias>(C)) return constVal(G->getAliasee());
        if (auto* G = dyn_cast<GlobalValue>(C)) return k64(addrOf(idOfGlobal(G)));
        if (auto* A = dyn_cast<ConstantAggregate>(C)) {
            Val v; v.agg = std::make_shared<std::vector<Val>>();
            for (auto& op : A->operands()) v.agg->push_back(constVal(cast<Constant>(op)));
            return v;
        }
        if (auto* D = dyn_cast<ConstantDataSequential>(C)) {
            Val v; v.agg = std::make_shared<std::vector<Val>>();
            for (unsigned i = 0; i < D->getNumElements(); i++) v.agg->push_back(constVal(D->getElementAsConstant(i)));
            return v;
        }
        if (auto* E = dyn_cast<ConstantExpr>(C)) {
            switch (E->getOpcode()) {
            case Instruction::GetElementPtr: {
                APInt off(64, 0);
                auto* G = cast<GEPOperator>(E);
                if (!G->accumulateConstantOffset(DL, off)) throw Unsupported("constant GEP");
                return tm.mkAdd(constVal(E->getOperand(0)).t, k64(off.getZExtValue()));
            }
            case Instruction::BitCast: case Instruction::AddrSpaceCast: return constVal(E->getOperand(0));
            case Instruction::PtrToInt: { Term* t = constVal(E->getOperand(0)).t; return tm.zext(t, E->getType()->getIntegerBitWidth()); }
            case Instruction::IntToPtr: { Term* t = constVal(E->getOperand(0)).t; return tm.zext(t, 64); }
            case Instruction::Sub: return tm.mkSub(constVal(E->getOperand(0)).t, constVal(E->getOperand(1)).t);
            case Instruction::Add: return tm.mkAdd(constVal(E->getOperand(0)).t, constVal(E->getOperand(1)).t);
            case Instruction::Trunc: return tm.extract(constVal(E->getOperand(0)).t, 0, E->getType()->getIntegerBitWidth());
            default: throw Unsupported(std::string("constant expression ") + E->getOpcodeName());
            }
        }
        throw Unsupported("constant");
    }
    void storeConst(Obj* o, u64 off, const Constant* C) {
        Type* T = C->getType();
        if (T->isSized() && C->isNullValue() && !T->isPointerTy()) {
            u64 n = DL.getTypeStoreSize(T);
            u64 k = 0; Term* z = tm.konst(0, 64); Term* z1 = tm.konst(0, 8);
            for (; k + 8 <= n; k += 8) for (uint32_t q = 0; q < 8; q++) o->cells[off + k + q] = {z, q};
            for (; k < n; k++) o->cells[off + k] = {z1, 0};
            return;
        }
        if (isa<UndefValue>(C)) return;
        if (auto* A = dyn_cast<ConstantAggregate>(C)) {
            if (auto* S = dyn_cast<StructType>(T)) {
                const StructLayout* L = DL.getStructLayout(S);
                for (unsigned i = 0; i < A->getNumOperands(); i++) storeConst(o, off + L->getElementOffset(i), A->getOperand(i));
            } else {
                u64 es = DL.getTypeAllocSize(T->getArrayElementType());
                for (unsigned i = 0; i < A->getNumOperands(); i++) storeConst(o, off + i * es, A->getOperand(i));
            }
            return;
        }
        if (auto* D = dyn_cast<ConstantDataSequential>(C)) {
            u64 es = DL.getTypeAllocSize(D->getElementType());
            for (unsigned i = 0; i < D->getNumElements(); i++) storeConst(o, off + i * es, D->getElementAsConstant(i));
            return;
        }
        Term* t = constVal(C).t;
        u64 n = DL.getTypeStoreSize(T);
        if (!t->fw && t->w != (int)n * 8) t = tm.zext(t, n * 8);
        for (u64 k = 0; k < n; k++) o->cells[off + k] = {t, (uint32_t)k};
    }
    void initGlobals(State& st) {
        for (Function& F : M) {
            u64 id = nextId++;
            Obj* o = new Obj; o->kind = O_FUNC; o->name = F.getName().str(); o->size = 1; o->cells.assign(1, Cell{nullptr, 0});
            st.mem.set(id, o);
            globalId[&F] = id; fnOf[id] = &F;
        }
        for (GlobalVariable& G : M.globals()) {
            u64 sz = G.getValueType()->isSized() ? (u64)DL.getTypeAllocSize(G.getValueType()) : 64;
            if (!G.hasInitializer() && sz < 256) sz = 256;
            u64 id = nextId++;
            Obj* o = new Obj; o->kind = G.isConstant() ? O_CONST : O_GLOBAL; o->name = G.getName().str(); o->size = sz;
            o->cells.assign(sz, Cell{nullptr, 0});
            st.mem.set(id, o);
            globalId[&G] = id;
        }
        for (GlobalVariable& G : M.globals())
            if (G.hasInitializer() && !G.getName().starts_with("llvm.")) {
                try { storeConst(st.mem.mut(idOfGlobal(&G)), 0, G.getInitializer()); }
                catch (Unsupported&) {}
            }
    }
    // ------------------------------------------------------------ function info
    void orderRegion(FnInfo& I, Loop* L, BasicBlock* entry, std::vector<BasicBlock*>& out) {
        // reverse post-order of the region with inner loops contracted
        std::set<const void*> seen;
        std::vector<std::pair<BasicBlock*, Loop*>> post;
        std::function<void(BasicBlock*)> dfs = [&](BasicBlock* B) {
            Loop* inner = I.LI.getLoopFor(B);
            // find child loop of L containing B
            Loop* child = nullptr;
            for (Loop* x = inner; x && x != L; x = x->getParentLoop()) child = x;
            const void* id = child ? (const void*)child : (const void*)B;
            if (!seen.insert(id).second) return;
            if (child) {
                SmallVector<BasicBlock*, 8> ex;
                child->getExitBlocks(ex);
                std::set<BasicBlock*> u;
                for (BasicBlock* s : ex) if ((!L || L->contains(s)) && u.insert(s).second && !(L && s == L->getHeader())) dfs(s);
            } else {
                for (BasicBlock* s : successors(B)) {
                    if (L && (!L->contains(s) || s == L->getHeader())) continue;
                    dfs(s);
                }
            }
            post.push_back({child ? child->getHeader() : B, child});
        };
        dfs(entry);
        for (size_t i = post.size(); i-- > 0;) {
            if (post[i].second) {
                Loop* C = post[i].second;
                // header first, then the body
                orderLoop(I, C, out);
            } else out.push_back(post[i].first);
        }
    }
    void orderLoop(FnInfo& I, Loop* C, std::vector<BasicBlock*>& out) {
        std::set<const void*> seen;
        orderRegionLoop(I, C, out);
    }
    void orderRegionLoop(FnInfo& I, Loop* C, std::vector<BasicBlock*>& out) {
        // region DFS from the header; header may start an inner region only as itself
        std::set<const void*> seen;
        std::vector<std::pair<BasicBlock*, Loop*>> post;
        std::function<void(BasicBlock*)> dfs = [&](BasicBlock* B) {
            Loop* child = nullptr;
            for (Loop* x = I.LI.getLoopFor(B); x && x != C; x = x->getParentLoop()) child = x;
            const void* id = child ? (const void*)child : (const void*)B;
            if (!seen.insert(id).second) return;
            if (child) {
                SmallVector<BasicBlock*, 8> ex;
                child->getExitBlocks(ex);
                std::set<BasicBlock*> u;
                for (BasicBlock* s : ex) if (C->contains(s) && s != C->getHeader() && u.insert(s).second) dfs(s);
            } else {
                for (BasicBlock* s : successors(B)) {
                    if (!C->contains(s) || s == C->getHeader()) continue;
                    dfs(s);
                }
            }
            post.push_back({child ? child->getHeader() : B, child});
        };
        dfs(C->getHeader());
        for (size_t i = post.size(); i-- > 0;) {
            if (post[i].second) orderRegionLoop(I, post[i].second, out);
            else out.push_back(post[i].first);
        }
    }
    FnInfo& info(Function* F) {
        auto& p = infos[F];
        if (p) return *p;
        p.reset(new FnInfo);
        FnInfo& I = *p;
        I.F = F;
        I.DT.recalculate(*F);
        I.LI.analyze(I.DT);
        for (Argument& A : F->args()) I.num[&A] = I.n++;
        for (Instruction& X : instructions(*F)) if (!X.getType()->isVoidTy()) I.num[&X] = I.n++;
        std::vector<BasicBlock*> out;
        orderRegion(I, nullptr, &F->getEntryBlock(), out);
        for (size_t i = 0; i < out.size(); i++) I.order[out[i]] = i;
        for (BasicBlock* B : out) {
            std::vector<const Loop*> ls;
            for (Loop* L = I.LI.getLoopFor(B); L; L = L->getParentLoop()) ls.push_back(L);
            std::reverse(ls.begin(), ls.end());
            I.loopsOf[B] = ls;
        }
        // liveness
        std::unordered_map<const BasicBlock*, std::set<int>> in;
        bool ch = true;
        while (ch) {
            ch = false;
            for (size_t i = out.size(); i-- > 0;) {
                BasicBlock* B = out[i];
                std::set<int> live;
                for (BasicBlock* S : successors(B)) {
                    for (int v : in[S]) live.insert(v);
                    for (PHINode& P : S->phis()) live.erase(I.num[&P]);
                }
                for (BasicBlock* S : successors(B))
                    for (PHINode& P : S->phis()) {
                        Value* v = P.getIncomingValueForBlock(B);
                        auto it = I.num.find(v);
                        if (it != I.num.end()) live.insert(it->second);
                    }
                for (auto it = B->rbegin(); it != B->rend(); ++it) {
                    if (isa<PHINode>(*it)) continue;
                    auto d = I.num.find(&*it);
                    if (d != I.num.end()) live.erase(d->second);
                    for (Value* op : it->operands()) {
                        auto f = I.num.find(op);
                        if (f != I.num.end()) live.insert(f->second);
                    }
                }
                for (PHINode& P : B->phis()) live.insert(I.num[&P]);
                if (live != in[B]) { in[B] = live; ch = true; }
            }
        }
        for (BasicBlock* B : out) I.liveIn[B].assign(in[B].begin(), in[B].end());
        return I;
    }
    // ------------------------------------------------------------ execution
    struct Frame {
        FnInfo* I;
        std::map<Key, std::vector<Item>> pending;
        Outcomes out;
        std::vector<u64> allocas;
    };
    Key keyOf(FnInfo& I, Item& it) {
        Key k;
        for (auto& l : it.loops) { k.push_back(I.order[l.first->getHeader()]); k.push_back(l.second); }
        k.push_back(I.order[it.bb]);
        return k;
    }
    Val get(Item& it, FnInfo& I, Value* v) {
        if (auto* C = dyn_cast<Constant>(v)) return constVal(C);
        auto f = I.num.find(v);
        if (f == I.num.end()) throw Unsupported("unknown value");
        return it.regs[f->second];
    }
    Term* gt(Item& it, FnInfo& I, Value* v) {
        Val x = get(it, I, v);
        if (x.agg) throw Unsupported("aggregate where a scalar is expected");
        if (!x.t) throw Unsupported("undefined register");
        return x.t;
    }
    void jump(Frame& fr, Item&& it, BasicBlock* to) {
        FnInfo& I = *fr.I;
        BasicBlock* from = it.bb;
        // phis
        std::vector<std::pair<int, Val>> ph;
        for (PHINode& P : to->phis()) ph.push_back({I.num[&P], get(it, I, P.getIncomingValueForBlock(from))});
        for (auto& x : ph) it.regs[x.first] = x.second;
        // loops
        auto& target = I.loopsOf[to];
        std::vector<Item::Iter> nl;
        for (size_t i = 0; i < target.size(); i++) {
            if (i < it.loops.size() && it.loops[i].first == target[i]) {
                auto e = it.loops[i];
                if (target[i]->getHeader() == to) e.second++;
                nl.push_back(e);
                if (e.sym > unwind || e.second > maxConcrete) {
                    oblige(it.st, OB_BOUND, "more than " + std::to_string(e.sym > unwind ? unwind : maxConcrete) + " iterations of a loop in " + fr.I->F->getName().str(), tm.T0);
                    return;
                }
            } else nl.push_back({target[i], 0, 0});
        }
        it.loops = nl;
        it.bb = to;
        fr.pending[keyOf(I, it)].push_back(std::move(it));
    }
    double lastTrace = 0; bool forkTrace = getenv("VP_FORKS") != nullptr, tracing = getenv("VP_TRACE") != nullptr;
    void checkBudget() {
        if (tracing && (nInst & 15) == 0) {
            double s = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
            if (s - lastTrace > 0.5) {
                fprintf(stderr, "%.1f terms=%zu inst=%llu fork=%llu feas=%llu", s, tm.all.size(), (unsigned long long)nInst, (unsigned long long)nFork, (unsigned long long)nFeas);
                for (int i = (int)stackTrace.size() - 1, k = 0; i >= 0 && k < 8; --i, ++k) fprintf(stderr, " < %s", demangle(stackTrace[i]).substr(0, 60).c_str());
                fprintf(stderr, "\n"); lastTrace = s;
            }
        }
        if ((nInst & 1023) == 0) {
            double s = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
            if (s > maxSeconds) throw std::runtime_error("time limit of the symbolic execution");
            if (tm.all.size() > maxTerms) throw std::runtime_error("term limit of the symbolic execution");
        }
    }
    Outcomes execFunction(Function* F, std::vector<Val> args, State st) {
        if (F->isDeclaration()) throw Unsupported("external function " + F->getName().str());
        if (stackTrace.size() > 200) throw Unsupported("recursion too deep");
        FnInfo& I = info(F);
        executed.insert(F->getName().str());
        nCalls++;
        stackTrace.push_back(F->getName().str());
        struct Pop { std::vector<std::string>& s; ~Pop() { s.pop_back(); } } pop{stackTrace};
        Frame fr; fr.I = &I;
        Item it;
        it.bb = &F->getEntryBlock();
        it.st = std::move(st);
        it.regs.resize(I.n);
        unsigned i = 0;
        for (Argument& A : F->args()) { if (i < args.size()) it.regs[I.num[&A]] = args[i]; i++; }
        // byval copies
        i = 0;
        for (Argument& A : F->args()) {
            if (A.hasByValAttr() && i < args.size()) {
                u64 sz = DL.getTypeAllocSize(A.getParamByValType());
                u64 id = newObj(it.st, sz, O_STACK, "byval argument of " + F->getName().str());
                fr.allocas.push_back(id);
                memCopy(it.st, k64(addrOf(id)), args[i].t, k64(sz));
                it.regs[I.num[&A]] = Val(k64(addrOf(id)));
            }
            i++;
        }
        fr.pending[keyOf(I, it)].push_back(std::move(it));
        while (!fr.pending.empty()) {
            auto b = fr.pending.begin();
            std::vector<Item> items = std::move(b->second);
            fr.pending.erase(b);
            while (items.size() > 1) {
                Item y = std::move(items.back()); items.pop_back();
                Item& x = items.back();
                Term* c = mergeState(x.st, y.st);
                for (int v : I.liveIn[x.bb]) x.regs[v] = iteVal(c, x.regs[v], y.regs[v]);
            }
            Item cur = std::move(items[0]);
            if (!cur.st.live) continue;
            Ref<PCNode> pcNow;
            try { runBlock(fr, std::move(cur), pcNow); }
            catch (PathEnd&) {}
            catch (Unsupported& e) {
                State s; s.pc = pcNow;
                oblige(s, OB_UNSUP, e.what(), tm.T0);
            }
        }
        for (auto& o : fr.out.norm) for (u64 id : fr.allocas) o.st.mem.erase(id);
        for (auto& o : fr.out.exc) for (u64 id : fr.allocas) o.st.mem.erase(id);
        mergeOutcomes(fr.out.norm);
        mergeOutcomes(fr.out.exc);
        return std::move(fr.out);
    }
    Val loadTyped(State& st, Type* T, Term* p) {
        if (T->isIntegerTy()) {
            u64 n = DL.getTypeStoreSize(T);
            Term* t = loadTerm(st, p, n);
            int w = T->getIntegerBitWidth();
            if (!t->fw && t->w != w) t = tm.extract(t, 0, w);
            return t;
        }
        if (T->isPointerTy()) return loadTerm(st, p, 8);
        if (T->isDoubleTy()) return tm.fromBits(loadTerm(st, p, 8), 64);
        if (T->isFloatTy()) return tm.fromBits(loadTerm(st, p, 4), 32);
        Val v; v.agg = std::make_shared<std::vector<Val>>();
        if (auto* S = dyn_cast<StructType>(T)) {
            const StructLayout* L = DL.getStructLayout(S);
            for (unsigned i = 0; i < S->getNumElements(); i++)
                v.agg->push_back(loadTyped(st, S->getElementType(i), tm.mkAdd(p, k64(L->getElementOffset(i)))));
            return v;
        }
        if (auto* A = dyn_cast<ArrayType>(T)) {
            u64 es = DL.getTypeAllocSize(A->getElementType());
            for (u64 i = 0; i < A->getNumElements(); i++) v.agg->push_back(loadTyped(st, A->getElementType(), tm.mkAdd(p, k64(i * es))));
            return v;
        }
        throw Unsupported("load of unusual type");
    }
    void storeTyped(State& st, Type* T, Term* p, const Val& v) {
        if (v.agg) {
            if (auto* S = dyn_cast<StructType>(T)) {
                const StructLayout* L = DL.getStructLayout(S);
                for (unsigned i = 0; i < S->getNumElements(); i++)
                    storeTyped(st, S->getElementType(i), tm.mkAdd(p, k64(L->getElementOffset(i))), (*v.agg)[i]);
                return;
            }
            u64 es = DL.getTypeAllocSize(T->getArrayElementType());
            for (size_t i = 0; i < v.agg->size(); i++) storeTyped(st, T->getArrayElementType(), tm.mkAdd(p, k64(i * es)), (*v.agg)[i]);
            return;
        }
        if (!v.t) throw Unsupported("store of an undefined register");
        storeTerm(st, p, v.t, DL.getTypeStoreSize(T));
    }
    bool feasible(State& st) {
        if (!solveQuick) return true;
        nFeas++;
        int r = solveQuick(conj(st.pc));
        if (r == 0) { nPruned++; return false; }
        return true;
    }
    void branch(Frame& fr, Item&& it, Term* c, BasicBlock* T, BasicBlock* F) {
        int k = known(it.st.pc, c);
        if (k == 1) return jump(fr, std::move(it), T);
        if (k == 0) return jump(fr, std::move(it), F);
        if (T == F) return jump(fr, std::move(it), T);
        nFork++;
        if (forkTrace) { fprintf(stderr, "fork %s", show(c, 3).c_str()); for (int i = (int)stackTrace.size() - 1, k = 0; i >= 0 && k < 6; --i, ++k) fprintf(stderr, " < %s", demangle(stackTrace[i]).substr(0, 40).c_str()); fprintf(stderr, "\n"); }
        bool fT = true, fF = true;
        for (auto& l : it.loops) if (l.first->contains(T) != l.first->contains(F)) l.sym++;
        if (!it.loops.empty() && it.loops.back().second >= feasFrom) {
            const Loop* L = it.loops.back().first;
            if (L->contains(T) != L->contains(F)) {
                State s; s.pc = it.st.pc;
                addPC(s, L->contains(T) ? c : tm.mkNot(c));
                bool f = feasible(s);
                if (L->contains(T)) fT = f; else fF = f;
            }
        }
        if (feasOwn && T->getParent()->getName().contains("N2sp")) {
            // every branch of the code under test: is each side possible at all
            for (int s = 0; s < 2; s++) if (s ? fF : fT) {
                State x; x.pc = it.st.pc;
                addPC(x, s ? tm.mkNot(c) : c);
                bool f = x.live && feasible(x);
                if (s) fF = f; else { fT = f; if (!f) break; }
            }
        }
        Item o = it;
        addPC(it.st, c); addPC(o.st, tm.mkNot(c));
        if (fT && it.st.live) jump(fr, std::move(it), T);
        if (fF && o.st.live) jump(fr, std::move(o), F);
    }
    Term* icmp(CmpInst::Predicate p, Term* a, Term* b) {
        switch (p) {
        case CmpInst::ICMP_EQ: return tm.mkEq(a, b);
        case CmpInst::ICMP_NE: return tm.mkNot(tm.mkEq(a, b));
        case CmpInst::ICMP_ULT: return tm.mkUlt(a, b);
        case CmpInst::ICMP_ULE: return tm.mkUle(a, b);
        case CmpInst::ICMP_UGT: return tm.mkUlt(b, a);
        case CmpInst::ICMP_UGE: return tm.mkUle(b, a);
        case CmpInst::ICMP_SLT: return tm.mkSlt(a, b);
        case CmpInst::ICMP_SLE: return tm.mkSle(a, b);
        case CmpInst::ICMP_SGT: return tm.mkSlt(b, a);
        case CmpInst::ICMP_SGE: return tm.mkSle(b, a);
        default: throw Unsupported("icmp");
        }
    }
    Term* fcmp(CmpInst::Predicate p, Term* a, Term* b) {
        auto nan = [&]() { return tm.mkOr(tm.fIsNan(a), tm.fIsNan(b)); };
        switch (p) {
        case CmpInst::FCMP_FALSE: return tm.T0;
        case CmpInst::FCMP_TRUE: return tm.T1;
        case CmpInst::FCMP_OEQ: return tm.fcmp(a, b, 0);
        case CmpInst::FCMP_OLT: return tm.fcmp(a, b, 2);
        case CmpInst::FCMP_OLE: return tm.fcmp(a, b, 1);
        case CmpInst::FCMP_OGT: return tm.fcmp(b, a, 2);
        case CmpInst::FCMP_OGE: return tm.fcmp(b, a, 1);
        case CmpInst::FCMP_ONE: return tm.mkAnd(tm.mkNot(nan()), tm.mkNot(tm.fcmp(a, b, 0)));
        case CmpInst::FCMP_ORD: return tm.mkNot(nan());
        case CmpInst::FCMP_UNO: return nan();
        case CmpInst::FCMP_UEQ: return tm.mkOr(nan(), tm.fcmp(a, b, 0));
        case CmpInst::FCMP_UNE: return tm.mkNot(tm.fcmp(a, b, 0));
        case CmpInst::FCMP_ULT: return tm.mkNot(tm.fcmp(b, a, 1));
        case CmpInst::FCMP_ULE: return tm.mkNot(tm.fcmp(b, a, 2));
        case CmpInst::FCMP_UGT: return tm.mkNot(tm.fcmp(a, b, 1));
        case CmpInst::FCMP_UGE: return tm.mkNot(tm.fcmp(a, b, 2));
        default: throw Unsupported("fcmp");
        }
    }
    Term* gep(Item& it, FnInfo& I, GEPOperator* G) {
        Term* p = get(it, I, G->getPointerOperand()).t;
        if (!p) throw Unsupported("undefined pointer");
        u64 coff = 0;
        Term* sum = nullptr;
        for (auto gi = gep_type_begin(G), e = gep_type_end(G); gi != e; ++gi) {
            Value* idx = gi.getOperand();
            if (StructType* S = gi.getStructTypeOrNull()) {
                coff += DL.getStructLayout(S)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
            } else {
                u64 es = DL.getTypeAllocSize(gi.getIndexedType());
                Term* t = gt(it, I, idx);
                t = t->w < 64 ? tm.sext(t, 64) : tm.extract(t, 0, 64);
                Term* s = tm.mkMul(t, k64(es));
                if (s->isConst()) coff += (u64)s->c;
                else sum = sum ? tm.mkAdd(sum, s) : s;
            }
        }
        if (coff) p = tm.mkAdd(p, k64(coff));
        if (sum) p = tm.mkAdd(p, sum);
        return p;
    }
    bool derives(State& st, u64 ti, u64 base, int depth = 0);
    void landing(Frame& fr, Item& it, LandingPadInst* LP);
    void runBlock(Frame& fr, Item cur, Ref<PCNode>& pcNow);
    Outcomes callFunction(CallBase* CB, Function* F, std::vector<Val>& args, State st);
    void registerBuiltins();
    void throwExc(State& st, Term* ptr, Outcomes& out) {
        State s = st; s.excPtr = ptr;
        out.exc.push_back({std::move(s), Val()});
    }
};
