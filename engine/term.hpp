// Hash-consed terms: bit-vectors (width 1..128) and floating-point values that
// are kept exact as dyadic numbers n * 2^s.  All constructors simplify eagerly.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;

struct Unsupported : std::runtime_error {
    using std::runtime_error::runtime_error;
};

enum Op : uint8_t {
    T_CONST, T_VAR,
    T_NOT, T_AND, T_OR, T_XOR, T_ADD, T_MUL, T_UDIV, T_UREM, T_SDIV, T_SREM,
    T_SHL, T_LSHR, T_ASHR, T_CONCAT, T_EXTRACT, T_ZEXT, T_SEXT,
    T_EQ, T_ULT, T_ULE, T_SLT, T_SLE, T_ITE,
    T_FP,    // bits of an IEEE operation on bits: imm 0 add, 1 sub, 2 mul, 3 div, 4 from unsigned, 5 from signed, 6 width change
    F_INT,   // a = signed BV n, imm = scale, value n * 2^imm, interval slo..shi
    F_SPEC,  // constant inf/nan given by its bits in c
    F_RAW,   // a = BV bits of an arbitrary floating-point value
    F_ITE,   // a = condition, b, d = values
};

struct Term {
    Op op;
    uint8_t fw;          // float width for F_*, 0 for bit-vectors
    uint16_t w;          // bit-vector width
    int32_t imm;         // extract offset / fp scale / var index
    Term *a, *b, *d;
    u128 c;              // constant value
    u128 lo, hi;         // unsigned interval (BV)
    i64 slo, shi;        // signed interval of n (F_INT)
    uint32_t id;
    uint32_t leaves;     // number of constant leaves if ITE-tree of constants (0 = not)
    size_t hash;
    bool isConst() const { return op == T_CONST; }
    bool isFP() const { return fw != 0; }
};

struct VarInfo { std::string name; int w; u128 lo, hi; Term* t; bool internal; };

class TermMgr {
public:
    std::vector<Term*> all;
    std::vector<VarInfo> vars;
    struct H { size_t operator()(const Term* t) const { return t->hash; } };
    struct E {
        bool operator()(const Term* x, const Term* y) const {
            return x->op == y->op && x->fw == y->fw && x->w == y->w && x->imm == y->imm
                && x->a == y->a && x->b == y->b && x->d == y->d && x->c == y->c;
        }
    };
    std::unordered_map<Term*, Term*, H, E> table;
    std::vector<Term*> pool; size_t poolUsed = 0;
    std::unordered_map<u64, Term*> extMemo, eqMemo;

    static u128 mask(int w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
    static i128 sx(u128 v, int w) {
        if (w >= 128) return (i128)v;
        if ((v >> (w - 1)) & 1) return (i128)(v | ~mask(w));
        return (i128)v;
    }
    Term *T1, *T0;
    TermMgr() { T1 = konst(1, 1); T0 = konst(0, 1); }

    Term* intern(Term& p) {
        size_t h = p.op * 1000003u + p.w * 31u + p.fw * 7u + (uint32_t)p.imm * 2654435761u;
        h ^= (p.a ? p.a->id * 0x9E3779B97F4A7C15ull : 0);
        h = h * 0xff51afd7ed558ccdull + (p.b ? p.b->id * 0xC2B2AE3D27D4EB4Full : 0);
        h = h * 0xff51afd7ed558ccdull + (p.d ? p.d->id * 0x165667B19E3779F9ull : 0);
        h ^= (u64)p.c * 0x27D4EB2F165667C5ull + (u64)(p.c >> 64) * 0x9FB21C651E98DF25ull;
        h ^= h >> 29;
        p.hash = h;
        auto it = table.find(&p);
        if (it != table.end()) return it->second;
        Term* t = new Term(p);
        t->id = all.size();
        all.push_back(t);
        table.emplace(t, t);
        return t;
    }
    Term blank(Op op, int w) {
        Term p; memset(&p, 0, sizeof p);
        p.op = op; p.w = w; p.lo = 0; p.hi = mask(w);
        return p;
    }
    Term* konst(u128 v, int w) {
        if (w < 1 || w > 128) throw Unsupported("bit width " + std::to_string(w));
        Term p = blank(T_CONST, w);
        p.c = v & mask(w); p.lo = p.hi = p.c; p.leaves = 1;
        return intern(p);
    }
    Term* boolc(bool b) { return b ? T1 : T0; }
    Term* var(const std::string& name, int w, u128 lo, u128 hi, bool internal = false) {
        if (lo == hi) {
            Term* k = konst(lo, w);
            vars.push_back({name, w, lo, hi, k, internal});
            return k;
        }
        Term p = blank(T_VAR, w);
        p.imm = vars.size(); p.lo = lo; p.hi = hi;
        Term* t = intern(p);
        vars.push_back({name, w, lo, hi, t, internal});
        return t;
    }
    void needBV(Term* t) {
        if (t->fw) throw Unsupported("floating-point value used as an integer");
    }
    static bool allOnes(Term* t) { return t->op == T_CONST && t->c == mask(t->w); }
    static bool isZero(Term* t) { return t->op == T_CONST && t->c == 0; }

    // ---- pushing an operation with a constant into an ITE tree of constants
    Term* pushIte(Term* x, const std::function<Term*(Term*)>& f) {
        std::unordered_map<Term*, Term*> memo;
        std::function<Term*(Term*)> rec = [&](Term* t) -> Term* {
            if (t->op != T_ITE) return f(t);
            auto it = memo.find(t);
            if (it != memo.end()) return it->second;
            Term* l = rec(t->b); Term* r = rec(t->d);
            Term* v = ite(t->a, l, r);
            memo[t] = v;
            return v;
        };
        return rec(x);
    }
    static const uint32_t MAXL = 4096;
    bool constTree(Term* x) { return x->leaves > 1 && x->leaves <= MAXL; }

    // ---- boolean / bitwise
    Term* mkNot(Term* x) {
        needBV(x);
        if (x->isConst()) return konst(~x->c, x->w);
        if (x->op == T_NOT) return x->a;
        if (x->op == T_ITE && x->w == 1 && (x->b->isConst() || x->d->isConst()))
            return ite(x->a, mkNot(x->b), mkNot(x->d));
        if (constTree(x)) return pushIte(x, [this](Term* t) { return mkNot(t); });
        if (x->op == T_ULT) return mkUle(x->b, x->a);
        if (x->op == T_ULE) return mkUlt(x->b, x->a);
        if (x->op == T_SLT) return mkSle(x->b, x->a);
        if (x->op == T_SLE) return mkSlt(x->b, x->a);
        Term p = blank(T_NOT, x->w); p.a = x;
        return intern(p);
    }
    bool isNeg(Term* x, Term* y) { return (x->op == T_NOT && x->a == y) || (y->op == T_NOT && y->a == x) || (x->w == 1 && negCmp(x, y)); }
    bool negCmp(Term* x, Term* y) {
        if (x->op == T_ULT && y->op == T_ULE) return x->a == y->b && x->b == y->a;
        if (x->op == T_ULE && y->op == T_ULT) return x->a == y->b && x->b == y->a;
        if (x->op == T_SLT && y->op == T_SLE) return x->a == y->b && x->b == y->a;
        if (x->op == T_SLE && y->op == T_SLT) return x->a == y->b && x->b == y->a;
        return false;
    }
    Term* mkAnd(Term* x, Term* y) {
        needBV(x); needBV(y); samew(x, y);
        if (x == y) return x;
        if (y->isConst()) std::swap(x, y);
        if (x->isConst()) {
            if (y->isConst()) return konst(x->c & y->c, x->w);
            if (x->c == 0) return x;
            if (x->c == mask(x->w)) return y;
            if (constTree(y)) return pushIte(y, [&](Term* t) { return mkAnd(x, t); });
            // contiguous low mask -> zext(extract)
            u128 m = x->c;
            if ((m & (m + 1)) == 0) {
                int n = 0; while ((m >> n) & 1) n++;
                if (y->hi <= m) return y;
                return zext(extract(y, 0, n), x->w);
            }
            // general mask: assemble from bits when few bits involved
            if ((m & (m - 1)) == 0) {
                int n = 0; while (!((m >> n) & 1)) n++;
                return shlc(zext(extract(y, n, 1), x->w), n);
            }
            if (y->op == T_AND && y->a->isConst()) return mkAnd(konst(m & y->a->c, x->w), y->b);
        } else {
            if (isNeg(x, y)) return konst(0, x->w);
            if (x->w == 1) {
                if (y->op == T_AND && (y->a == x || y->b == x)) return y;
                if (x->op == T_AND && (x->a == y || x->b == y)) return x;
                if (y->op == T_AND && (isNeg(y->a, x) || isNeg(y->b, x))) return T0;
                if (x->op == T_AND && (isNeg(x->a, y) || isNeg(x->b, y))) return T0;
                if (y->op == T_OR) {
                    if (y->a == x || y->b == x) return x;
                    if (isNeg(y->a, x)) return mkAnd(x, y->b);
                    if (isNeg(y->b, x)) return mkAnd(x, y->a);
                }
                if (x->op == T_OR) {
                    if (x->a == y || x->b == y) return y;
                    if (isNeg(x->a, y)) return mkAnd(y, x->b);
                    if (isNeg(x->b, y)) return mkAnd(y, x->a);
                }
                if (y->op == T_ITE) {
                    if (y->a == x) return mkAnd(x, y->b);
                    if (isNeg(y->a, x)) return mkAnd(x, y->d);
                }
                if (x->op == T_ITE) {
                    if (x->a == y) return mkAnd(y, x->b);
                    if (isNeg(x->a, y)) return mkAnd(y, x->d);
                }
            }
            if (x->id > y->id) std::swap(x, y);
        }
        Term p = blank(T_AND, x->w); p.a = x; p.b = y; p.lo = 0; p.hi = std::min(x->hi, y->hi);
        return intern(p);
    }
    Term* mkOr(Term* x, Term* y) {
        needBV(x); needBV(y); samew(x, y);
        if (x == y) return x;
        if (y->isConst()) std::swap(x, y);
        if (x->isConst()) {
            if (y->isConst()) return konst(x->c | y->c, x->w);
            if (x->c == 0) return y;
            if (x->c == mask(x->w)) return x;
            if (constTree(y)) return pushIte(y, [&](Term* t) { return mkOr(x, t); });
        } else {
            if (isNeg(x, y)) return konst(mask(x->w), x->w);
            if (x->w == 1) {
                if (y->op == T_OR && (y->a == x || y->b == x)) return y;
                if (x->op == T_OR && (x->a == y || x->b == y)) return x;
                if (y->op == T_OR && (isNeg(y->a, x) || isNeg(y->b, x))) return T1;
                if (x->op == T_OR && (isNeg(x->a, y) || isNeg(x->b, y))) return T1;
                if (y->op == T_AND) {
                    if (y->a == x || y->b == x) return x;
                    if (isNeg(y->a, x)) return mkOr(x, y->b);
                    if (isNeg(y->b, x)) return mkOr(x, y->a);
                }
                if (x->op == T_AND) {
                    if (x->a == y || x->b == y) return y;
                    if (isNeg(x->a, y)) return mkOr(y, x->b);
                    if (isNeg(x->b, y)) return mkOr(y, x->a);
                }
                if (y->op == T_ITE) {
                    if (y->a == x) return mkOr(x, y->d);
                    if (isNeg(y->a, x)) return mkOr(x, y->b);
                }
                if (x->op == T_ITE) {
                    if (x->a == y) return mkOr(y, x->d);
                    if (isNeg(x->a, y)) return mkOr(y, x->b);
                }
            }
            // disjoint zext / shl combination becomes concat
            if (x->id > y->id) std::swap(x, y);
        }
        Term p = blank(T_OR, x->w); p.a = x; p.b = y; p.lo = std::max(x->lo, y->lo);
        u128 h = x->hi | y->hi; // upper bound: smear
        for (int s = 1; s < 128; s <<= 1) h |= h >> s;
        p.hi = std::min(h, mask(x->w));
        return intern(p);
    }
    Term* mkXor(Term* x, Term* y) {
        needBV(x); needBV(y); samew(x, y);
        if (x == y) return konst(0, x->w);
        if (y->isConst()) std::swap(x, y);
        if (x->isConst()) {
            if (y->isConst()) return konst(x->c ^ y->c, x->w);
            if (x->c == 0) return y;
            if (x->c == mask(x->w)) return mkNot(y);
            if (constTree(y)) return pushIte(y, [&](Term* t) { return mkXor(x, t); });
        }
        if (x->w == 1) {
            if (x->op == T_NOT && y->op == T_NOT) return mkXor(x->a, y->a);
            if (x->op == T_NOT) return mkNot(mkXor(x->a, y));
            if (y->op == T_NOT) return mkNot(mkXor(x, y->a));
        }
        if (!x->isConst() && x->id > y->id) std::swap(x, y);
        Term p = blank(T_XOR, x->w); p.a = x; p.b = y;
        u128 h = x->hi | y->hi;
        for (int s = 1; s < 128; s <<= 1) h |= h >> s;
        p.hi = std::min(h, mask(x->w));
        return intern(p);
    }
    void samew(Term* x, Term* y) {
        if (x->w != y->w) throw std::logic_error("width mismatch " + std::to_string(x->w) + " vs " + std::to_string(y->w));
    }
    // ---- arithmetic
    Term* mkAdd(Term* x, Term* y) {
        needBV(x); needBV(y); samew(x, y);
        if (x->isConst()) std::swap(x, y);   // constant on the right (b)
        if (y->isConst()) {
            if (x->isConst()) return konst(x->c + y->c, x->w);
            if (y->c == 0) return x;
            if (x->op == T_ADD && x->b->isConst()) return mkAdd(x->a, konst(x->b->c + y->c, x->w));
            if (constTree(x)) return pushIte(x, [&](Term* t) { return mkAdd(t, y); });
        } else {
            if (x->op == T_ADD && x->b->isConst()) return mkAdd(mkAdd(x->a, y), x->b);
            if (y->op == T_ADD && y->b->isConst()) return mkAdd(mkAdd(x, y->a), y->b);
            if (x->op == T_MUL && allOnes(x->b) && x->a == y) return konst(0, x->w);
            if (y->op == T_MUL && allOnes(y->b) && y->a == x) return konst(0, x->w);
            // (p + (-q)) + q
            if (x->op == T_ADD && !x->b->isConst()) {
                if (neg1(x->a, y)) return x->b;
                if (neg1(x->b, y)) return x->a;
            }
            if (y->op == T_ADD && !y->b->isConst()) {
                if (neg1(y->a, x)) return y->b;
                if (neg1(y->b, x)) return y->a;
            }
            if (constTree(x) && constTree(y) && x->leaves * y->leaves <= 64)
                return pushIte(x, [&](Term* t) { return mkAdd(y, t); });
            if (x->id > y->id) std::swap(x, y);
        }
        Term p = blank(T_ADD, x->w); p.a = x; p.b = y;
        u128 m = mask(x->w);
        u128 slo = x->lo + y->lo, shi = x->hi + y->hi;
        bool ovh = x->w == 128 ? shi < x->hi : shi > m;
        bool ovl = x->w == 128 ? slo < x->lo : slo > m;
        if (!ovh) { p.lo = slo; p.hi = shi; }
        else if (ovl) { p.lo = slo & m; p.hi = shi & m; }   // both wrap once
        return intern(p);
    }
    bool neg1(Term* x, Term* y) {
        return (x->op == T_MUL && allOnes(x->b) && x->a == y) || (y->op == T_MUL && allOnes(y->b) && y->a == x);
    }
    Term* mkNeg(Term* x) { return mkMul(x, konst(mask(x->w), x->w)); }
    Term* mkSub(Term* x, Term* y) {
        if (x == y) return konst(0, x->w);
        return mkAdd(x, mkNeg(y));
    }
    // number of low bits known to be zero
    int tz(Term* t, int depth = 12) {
        if (t->isConst()) { if (!t->c) return 64; int n = 0; while (!((t->c >> n) & 1)) n++; return n; }
        if (!depth) return 0;
        switch (t->op) {
        case T_MUL: return std::min(64, tz(t->a, depth - 1) + tz(t->b, depth - 1));
        case T_ADD: case T_OR: case T_XOR: return std::min(tz(t->a, depth - 1), tz(t->b, depth - 1));
        case T_AND: return std::max(tz(t->a, depth - 1), tz(t->b, depth - 1));
        case T_ITE: return std::min(tz(t->b, depth - 1), tz(t->d, depth - 1));
        case T_ZEXT: case T_SEXT: return tz(t->a, depth - 1);
        case T_CONCAT: { int l = tz(t->b, depth - 1); return l >= t->b->w ? std::min(64, t->b->w + tz(t->a, depth - 1)) : l; }
        case T_SHL: return tz(t->a, depth - 1);
        default: return 0;
        }
    }
    Term* mkMul(Term* x, Term* y) {
        needBV(x); needBV(y); samew(x, y);
        if (x->isConst()) std::swap(x, y);
        u128 m = mask(x->w);
        if (y->isConst()) {
            if (x->isConst()) return konst(x->c * y->c, x->w);
            if (y->c == 0) return y;
            if (y->c == 1) return x;
            if (x->op == T_MUL && x->b->isConst()) return mkMul(x->a, konst(x->b->c * y->c, x->w));
            // an exact division undone (differences of pointers)
            if ((x->op == T_SDIV || x->op == T_UDIV) && x->b == y && x->w == 64 && !(y->c & (y->c - 1)) && !(y->c >> 62) && tz(x->a) >= __builtin_ctzll((u64)y->c)) return x->a;
            if (constTree(x)) return pushIte(x, [&](Term* t) { return mkMul(t, y); });
            if (x->op == T_ADD && x->b->isConst())
                return mkAdd(mkMul(x->a, y), konst(x->b->c * y->c, x->w));
            if (y->c == m && x->op == T_ADD) return mkAdd(mkMul(x->a, y), mkMul(x->b, y));
        } else if (x->id > y->id) std::swap(x, y);
        Term p = blank(T_MUL, x->w); p.a = x; p.b = y;
        if (x->w <= 64) {
            u128 h = x->hi * y->hi;
            if (h <= m) { p.lo = x->lo * y->lo; p.hi = h; }
            else if (allOnes(y) && x->lo > 0) { p.lo = (0 - x->hi) & m; p.hi = (0 - x->lo) & m; }
        }
        return intern(p);
    }
    // x = c * q + r with r's terms each smaller than c, if x is such a sum without overflow
    bool splitDiv(Term* x, u128 c, u128 factor, Term*& q, Term*& r) {
        u128 m = mask(x->w);
        if (x->isConst()) {
            q = mkAdd(q, konst(x->c * factor / c, x->w)); r = mkAdd(r, konst(x->c * factor % c, x->w)); return true;
        }
        if (factor % c == 0) { q = mkAdd(q, mkMul(x, konst(factor / c, x->w))); return true; }
        if (x->op == T_ADD) {
            if (x->a->hi + x->b->hi != x->hi) return false;
            return splitDiv(x->a, c, factor, q, r) && splitDiv(x->b, c, factor, q, r);
        }
        if (x->op == T_MUL && x->b->isConst() && x->a->hi * x->b->c <= m) return splitDiv(x->a, c, factor * x->b->c, q, r);
        if (x->hi * factor < c) { r = mkAdd(r, mkMul(x, konst(factor, x->w))); return true; }
        return false;
    }
    bool splitDiv(Term* x, u128 c, Term*& q, Term*& r) {
        if (x->w > 64 || c < 2 || (x->op != T_ADD && x->op != T_MUL)) return false;
        q = konst(0, x->w); r = konst(0, x->w);
        return splitDiv(x, c, 1, q, r) && r->hi < c;
    }
    Term* mkUdiv(Term* x, Term* y) {
        needBV(x); needBV(y);
        if (y->isConst() && y->c) { Term *q, *r; if (splitDiv(x, y->c, q, r)) return q; }
        if (x->w > 32 && x->hi <= mask(32) && y->hi <= mask(32) && y->lo > 0 && !x->isConst()) {
            int k = 1; while ((x->hi | y->hi) >> k) k++;
            return zext(mkUdiv(extract(x, 0, k), extract(y, 0, k)), x->w);
        }
        if (y->isConst() && y->c) {
            if (x->isConst()) return konst(x->c / y->c, x->w);
            if (y->c == 1) return x;
            if ((y->c & (y->c - 1)) == 0) return mkLshr(x, konst(log2c(y->c), x->w));
            if (constTree(x)) return pushIte(x, [&](Term* t) { return mkUdiv(t, y); });
        }
        if (x->isConst() && constTree(y)) { bool z = false; leaves(y, [&](Term* l) { z |= l->c == 0; }); if (!z) return pushIte(y, [&](Term* t) { return mkUdiv(x, t); }); }
        if (x->isConst() && y->hi - y->lo <= 64) {
            Term* r = y->lo ? konst(x->c / y->hi, x->w) : konst(y->hi ? x->c / y->hi : mask(x->w), x->w);
            for (u128 k = y->hi; k-- > y->lo;) r = ite(mkEq(y, konst(k, y->w)), konst(k ? x->c / k : mask(x->w), x->w), r);
            return r;
        }
        Term p = blank(T_UDIV, x->w); p.a = x; p.b = y;
        if (y->lo > 0) { p.lo = x->lo / y->hi; p.hi = x->hi / y->lo; }
        return intern(p);
    }
    Term* mkUrem(Term* x, Term* y) {
        needBV(x); needBV(y);
        if (y->isConst() && y->c) { Term *q, *r; if (splitDiv(x, y->c, q, r)) return r; }
        if (x->w > 32 && x->hi <= mask(32) && y->hi <= mask(32) && y->lo > 0 && !x->isConst()) {
            int k = 1; while ((x->hi | y->hi) >> k) k++;
            return zext(mkUrem(extract(x, 0, k), extract(y, 0, k)), x->w);
        }
        if (y->isConst() && y->c) {
            if (x->isConst()) return konst(x->c % y->c, x->w);
            if (y->c == 1) return konst(0, x->w);
            if (x->hi < y->c) return x;
            if ((y->c & (y->c - 1)) == 0) return mkAnd(x, konst(y->c - 1, x->w));
            if (constTree(x)) return pushIte(x, [&](Term* t) { return mkUrem(t, y); });
        }
        Term p = blank(T_UREM, x->w); p.a = x; p.b = y;
        if (y->lo > 0) p.hi = std::min(x->hi, y->hi - 1);
        return intern(p);
    }
    static int log2c(u128 v) { int n = 0; while (v > 1) { v >>= 1; n++; } return n; }
    Term* mkSdiv(Term* x, Term* y) {
        needBV(x); needBV(y);
        if (x->isConst() && y->isConst() && y->c) {
            i128 a = sx(x->c, x->w), b = sx(y->c, y->w);
            if (!(b == -1)) return konst((u128)(a / b), x->w);
            return konst((u128)(-a), x->w);
        }
        if (y->isConst() && y->c && constTree(x)) return pushIte(x, [&](Term* t) { return mkSdiv(t, y); });
        u128 half = mask(x->w - 1);
        if (x->w > 1 && x->hi <= half && y->hi <= half) return mkUdiv(x, y);
        Term p = blank(T_SDIV, x->w); p.a = x; p.b = y;
        return intern(p);
    }
    Term* mkSrem(Term* x, Term* y) {
        needBV(x); needBV(y);
        if (x->isConst() && y->isConst() && y->c) {
            i128 a = sx(x->c, x->w), b = sx(y->c, y->w);
            if (b == -1) return konst(0, x->w);
            return konst((u128)(a % b), x->w);
        }
        u128 half = mask(x->w - 1);
        if (x->w > 1 && x->hi <= half && y->hi <= half) return mkUrem(x, y);
        Term p = blank(T_SREM, x->w); p.a = x; p.b = y;
        return intern(p);
    }
    Term* shlc(Term* x, int n) {
        if (n == 0) return x;
        if (n >= x->w) return konst(0, x->w);
        return concat(extract(x, 0, x->w - n), konst(0, n));
    }
    Term* mkShl(Term* x, Term* y) {
        needBV(x); needBV(y);
        if (y->isConst()) {
            if (x->isConst()) return konst(y->c >= x->w ? 0 : x->c << (int)y->c, x->w);
            if (y->c >= x->w) return konst(0, x->w);
            int n = (int)y->c;
            if (n == 0) return x;
            u128 h = x->hi;
            if ((h << n) >> n == h && (h << n) <= mask(x->w)) return mkMul(x, konst((u128)1 << n, x->w));
            return shlc(x, n);
        }
        if (constTree(y)) return pushIte(y, [&](Term* t) { return mkShl(x, t); });
        Term p = blank(T_SHL, x->w); p.a = x; p.b = y;
        return intern(p);
    }
    Term* mkLshr(Term* x, Term* y) {
        needBV(x); needBV(y);
        if (y->isConst()) {
            if (x->isConst()) return konst(y->c >= x->w ? 0 : x->c >> (int)y->c, x->w);
            if (y->c >= x->w) return konst(0, x->w);
            int n = (int)y->c;
            if (n == 0) return x;
            if (constTree(x)) return pushIte(x, [&](Term* t) { return mkLshr(t, y); });
            // exact division by power of two of a multiplied value
            if (x->op == T_MUL && x->b->isConst() && x->a->hi * x->b->c <= mask(x->w) && x->w <= 64
                && x->a->hi <= mask(63) && (x->b->c & (((u128)1 << n) - 1)) == 0)
                return mkMul(x->a, konst(x->b->c >> n, x->w));
            return zext(extract(x, n, x->w - n), x->w);
        }
        if (constTree(y)) return pushIte(y, [&](Term* t) { return mkLshr(x, t); });
        Term p = blank(T_LSHR, x->w); p.a = x; p.b = y; p.hi = x->hi;
        return intern(p);
    }
    Term* mkAshr(Term* x, Term* y) {
        needBV(x); needBV(y);
        if (x->w > 1 && x->hi <= mask(x->w - 1)) return mkLshr(x, y);
        if (y->isConst()) {
            int n = y->c >= x->w ? x->w - 1 : (int)y->c;
            if (x->isConst()) return konst((u128)(sx(x->c, x->w) >> n), x->w);
            if (n == 0) return x;
            if (constTree(x)) return pushIte(x, [&](Term* t) { return mkAshr(t, y); });
            return sext(extract(x, n, x->w - n), x->w);
        }
        if (constTree(y)) return pushIte(y, [&](Term* t) { return mkAshr(x, t); });
        Term p = blank(T_ASHR, x->w); p.a = x; p.b = y;
        return intern(p);
    }
    Term* concat(Term* h, Term* l) {
        needBV(h); needBV(l);
        int w = h->w + l->w;
        if (w > 128) throw Unsupported("concat width " + std::to_string(w));
        if (h->isConst() && l->isConst()) return konst((h->c << l->w) | l->c, w);
        if (h->isConst() && h->c == 0) return zext(l, w);
        // adjacent extracts
        if (h->op == T_EXTRACT && l->op == T_EXTRACT && h->a == l->a && h->imm == l->imm + l->w)
            return extract(h->a, l->imm, w);
        if (h->op == T_EXTRACT && h->a == l && h->imm == l->w) return extract(l, 0, w);
        if (h->op == T_EXTRACT && l->op == T_CONCAT && l->a->op == T_EXTRACT && h->a == l->a->a && h->imm == l->a->imm + l->a->w)
            return concat(extract(h->a, l->a->imm, h->w + l->a->w), l->b);
        Term p = blank(T_CONCAT, w); p.a = h; p.b = l;
        p.lo = (h->lo << l->w) | l->lo; p.hi = (h->hi << l->w) | l->hi;
        return intern(p);
    }
    Term* extract(Term* x, int off, int n) {
        needBV(x);
        if (off == 0 && n == x->w) return x;
        if (off + n > x->w) throw std::logic_error("extract range");
        if (x->isConst()) return konst(x->c >> off, n);
        if (x->w <= 64 || off < 64) { u128 lim = x->hi; if (off < 128 && (lim >> off) == 0) return konst(0, n); }
        if ((x->lo >> off) == (x->hi >> off)) return konst(x->lo >> off, n);
        switch (x->op) {
        case T_EXTRACT: return extract(x->a, x->imm + off, n);
        case T_CONCAT:
            if (off >= x->b->w) return extract(x->a, off - x->b->w, n);
            if (off + n <= x->b->w) return extract(x->b, off, n);
            return concat(extract(x->a, 0, off + n - x->b->w), extract(x->b, off, x->b->w - off));
        case T_ZEXT:
            if (off >= x->a->w) return konst(0, n);
            if (off + n <= x->a->w) return extract(x->a, off, n);
            return zext(extract(x->a, off, x->a->w - off), n);
        case T_SEXT:
            if (off + n <= x->a->w) return extract(x->a, off, n);
            if (off < x->a->w) return sext(extract(x->a, off, x->a->w - off), n);
            return sext(extract(x->a, x->a->w - 1, 1), n);
        default: break;
        }
        bool push = x->op == T_AND || x->op == T_OR || x->op == T_XOR || x->op == T_NOT || x->op == T_ITE;
        bool low = (x->op == T_ADD || x->op == T_MUL) && off == 0;
        if (push || low) {
            u64 key = ((u64)x->id << 16) | ((u64)off << 8) | (u64)n;
            auto it = extMemo.find(key);
            if (it != extMemo.end()) return it->second;
            Term* r;
            switch (x->op) {
            case T_AND: r = mkAnd(extract(x->a, off, n), extract(x->b, off, n)); break;
            case T_OR: r = mkOr(extract(x->a, off, n), extract(x->b, off, n)); break;
            case T_XOR: r = mkXor(extract(x->a, off, n), extract(x->b, off, n)); break;
            case T_NOT: r = mkNot(extract(x->a, off, n)); break;
            case T_ITE: r = ite(x->a, extract(x->b, off, n), extract(x->d, off, n)); break;
            case T_ADD: r = mkAdd(extract(x->a, 0, n), extract(x->b, 0, n)); break;
            default: r = mkMul(extract(x->a, 0, n), extract(x->b, 0, n)); break;
            }
            extMemo[key] = r;
            return r;
        }
        Term p = blank(T_EXTRACT, n); p.a = x; p.imm = off;
        if (off == 0 && x->hi <= mask(n)) { p.lo = x->lo; p.hi = x->hi; }
        else if (off + n == x->w) { p.lo = x->lo >> off; p.hi = x->hi >> off; }
        return intern(p);
    }
    Term* zext(Term* x, int w) {
        needBV(x);
        if (w == x->w) return x;
        if (w < x->w) return extract(x, 0, w);
        if (x->isConst()) return konst(x->c, w);
        if (x->op == T_ZEXT) return zext(x->a, w);
        if (constTree(x)) return pushIte(x, [&](Term* t) { return zext(t, w); });
        Term p = blank(T_ZEXT, w); p.a = x; p.lo = x->lo; p.hi = x->hi;
        return intern(p);
    }
    Term* sext(Term* x, int w) {
        needBV(x);
        if (w == x->w) return x;
        if (w < x->w) return extract(x, 0, w);
        if (x->isConst()) return konst((u128)sx(x->c, x->w), w);
        if (x->op == T_SEXT) return sext(x->a, w);
        if (x->op == T_ZEXT) return zext(x->a, w);
        if (x->w > 1 && x->hi <= mask(x->w - 1)) return zext(x, w);
        if (constTree(x)) return pushIte(x, [&](Term* t) { return sext(t, w); });
        Term p = blank(T_SEXT, w); p.a = x;
        if (x->lo > mask(x->w - 1)) { p.lo = (u128)sx(x->lo, x->w) & mask(w); p.hi = (u128)sx(x->hi, x->w) & mask(w); }
        return intern(p);
    }
    // ---- comparisons
    Term* mkEq(Term* x, Term* y) {
        needBV(x); needBV(y); samew(x, y);
        if (x == y) return T1;
        if (x->isConst()) std::swap(x, y);
        if (x->hi < y->lo || y->hi < x->lo) return T0;
        if (y->isConst()) {
            if (x->isConst()) return T0;
            if (x->w == 1) return y->c ? x : mkNot(x);
            if (x->lo == x->hi) return boolc(x->lo == y->c);
            if (x->op == T_ZEXT) {
                if (y->c > mask(x->a->w)) return T0;
                return mkEq(x->a, konst(y->c, x->a->w));
            }
            if (x->op == T_SEXT) {
                Term* l = konst(y->c, x->a->w);
                if (konst((u128)sx(l->c, x->a->w), x->w) != y) return T0;
                return mkEq(x->a, l);
            }
            if (x->op == T_NOT) return mkEq(x->a, konst(~y->c, x->w));
            if (x->op == T_XOR && x->a->isConst()) return mkEq(x->b, konst(x->a->c ^ y->c, x->w));
            if (x->op == T_ADD && x->b->isConst()) return mkEq(x->a, konst(y->c - x->b->c, x->w));
            if (x->op == T_CONCAT)
                return mkAnd(mkEq(x->a, konst(y->c >> x->b->w, x->a->w)), mkEq(x->b, konst(y->c, x->b->w)));
            if (x->op == T_ITE) {
                u64 key = ((u64)x->id << 32) | y->id;
                auto it = eqMemo.find(key);
                if (it != eqMemo.end()) return it->second;
                Term* r = nullptr;
                auto apart = [&](Term* t) { return t->lo > y->c || t->hi < y->c; };
                if (x->b->isConst() || x->d->isConst() || x->leaves || apart(x->b) || apart(x->d))
                    r = ite(x->a, mkEq(x->b, y), mkEq(x->d, y));
                if (r) { eqMemo[key] = r; return r; }
            }
            if (x->op == T_MUL && x->b->isConst() && x->w <= 64 && x->a->hi * x->b->c <= mask(x->w) && x->a->hi <= mask(63)) {
                if (x->b->c && y->c % x->b->c) return T0;
                if (x->b->c) return mkEq(x->a, konst(y->c / x->b->c, x->w));
            }
            if (x->op == T_MUL && allOnes(x->b)) return mkEq(x->a, konst(0 - y->c, x->w));
        } else {
            if (x->w == 1) return mkNot(mkXor(x, y));
            if (x->op == T_ZEXT && y->op == T_ZEXT) {
                int w = std::max(x->a->w, y->a->w);
                return mkEq(zext(x->a, w), zext(y->a, w));
            }
            if (x->op == T_ADD && y->op == T_ADD && x->b->isConst() && y->b->isConst()) {
                if (x->a == y->a) return boolc(x->b == y->b);
                return mkEq(x->a, mkAdd(y->a, konst(y->b->c - x->b->c, x->w)));
            }
            if (constTree(x) && constTree(y) && x->leaves * y->leaves <= 256)
                return pushIte(x, [&](Term* t) { return mkEq(y, t); });
            if (x->op == T_ITE && y->op == T_ITE && x->a == y->a) return ite(x->a, mkEq(x->b, y->b), mkEq(x->d, y->d));
            if (x->op == T_ITE && (x->b == y || x->d == y)) return ite(x->a, mkEq(x->b, y), mkEq(x->d, y));
            if (y->op == T_ITE && (y->b == x || y->d == x)) return ite(y->a, mkEq(x, y->b), mkEq(x, y->d));
            if (x->id > y->id) std::swap(x, y);
        }
        Term p = blank(T_EQ, 1); p.a = x; p.b = y;
        return intern(p);
    }
    Term* mkUlt(Term* x, Term* y) {
        needBV(x); needBV(y); samew(x, y);
        if (x == y) return T0;
        if (x->hi < y->lo) return T1;
        if (x->lo >= y->hi) return T0;
        if (x->w == 1) return mkAnd(mkNot(x), y);
        if (y->isConst() && y->c == 1) return mkEq(x, konst(0, x->w));
        if (y->isConst() && y->c == x->lo + 1) return mkEq(x, konst(x->lo, x->w));
        if (x->isConst() && x->c == 0) return mkNot(mkEq(y, x));
        if (x->isConst() && x->c + 1 == y->hi) return mkEq(y, konst(y->hi, y->w));
        if (y->isConst() && constTree(x)) return pushIte(x, [&](Term* t) { return mkUlt(t, y); });
        if (x->isConst() && constTree(y)) return pushIte(y, [&](Term* t) { return mkUlt(x, t); });
        if (constTree(x) && constTree(y) && x->leaves * y->leaves <= 256)
            return pushIte(x, [&](Term* t) { return mkUlt(t, y); });
        if (x->op == T_ITE && y->isConst()) {
            auto out = [&](Term* t) { return (t->hi < y->c || t->lo >= y->c); };
            if (out(x->b) || out(x->d)) return ite(x->a, mkUlt(x->b, y), mkUlt(x->d, y));
        }
        if (y->op == T_ITE && x->isConst()) {
            auto out = [&](Term* t) { return (x->c < t->lo || x->c >= t->hi); };
            if (out(y->b) || out(y->d)) return ite(y->a, mkUlt(x, y->b), mkUlt(x, y->d));
        }
        if (x->op == T_ZEXT && y->op == T_ZEXT) { int w = std::max(x->a->w, y->a->w); return mkUlt(zext(x->a, w), zext(y->a, w)); }
        if (x->op == T_ZEXT && y->isConst()) return mkUlt(x->a, konst(y->c, x->a->w));
        if (y->op == T_ZEXT && x->isConst()) return mkUlt(konst(x->c, y->a->w), y->a);
        if (Term* r = cmpShift(x, y, true, false)) return r;
        Term p = blank(T_ULT, 1); p.a = x; p.b = y;
        return intern(p);
    }
    // x + c < k without wrap
    Term* cmpShift(Term* x, Term* y, bool strict, bool) {
        if (y->isConst() && x->op == T_ADD && x->b->isConst()) {
            u128 s = x->a->hi + x->b->c;
            if (s <= mask(x->w) && s >= x->a->hi) {
                if (y->c < x->b->c) return T0;
                Term* k = konst(y->c - x->b->c, x->w);
                return strict ? mkUlt(x->a, k) : mkUle(x->a, k);
            }
        }
        if (x->isConst() && y->op == T_ADD && y->b->isConst()) {
            u128 s = y->a->hi + y->b->c;
            if (s <= mask(y->w) && s >= y->a->hi) {
                if (x->c < y->b->c) return T1;
                Term* k = konst(x->c - y->b->c, x->w);
                return strict ? mkUlt(k, y->a) : mkUle(k, y->a);
            }
        }
        return nullptr;
    }
    Term* mkUle(Term* x, Term* y) {
        needBV(x); needBV(y); samew(x, y);
        if (x == y) return T1;
        if (x->hi <= y->lo) return T1;
        if (x->lo > y->hi) return T0;
        if (x->w == 1) return mkOr(mkNot(x), y);
        if (y->isConst() && y->c == x->lo) return mkEq(x, y);
        if (x->isConst() && x->c == y->hi) return mkEq(y, x);
        if (x->isConst() && x->c == 1) return mkNot(mkEq(y, konst(0, y->w)));
        if (y->isConst() && constTree(x)) return pushIte(x, [&](Term* t) { return mkUle(t, y); });
        if (x->isConst() && constTree(y)) return pushIte(y, [&](Term* t) { return mkUle(x, t); });
        if (constTree(x) && constTree(y) && x->leaves * y->leaves <= 256)
            return pushIte(x, [&](Term* t) { return mkUle(t, y); });
        if (x->op == T_ITE && y->isConst()) {
            auto out = [&](Term* t) { return (t->hi <= y->c || t->lo > y->c); };
            if (out(x->b) || out(x->d)) return ite(x->a, mkUle(x->b, y), mkUle(x->d, y));
        }
        if (y->op == T_ITE && x->isConst()) {
            auto out = [&](Term* t) { return (x->c <= t->lo || x->c > t->hi); };
            if (out(y->b) || out(y->d)) return ite(y->a, mkUle(x, y->b), mkUle(x, y->d));
        }
        if (x->op == T_ZEXT && y->op == T_ZEXT) { int w = std::max(x->a->w, y->a->w); return mkUle(zext(x->a, w), zext(y->a, w)); }
        if (x->op == T_ZEXT && y->isConst()) return mkUle(x->a, konst(y->c, x->a->w));
        if (y->op == T_ZEXT && x->isConst()) return mkUle(konst(x->c, y->a->w), y->a);
        if (Term* r = cmpShift(x, y, false, false)) return r;
        Term p = blank(T_ULE, 1); p.a = x; p.b = y;
        return intern(p);
    }
    // signed interval of a BV if it does not straddle the sign boundary
    bool sint(Term* x, i128& l, i128& h) {
        u128 half = mask(x->w - 1);
        if (x->w == 1) return false;
        if (x->hi <= half) { l = (i128)x->lo; h = (i128)x->hi; return true; }
        if (x->lo > half) { l = sx(x->lo, x->w); h = sx(x->hi, x->w); return true; }
        return false;
    }
    Term* mkSlt(Term* x, Term* y) {
        needBV(x); needBV(y); samew(x, y);
        if (x == y) return T0;
        i128 xl, xh, yl, yh;
        if (x->isConst() && y->isConst()) return boolc(sx(x->c, x->w) < sx(y->c, y->w));
        if (sint(x, xl, xh) && sint(y, yl, yh)) {
            if (xh < yl) return T1;
            if (xl >= yh) return T0;
            if ((xl >= 0) == (yl >= 0) && (xh >= 0) == (yh >= 0) && (xl >= 0) == (xh >= 0)) return mkUlt(x, y);
        }
        if (y->isConst() && constTree(x)) return pushIte(x, [&](Term* t) { return mkSlt(t, y); });
        if (x->isConst() && constTree(y)) return pushIte(y, [&](Term* t) { return mkSlt(x, t); });
        if (y->isConst() && y->c == 0) return extract(x, x->w - 1, 1);
        Term p = blank(T_SLT, 1); p.a = x; p.b = y;
        return intern(p);
    }
    Term* mkSle(Term* x, Term* y) {
        needBV(x); needBV(y); samew(x, y);
        if (x == y) return T1;
        i128 xl, xh, yl, yh;
        if (x->isConst() && y->isConst()) return boolc(sx(x->c, x->w) <= sx(y->c, y->w));
        if (sint(x, xl, xh) && sint(y, yl, yh)) {
            if (xh <= yl) return T1;
            if (xl > yh) return T0;
            if ((xl >= 0) == (yl >= 0) && (xl >= 0) == (xh >= 0) && (yl >= 0) == (yh >= 0)) return mkUle(x, y);
        }
        if (y->isConst() && constTree(x)) return pushIte(x, [&](Term* t) { return mkSle(t, y); });
        if (x->isConst() && constTree(y)) return pushIte(y, [&](Term* t) { return mkSle(x, t); });
        if (x->isConst() && x->c == 0) return mkNot(extract(y, y->w - 1, 1));
        Term p = blank(T_SLE, 1); p.a = x; p.b = y;
        return intern(p);
    }
    // ---- if-then-else
    Term* ite(Term* c, Term* x, Term* y) {
        if (x == y) return x;
        if (c->isConst()) return c->c ? x : y;
        if (x->fw || y->fw) return fite(c, x, y);
        samew(x, y);
        if (c->op == T_NOT) return ite(c->a, y, x);
        if (x->w == 1) {
            if (x->isConst()) return x->c ? mkOr(c, y) : mkAnd(mkNot(c), y);
            if (y->isConst()) return y->c ? mkOr(mkNot(c), x) : mkAnd(c, x);
            if (c == x) return mkOr(c, y);
            if (c == y) return mkAnd(c, x);
            if (isNeg(c, x)) return mkAnd(mkNot(c), y);
            if (isNeg(c, y)) return mkOr(mkNot(c), x);
        }
        if (x->op == T_ITE) {
            if (x->a == c) return ite(c, x->b, y);
            if (isNeg(x->a, c)) return ite(c, x->d, y);
            if (x->d == y) return ite(mkAnd(c, x->a), x->b, y);
            if (x->b == y) return ite(mkAnd(c, mkNot(x->a)), x->d, y);
        }
        if (y->op == T_ITE) {
            if (y->a == c) return ite(c, x, y->d);
            if (isNeg(y->a, c)) return ite(c, x, y->b);
            if (y->b == x) return ite(mkOr(c, y->a), x, y->d);
            if (y->d == x) return ite(mkOr(c, mkNot(y->a)), x, y->b);
        }
        // common structure: zext on both sides narrows
        if (x->op == T_ZEXT && y->op == T_ZEXT && x->a->w == y->a->w) return zext(ite(c, x->a, y->a), x->w);
        Term p = blank(T_ITE, x->w); p.a = c; p.b = x; p.d = y;
        p.lo = std::min(x->lo, y->lo); p.hi = std::max(x->hi, y->hi);
        if (x->leaves && y->leaves) { u64 l = (u64)x->leaves + y->leaves; p.leaves = l > MAXL ? 0 : l; }
        return intern(p);
    }
    void leaves(Term* x, const std::function<void(Term*)>& f) {
        std::set<Term*> seen;
        std::vector<Term*> st{x};
        while (!st.empty()) {
            Term* t = st.back(); st.pop_back();
            if (!seen.insert(t).second) continue;
            if (t->op == T_ITE) { st.push_back(t->b); st.push_back(t->d); }
            else f(t);
        }
    }

    // ---- floating point
    static i64 maxExact(int fw) { return fw == 64 ? ((i64)1 << 53) : ((i64)1 << 24); }
    static int bitsFor(i64 lo, i64 hi) {
        int w = 1;
        while (w < 64 && (lo < -((i64)1 << (w - 1)) || hi > (((i64)1 << (w - 1)) - 1))) w++;
        return w;
    }
    Term* fint(Term* n, int scale, i64 slo, i64 shi, int fw) {
        if (slo < -maxExact(fw) || shi > maxExact(fw))
            throw Unsupported("floating-point value may need rounding (range " + std::to_string(slo) + ".." + std::to_string(shi) + ")");
        int need = bitsFor(slo, shi);
        if (slo == shi) n = konst((u128)(i128)slo, need);
        else if (n->w > need) n = extract(n, 0, need);
        if (n->isConst()) {
            i128 v = sx(n->c, n->w);
            slo = shi = (i64)v;
            if (v == 0) scale = 0;
            else {
                while (scale < 0 && !(v & 1)) { v >>= 1; scale++; }
                while (scale > 0 && v <= maxExact(fw) / 2 && v >= -maxExact(fw) / 2) { v *= 2; scale--; }
                while (scale > 0 && !(v & 1)) { v >>= 1; scale++; if (scale > 2000) break; }
                slo = shi = (i64)v;
            }
            n = konst((u128)v, bitsFor(slo, shi));
        }
        Term p; memset(&p, 0, sizeof p);
        p.op = F_INT; p.fw = fw; p.w = 0; p.a = n; p.imm = scale; p.slo = slo; p.shi = shi;
        if (n->isConst()) p.leaves = 1;
        return intern(p);
    }
    Term* fconst(double v, int fw) {
        if (std::isnan(v) || std::isinf(v)) {
            Term p; memset(&p, 0, sizeof p);
            p.op = F_SPEC; p.fw = fw;
            u64 b; memcpy(&b, &v, 8); p.c = std::isnan(v) ? (u128)0x7ff8000000000000ull : (u128)b;
            p.leaves = 1;
            return intern(p);
        }
        if (v == 0) return fint(konst(0, 1), 0, 0, 0, fw);
        int e; double m = frexp(v, &e);            // v = m * 2^e, 0.5<=|m|<1
        i64 n = (i64)ldexp(m, 53); int s = e - 53;
        while (!(n & 1)) { n >>= 1; s++; }
        while (s > 0 && std::llabs(n) <= maxExact(fw) / 2) { n *= 2; s--; }
        while (s > 0 && !(n & 1)) { n >>= 1; s++; }
        if (std::llabs(n) > maxExact(fw)) throw Unsupported("constant not representable");
        return fint(konst((u128)(i128)n, 64), s, n, n, fw);
    }
    static double specVal(Term* t) { u64 b = (u64)t->c; double v; memcpy(&v, &b, 8); return v; }
    static bool fIsConst(Term* t) { return t->op == F_SPEC || (t->op == F_INT && t->a->isConst()); }
    static double fconstVal(Term* t) {
        if (t->op == F_SPEC) return specVal(t);
        return ldexp((double)t->slo, t->imm);
    }
    // IEEE operations where exact arithmetic does not suffice: decided bit-precisely by the solver
    Term* fpop(int k, Term* a, Term* b, int w) {
        Term p = blank(T_FP, w); p.a = a; p.b = b; p.imm = k;
        return intern(p);
    }
    Term* fraw(int k, Term* x, Term* y) { return fromBits(fpop(k, fbits(x), fbits(y), x->fw), x->fw); }
    Term* fdiv(Term* x, Term* y) {
        if (x->op == F_ITE) return ite(x->a, fdiv(x->b, y), fdiv(x->d, y));
        if (y->op == F_ITE) return ite(y->a, fdiv(x, y->b), fdiv(x, y->d));
        if (fIsConst(x) && fIsConst(y)) { double r = fconstVal(x) / fconstVal(y); return fconst(x->fw == 32 ? (float)r : r, x->fw); }
        if (y->op == F_INT && fIsConst(y)) {   // division by a power of two is exact
            double v = fconstVal(y); int e; double m = frexp(v, &e);
            if (m == 0.5) return fmul(x, fconst(ldexp(1.0, 1 - e), x->fw));
        }
        return fraw(3, x, y);
    }
    static u128 fpEval(int k, u128 a, u128 b, int aw, int w) {
        auto val = [](u128 v, int w) { if (w == 64) { u64 x = (u64)v; double d; memcpy(&d, &x, 8); return d; } uint32_t x = (uint32_t)v; float f; memcpy(&f, &x, 4); return (double)f; };
        auto bits = [&](double d) -> u128 { if (w == 64) { u64 x; memcpy(&x, &d, 8); return x; } float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; };
        switch (k) {
        case 0: return bits(val(a, w) + val(b, w));
        case 1: return bits(val(a, w) - val(b, w));
        case 2: return bits(val(a, w) * val(b, w));
        case 3: return bits(val(a, w) / val(b, w));
        case 4: return w == 64 ? bits((double)a) : bits((float)a);
        case 5: return w == 64 ? bits((double)sx(a, aw)) : bits((float)sx(a, aw));
        default: return bits(val(a, aw));
        }
    }
    Term* fbits(Term* t) {   // to raw bits
        if (t->op == F_RAW) return t->a;
        if (fIsConst(t)) {
            double v = fconstVal(t);
            if (t->fw == 64) { u64 b; memcpy(&b, &v, 8); return konst(b, 64); }
            float f = (float)v; uint32_t b; memcpy(&b, &f, 4); return konst(b, 32);
        }
        if (t->op == F_ITE) return ite(t->a, fbits(t->b), fbits(t->d));
        if (t->op == F_INT) {
            Term* b = fpop(5, t->a, nullptr, t->fw);
            return t->imm ? fpop(2, b, fbits(fconst(ldexp(1.0, t->imm), t->fw)), t->fw) : b;
        }
        throw Unsupported("bit pattern of a symbolic floating-point value");
    }
    Term* fromBits(Term* b, int fw) {
        if (b->fw) { if (b->fw != fw) throw Unsupported("float width mix"); return b; }
        if (b->w != fw) throw std::logic_error("fromBits width");
        if (b->isConst()) {
            if (fw == 64) { u64 x = (u64)b->c; double v; memcpy(&v, &x, 8); return fconst(v, 64); }
            uint32_t x = (uint32_t)b->c; float v; memcpy(&v, &x, 4); return fconst(v, 32);
        }
        if (b->op == T_ITE && b->leaves) return ite(b->a, fromBits(b->b, fw), fromBits(b->d, fw));
        Term p; memset(&p, 0, sizeof p);
        p.op = F_RAW; p.fw = fw; p.a = b;
        return intern(p);
    }
    // ---- exact values as canonical linear forms over atoms: n = sum coef_i * atom_i + cst
    struct Lin { std::vector<std::pair<Term*, i128>> t; i128 c = 0; };
    std::unordered_map<Term*, Lin> lins;                       // F_INT term -> its form (absent: an atom itself)
    std::unordered_map<Term*, std::vector<Term*>> prods;       // BV of a product atom -> factors (atoms)
    std::unordered_map<Term*, std::vector<Term*>> mins;        // F_INT term -> elements it is the minimum of
    Term* atomOf(Term* t) {
        Term p; memset(&p, 0, sizeof p);
        p.op = F_INT; p.fw = t->fw; p.a = t->a; p.slo = t->slo; p.shi = t->shi;
        return intern(p);
    }
    Lin linOf(Term* t) {
        auto it = lins.find(t);
        if (it != lins.end()) return it->second;
        Lin l;
        if (t->a->isConst()) l.c = t->slo; else l.t.push_back({atomOf(t), 1});
        return l;
    }
    static bool big(i128 v) { return v > ((i128)1 << 100) || v < -((i128)1 << 100); }
    Lin linAdd(const Lin& x, i128 kx, const Lin& y, i128 ky) {
        Lin r; r.c = x.c * kx + y.c * ky;
        size_t i = 0, j = 0;
        while (i < x.t.size() || j < y.t.size()) {
            if (j == y.t.size() || (i < x.t.size() && x.t[i].first->id < y.t[j].first->id)) { r.t.push_back({x.t[i].first, x.t[i].second * kx}); i++; }
            else if (i == x.t.size() || y.t[j].first->id < x.t[i].first->id) { r.t.push_back({y.t[j].first, y.t[j].second * ky}); j++; }
            else { i128 k = x.t[i].second * kx + y.t[j].second * ky; if (k) r.t.push_back({x.t[i].first, k}); i++; j++; }
        }
        return r;
    }
    void linRange(const Lin& l, i128& lo, i128& hi) {
        lo = hi = l.c;
        for (auto& a : l.t) {
            i128 p = a.second * a.first->slo, q = a.second * a.first->shi;
            lo += std::min(p, q); hi += std::max(p, q);
        }
    }
    Term* mkLin(Lin l, int s, int fw) {
        if (l.t.empty() && l.c == 0) return fconst(0, fw);
        auto even = [&] { if (l.c & 1) return false; for (auto& a : l.t) if (a.second & 1) return false; return true; };
        while (s < 0 && even()) { l.c /= 2; for (auto& a : l.t) a.second /= 2; s++; }
        i128 lo, hi; linRange(l, lo, hi);
        if (lo < -maxExact(fw) || hi > maxExact(fw)) throw Unsupported("floating-point value may need rounding");
        if (l.t.empty()) return fint(konst((u128)l.c, 64), s, (i64)l.c, (i64)l.c, fw);
        if (l.t.size() == 1 && l.t[0].second == 1 && l.c == 0) return fint(l.t[0].first->a, s, l.t[0].first->slo, l.t[0].first->shi, fw);
        int W = bitsFor((i64)lo, (i64)hi);
        Term* n = konst(0, W);
        for (auto& a : l.t) {
            Term* k = a.first->a;
            k = k->w >= W ? extract(k, 0, W) : sext(k, W);
            n = mkAdd(n, mkMul(k, konst((u128)a.second & mask(W), W)));
        }
        n = mkAdd(n, konst((u128)l.c & mask(W), W));
        Term* r = fint(n, s, (i64)lo, (i64)hi, fw);
        if (!r->a->isConst()) lins.emplace(r, std::move(l));
        return r;
    }
    static i128 gcd(i128 a, i128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { i128 t = a % b; a = b; b = t; } return a; }
    Term* fmin_(Term* x, Term* y) {
        if (x == y) return x;
        std::vector<Term*> e;
        for (Term* t : {x, y}) { auto it = mins.find(t); if (it == mins.end()) e.push_back(t); else e.insert(e.end(), it->second.begin(), it->second.end()); }
        std::sort(e.begin(), e.end(), [](Term* a, Term* b) { return a->id < b->id; });
        e.erase(std::unique(e.begin(), e.end()), e.end());
        Term* acc = e[0];
        for (size_t i = 1; i < e.size(); i++) {
            Term* n = fiteRaw(fcmp(e[i], acc, 2), e[i], acc);
            if (n != e[i] && n != acc && !mins.count(n)) mins[n] = std::vector<Term*>(e.begin(), e.begin() + i + 1);
            acc = n;
        }
        return acc;
    }
    Term* fite(Term* c, Term* x, Term* y) {
        if (x == y) return x;
        if (c->isConst()) return c->c ? x : y;
        if (c->op == T_NOT) return fite(c->a, y, x);
        if (x->op == F_INT && y->op == F_INT && x->fw == y->fw && !fIsConst(x) && !fIsConst(y)) {
            try { if (c == fcmp(x, y, 2) || c == fcmp(x, y, 1)) return fmin_(x, y); } catch (Unsupported&) {}
        }
        return fiteRaw(c, x, y);
    }
    Term* fiteRaw(Term* c, Term* x, Term* y) {
        if (x == y) return x;
        if (c->isConst()) return c->c ? x : y;
        if (!x->fw) x = fromBits(x, y->fw);
        if (!y->fw) y = fromBits(y, x->fw);
        if (x->fw != y->fw) throw Unsupported("float width mix in merge");
        if (c->op == T_NOT) return fite(c->a, y, x);
        if (x->op == F_INT && y->op == F_INT) {
            int s = std::min(x->imm, y->imm);
            if (x->slo == 0 && x->shi == 0) s = y->imm;
            else if (y->slo == 0 && y->shi == 0) s = x->imm;
            i128 xl, xh, yl, yh;
            if (alignOk(x, s, xl, xh) && alignOk(y, s, yl, yh)) {
                i64 lo = (i64)std::min(xl, yl), hi = (i64)std::max(xh, yh);
                int w = bitsFor(lo, hi);
                return fint(ite(c, alignN(x, s, w), alignN(y, s, w)), s, lo, hi, x->fw);
            }
        }
        if (x->op == F_RAW && (y->op == F_RAW || fIsConst(y))) return fromBits(ite(c, x->a, fbits(y)), x->fw);
        if (y->op == F_RAW && fIsConst(x)) return fromBits(ite(c, fbits(x), y->a), x->fw);
        Term p; memset(&p, 0, sizeof p);
        p.op = F_ITE; p.fw = x->fw; p.a = c; p.b = x; p.d = y;
        return intern(p);
    }
    bool alignOk(Term* x, int s, i128& l, i128& h) {
        if (x->slo == 0 && x->shi == 0) { l = h = 0; return true; }
        int k = x->imm - s;
        if (k < 0 || k > 60) return false;
        l = (i128)x->slo << k; h = (i128)x->shi << k;
        return l >= -maxExact(x->fw) && h <= maxExact(x->fw);
    }
    // n aligned to scale s, in width w (must fit)
    Term* alignN(Term* x, int s, int w) {
        if (x->slo == 0 && x->shi == 0) return konst(0, w);
        int k = x->imm - s;
        Term* n = x->a->w >= w ? extract(x->a, 0, w) : sext(x->a, w);
        return k ? mkMul(n, konst((u128)1 << k, w)) : n;
    }
    Term* f2(Term* x, Term* y, const std::function<Term*(Term*, Term*)>& f) {
        if (x->op == F_ITE) return ite(x->a, f2(x->b, y, f), f2(x->d, y, f));
        if (y->op == F_ITE) return ite(y->a, f2(x, y->b, f), f2(x, y->d, f));
        return f(x, y);
    }
    Term* fadd(Term* x, Term* y, bool sub) {
        return f2(x, y, [&](Term* x, Term* y) -> Term* {
            try { return fadd1(x, y, sub); } catch (Unsupported&) { return fraw(sub, x, y); }
        });
    }
    Term* fadd1(Term* x, Term* y, bool sub) {
            int fw = x->fw;
            if (fIsConst(y) && y->op == F_INT && y->slo == 0) return x;
            if (fIsConst(x) && x->op == F_INT && x->slo == 0 && !sub) return y;
            if (fIsConst(x) && fIsConst(y)) {
                double a = fconstVal(x), b = fconstVal(y), r = sub ? a - b : a + b;
                if (fw == 32) r = (float)r;
                return fconst(r, fw);
            }
            if (x->op == F_SPEC || y->op == F_SPEC) {
                Term* s = x->op == F_SPEC ? x : y; Term* o = s == x ? y : x;
                if (o->op == F_INT) { double v = specVal(s); if (s == y && sub) v = -v; return fconst(v, fw); }
                throw Unsupported("arithmetic on special float");
            }
            if (x->op != F_INT || y->op != F_INT) throw Unsupported("arithmetic on unrestricted floating-point value");
            int s = std::min(x->imm, y->imm);
            i128 xl, xh, yl, yh;
            if (!alignOk(x, s, xl, xh) || !alignOk(y, s, yl, yh)) throw Unsupported("floating-point scale range");
            Lin lx = linOf(x), ly = linOf(y);
            i128 kx = (i128)1 << (x->slo == 0 && x->shi == 0 ? 0 : x->imm - s), ky = (i128)1 << (y->slo == 0 && y->shi == 0 ? 0 : y->imm - s);
            return mkLin(linAdd(lx, kx, ly, sub ? -ky : ky), s, fw);
    }
    Term* fmul(Term* x, Term* y) {
        return f2(x, y, [&](Term* x, Term* y) -> Term* {
            try { return fmul1(x, y); } catch (Unsupported&) { return fraw(2, x, y); }
        });
    }
    Term* fmul1(Term* x, Term* y) {
            int fw = x->fw;
            if (fIsConst(x) && fIsConst(y)) {
                double r = fconstVal(x) * fconstVal(y);
                if (fw == 32) r = (float)r;
                return fconst(r, fw);
            }
            if (x->op != F_INT || y->op != F_INT) throw Unsupported("arithmetic on unrestricted floating-point value");
            if (fIsConst(x) && x->slo == 1 && x->imm == 0) return y;
            if (fIsConst(y) && y->slo == 1 && y->imm == 0) return x;
            if (fIsConst(x)) std::swap(x, y);
            int sc = x->imm + y->imm;
            if (fIsConst(y)) return mkLin(linAdd(linOf(x), y->slo, Lin(), 0), sc, fw);
            // content * primitive part, sign of the first coefficient positive; products are sorted lists of factors
            i128 k = 1; std::vector<Term*> f;
            for (Term* t : {x, y}) {
                Lin l = linOf(t);
                i128 g = l.c; for (auto& a : l.t) g = gcd(g, a.second);
                if (l.t[0].second < 0) g = g < 0 ? g : -g; else g = g < 0 ? -g : g;
                if (g == 0) g = 1;
                for (auto& a : l.t) a.second /= g; l.c /= g; k *= g;
                Term* p;
                if (l.t.size() == 1 && l.c == 0) p = l.t[0].first; else p = atomOf(mkLin(l, 0, fw));
                auto it = prods.find(p->a);
                if (it != prods.end()) f.insert(f.end(), it->second.begin(), it->second.end()); else f.push_back(p);
            }
            std::sort(f.begin(), f.end(), [](Term* a, Term* b) { return a->id < b->id; });
            i128 lo = 1, hi = 1;
            for (size_t i = 0; i < f.size();) {
                size_t j = i; while (j < f.size() && f[j] == f[i]) j++;
                i128 l = 1, h = 1;
                for (size_t q = i; q < j; q++) {
                    i128 c[4] = {l * f[i]->slo, l * f[i]->shi, h * f[i]->slo, h * f[i]->shi};
                    l = *std::min_element(c, c + 4); h = *std::max_element(c, c + 4);
                    if (big(l) || big(h)) throw Unsupported("floating-point product may round");
                }
                if ((j - i) % 2 == 0) { i128 m = 0; if (f[i]->slo > 0 || f[i]->shi < 0) { i64 z = std::min(std::llabs(f[i]->slo), std::llabs(f[i]->shi)); m = 1; for (size_t q = i; q < j; q++) m *= z; } l = std::max(l, m); }
                i128 c[4] = {lo * l, lo * h, hi * l, hi * h};
                lo = *std::min_element(c, c + 4); hi = *std::max_element(c, c + 4);
                if (big(lo) || big(hi)) throw Unsupported("floating-point product may round");
                i = j;
            }
            if (lo * k < -maxExact(fw) || lo * k > maxExact(fw) || hi * k < -maxExact(fw) || hi * k > maxExact(fw)) throw Unsupported("floating-point product may round");
            int w = bitsFor((i64)lo, (i64)hi);
            for (Term* t : f) w = std::max(w, (int)t->a->w);
            Term* n = sext(f[0]->a, w);
            for (size_t i = 1; i < f.size(); i++) n = mkMul(n, sext(f[i]->a, w));
            Term* at = fint(n, 0, (i64)lo, (i64)hi, fw);
            if (fIsConst(at)) return mkLin(linAdd(linOf(at), k << at->imm, Lin(), 0), sc, fw);
            if (!lins.count(at)) prods.emplace(at->a, f);
            return mkLin(linAdd(linOf(at), k, Lin(), 0), sc, fw);
    }
    Term* fneg(Term* x) {
        if (x->op == F_ITE) return ite(x->a, fneg(x->b), fneg(x->d));
        if (fIsConst(x)) return fconst(-fconstVal(x), x->fw);
        if (x->op == F_RAW) return fromBits(mkXor(konst((u128)1 << (x->fw - 1), x->fw), x->a), x->fw);
        return mkLin(linAdd(linOf(x), -1, Lin(), 0), x->imm, x->fw);
    }
    Term* fabs_(Term* x) {
        if (x->op == F_ITE) return ite(x->a, fabs_(x->b), fabs_(x->d));
        if (fIsConst(x)) return fconst(fabs(fconstVal(x)), x->fw);
        if (x->op == F_RAW) return fromBits(mkAnd(konst(mask(x->fw - 1), x->fw), x->a), x->fw);
        return ite(fcmp(x, fconst(0, x->fw), 2), fneg(x), x);
    }
    // key of raw bits: signed integer ordered like the float (zeros equal)
    Term* rawKey(Term* bits) {
        int w = bits->w;
        Term* mag = concat(konst(0, 1), extract(bits, 0, w - 1));
        return ite(extract(bits, w - 1, 1), mkNeg(mag), mag);
    }
    Term* rawNan(Term* bits) {
        int w = bits->w;
        return mkUlt(w == 64 ? konst((u128)0x7ff0000000000000ull, 63) : konst(0x7f800000u, 31), extract(bits, 0, w - 1));
    }
    Term* fIsNan(Term* x) {
        if (x->op == F_ITE) return ite(x->a, fIsNan(x->b), fIsNan(x->d));
        if (x->op == F_RAW) return rawNan(x->a);
        if (x->op == F_SPEC) return boolc(std::isnan(specVal(x)));
        return T0;
    }
    // kind: 0 eq, 1 le, 2 lt (all ordered)
    Term* fcmp(Term* x, Term* y, int kind) {
        return f2(x, y, [&](Term* x, Term* y) -> Term* {
            try { return fcmp1(x, y, kind); } catch (Unsupported&) { return rawCmp(x, y, kind); }
        });
    }
    Term* rawCmp(Term* x, Term* y, int kind) {
        Term* bx = fbits(x); Term* by = fbits(y);
        Term* kx = rawKey(bx); Term* ky = rawKey(by);
        Term* r = kind == 0 ? mkEq(kx, ky) : kind == 1 ? mkSle(kx, ky) : mkSlt(kx, ky);
        return mkAnd(mkAnd(mkNot(rawNan(bx)), mkNot(rawNan(by))), r);
    }
    Term* fcmp1(Term* x, Term* y, int kind) {
            if (fIsConst(x) && fIsConst(y)) {
                double a = fconstVal(x), b = fconstVal(y);
                return boolc(kind == 0 ? a == b : kind == 1 ? a <= b : a < b);
            }
            if (x->op == F_RAW || y->op == F_RAW) return rawCmp(x, y, kind);
            if (x->op == F_SPEC || y->op == F_SPEC) {
                double a = x->op == F_SPEC ? specVal(x) : 0, b = y->op == F_SPEC ? specVal(y) : 0;
                return boolc(kind == 0 ? a == b : kind == 1 ? a <= b : a < b);
            }
            if (x == y) return boolc(kind != 2);
            // far apart scales with a constant: reduce to an integer bound
            int s = std::min(x->imm, y->imm);
            if (x->slo == 0 && x->shi == 0) s = y->imm;
            else if (y->slo == 0 && y->shi == 0) s = x->imm;
            i128 xl, xh, yl, yh;
            if (!alignOk(x, s, xl, xh) || !alignOk(y, s, yl, yh)) {
                if (fIsConst(y)) return cmpConst(x, fconstVal(y), kind, false);
                if (fIsConst(x)) return cmpConst(y, fconstVal(x), kind, true);
                throw Unsupported("floating-point comparison scale");
            }
            if (kind == 0) { if (xh < yl || yh < xl) return T0; }
            else if (kind == 1) { if (xh <= yl) return T1; if (xl > yh) return T0; }
            else { if (xh < yl) return T1; if (xl >= yh) return T0; }
            if (kind) {
                auto has = [&](Term* m, Term* e) { auto it = mins.find(m); return it != mins.end() && std::find(it->second.begin(), it->second.end(), e) != it->second.end(); };
                if (kind == 1 && has(x, y)) return T1;
                if (kind == 2 && has(y, x)) return T0;
            }
            Lin lx = linOf(x), ly = linOf(y);
            i128 kx = (i128)1 << (x->slo == 0 && x->shi == 0 ? 0 : x->imm - s), ky = (i128)1 << (y->slo == 0 && y->shi == 0 ? 0 : y->imm - s);
            Lin d = linAdd(lx, kx, ly, -ky);
            i128 dl, dh; linRange(d, dl, dh);
            if (kind == 0) { if (dl > 0 || dh < 0) return T0; if (dl == 0 && dh == 0) return T1; }
            else if (kind == 1) { if (dh <= 0) return T1; if (dl > 0) return T0; }
            else { if (dh < 0) return T1; if (dl >= 0) return T0; }
            if (d.t.size() == 1) {
                // k * n + c OP 0  with one atom: n against an integer
                Term* A = d.t[0].first; i128 k = d.t[0].second, c = d.c;
                auto fdiv = [](i128 a, i128 b) { i128 q = a / b; if ((a % b) && ((a < 0) != (b < 0))) q--; return q; };
                auto le = [&](i128 v) -> Term* {   // n <= v
                    if (v >= A->shi) return T1; if (v < A->slo) return T0;
                    return mkSle(A->a, konst((u128)v & mask(A->a->w), A->a->w)); };
                if (kind == 0) { if (c % k) return T0; i128 v = -c / k; if (v < A->slo || v > A->shi) return T0; return mkEq(A->a, konst((u128)v & mask(A->a->w), A->a->w)); }
                i128 lim = kind == 1 ? 0 : -1;      // k*n + c <= lim
                if (k > 0) return le(fdiv(lim - c, k));
                return mkNot(le(-fdiv(lim - c, -k) - 1));   // (-k) n >= c - lim
            }
            if (d.t.size() < lx.t.size() + ly.t.size() && d.t.size() > 1 && !big(dl) && dl > -maxExact(64) && dh < maxExact(64)) {
                i128 g = d.c; for (auto& a : d.t) g = gcd(g, a.second);
                if (kind == 0 && d.t[0].second < 0) g = -g;
                for (auto& a : d.t) a.second /= g; d.c /= g;
                // balance: positive part against negative part
                Lin P, N; if (d.c > 0) P.c = d.c; else N.c = -d.c;
                for (auto& a : d.t) if (a.second > 0) P.t.push_back(a); else N.t.push_back({a.first, -a.second});
                Term* p = mkLin(P, 0, 64); Term* q = mkLin(N, 0, 64);
                i128 pl, ph, ql, qh;
                int s2 = std::min(p->imm, q->imm); if (p->slo == 0 && p->shi == 0) s2 = q->imm; else if (q->slo == 0 && q->shi == 0) s2 = p->imm;
                if (alignOk(p, s2, pl, ph) && alignOk(q, s2, ql, qh)) {
                    int w = std::max(bitsFor((i64)pl, (i64)ph), bitsFor((i64)ql, (i64)qh));
                    Term* a = alignN(p, s2, w); Term* b = alignN(q, s2, w);
                    return kind == 0 ? mkEq(a, b) : kind == 1 ? mkSle(a, b) : mkSlt(a, b);
                }
            }
            int w = std::max(bitsFor((i64)xl, (i64)xh), bitsFor((i64)yl, (i64)yh));
            Term* a = alignN(x, s, w); Term* b = alignN(y, s, w);
            return kind == 0 ? mkEq(a, b) : kind == 1 ? mkSle(a, b) : mkSlt(a, b);
    }
    // compare n*2^s with constant v using exact integer thresholds; swapped: const OP x
    Term* cmpConst(Term* x, double v, int kind, bool swapped) {
        long double q = ldexpl((long double)v, -x->imm);       // compare n with q
        long double fl = floorl(q);
        bool integral = fl == q;
        auto K = [&](long double k, bool le) -> Term* {       // n <= k  (le) or n >= k
            if (k >= (long double)x->shi) { if (le) return T1; if (k > (long double)x->shi) return T0; }
            if (k <= (long double)x->slo) { if (!le) return T1; if (k < (long double)x->slo) return T0; }
            int w = x->a->w; Term* c = konst((u128)(i128)(i64)k, std::max(w, bitsFor((i64)k, (i64)k)));
            Term* n = sext(x->a, c->w);
            return le ? mkSle(n, c) : mkSle(c, n);
        };
        if (kind == 0) { if (!integral) return T0; return mkAnd(K(q, true), K(q, false)); }
        if (!swapped) return kind == 1 ? K(fl, true) : K(integral ? q - 1 : fl, true);
        return kind == 1 ? K(ceill(q), false) : K(integral ? q + 1 : ceill(q), false);
    }
    Term* fromUint(Term* x, int fw) {
        if (x->op == T_ITE && x->leaves) return ite(x->a, fromUint(x->b, fw), fromUint(x->d, fw));
        if (x->hi > (u128)maxExact(fw)) return fromBits(fpop(4, x, nullptr, fw), fw);
        int w = bitsFor((i64)x->lo, (i64)x->hi);
        return fint(zext(x, std::max(w, 1)), 0, (i64)x->lo, (i64)x->hi, fw);
    }
    Term* fromSint(Term* x, int fw) {
        if (x->op == T_ITE && x->leaves) return ite(x->a, fromSint(x->b, fw), fromSint(x->d, fw));
        i128 l, h;
        if (!sint(x, l, h)) {
            // the narrow part of a sign extension is enough
            if (x->op == T_SEXT && x->a->w <= 54) { l = -((i128)1 << (x->a->w - 1)); h = ((i128)1 << (x->a->w - 1)) - 1; return fint(x->a, 0, (i64)l, (i64)h, fw); }
            if (x->w <= 32 && fw == 64) { l = -((i128)1 << (x->w - 1)); h = ((i128)1 << (x->w - 1)) - 1; }
            else return fromBits(fpop(5, x, nullptr, fw), fw);
        }
        if (h > maxExact(fw) || l < -maxExact(fw)) return fromBits(fpop(5, x, nullptr, fw), fw);
        int w = bitsFor((i64)l, (i64)h);
        return fint(sext(x, std::max(w, 1)), 0, (i64)l, (i64)h, fw);
    }
    // truncating conversion to integer of width w; returns nullptr-safe; negative allowed if isSigned
    Term* toInt(Term* x, int w, bool isSigned) {
        if (x->op == F_ITE) return ite(x->a, toInt(x->b, w, isSigned), toInt(x->d, w, isSigned));
        if (x->op != F_INT) throw Unsupported("conversion of unrestricted float to integer");
        if (fIsConst(x)) return konst((u128)(i128)truncl(ldexpl((long double)x->slo, x->imm)), w);
        if (x->imm < 0) {
            int k = -x->imm;
            int ww = std::max<int>(x->a->w + 1, 2);
            Term* n = sext(x->a, ww);
            Term* neg = mkSlt(n, konst(0, ww));
            Term* mag = ite(neg, mkNeg(n), n);
            Term* q = k >= ww ? konst(0, ww) : mkLshr(mag, konst(k, ww));
            Term* r = ite(neg, mkNeg(q), q);
            return r->w >= w ? extract(r, 0, w) : sext(r, w);
        }
        Term* n = x->a->w >= w ? extract(x->a, 0, w) : sext(x->a, w);
        return x->imm ? mkMul(n, konst((u128)1 << x->imm, w)) : n;
    }
    Term* fresize(Term* x, int fw) {
        if (x->fw == fw) return x;
        if (x->op == F_ITE) return ite(x->a, fresize(x->b, fw), fresize(x->d, fw));
        if (fIsConst(x)) return fconst(fw == 32 ? (double)(float)fconstVal(x) : fconstVal(x), fw);
        if (x->op == F_INT && x->slo >= -maxExact(fw) && x->shi <= maxExact(fw)) return fint(x->a, x->imm, x->slo, x->shi, fw);
        return fromBits(fpop(6, fbits(x), nullptr, fw), fw);
    }

    // ---- evaluation under a model
    u128 evalBV(Term* t, const std::vector<u128>& m, std::unordered_map<Term*, u128>& memo) {
        // iterative post-order
        std::vector<Term*> st{t};
        while (!st.empty()) {
            Term* x = st.back();
            if (memo.count(x)) { st.pop_back(); continue; }
            bool ready = true;
            for (Term* k : {x->a, x->b, x->d})
                if (k && !memo.count(k)) { st.push_back(k); ready = false; }
            if (!ready) continue;
            st.pop_back();
            u128 A = x->a ? memo[x->a] : 0, B = x->b ? memo[x->b] : 0, D = x->d ? memo[x->d] : 0, r = 0;
            int w = x->w; u128 M = mask(w);
            int aw = x->a ? x->a->w : 0;
            switch (x->op) {
            case T_CONST: r = x->c; break;
            case T_VAR: r = m[x->imm]; break;
            case T_NOT: r = ~A & M; break;
            case T_AND: r = A & B; break;
            case T_OR: r = A | B; break;
            case T_XOR: r = A ^ B; break;
            case T_ADD: r = (A + B) & M; break;
            case T_MUL: r = (A * B) & M; break;
            case T_UDIV: r = B ? A / B : M; break;
            case T_UREM: r = B ? A % B : A; break;
            case T_SDIV: { i128 a = sx(A, w), b = sx(B, w); r = b == 0 ? (a < 0 ? 1 : M) : b == -1 ? (u128)(-a) & M : (u128)(a / b) & M; break; }
            case T_SREM: { i128 a = sx(A, w), b = sx(B, w); r = b == 0 ? A : b == -1 ? 0 : (u128)(a % b) & M; break; }
            case T_SHL: r = B >= (u128)w ? 0 : (A << (int)B) & M; break;
            case T_LSHR: r = B >= (u128)w ? 0 : A >> (int)B; break;
            case T_ASHR: r = (u128)(sx(A, w) >> (int)(B >= (u128)w ? w - 1 : B)) & M; break;
            case T_CONCAT: r = (A << x->b->w) | B; break;
            case T_EXTRACT: r = (A >> x->imm) & M; break;
            case T_ZEXT: r = A; break;
            case T_SEXT: r = (u128)sx(A, aw) & M; break;
            case T_EQ: r = A == B; break;
            case T_ULT: r = A < B; break;
            case T_ULE: r = A <= B; break;
            case T_SLT: r = sx(A, aw) < sx(B, aw); break;
            case T_SLE: r = sx(A, aw) <= sx(B, aw); break;
            case T_ITE: r = A ? B : D; break;
            case T_FP: r = fpEval(x->imm, A, B, aw, w); break;
            case F_INT: { double v = ldexp((double)(i64)sx(A, aw), x->imm); u64 b; memcpy(&b, &v, 8); r = b; break; }
            case F_SPEC: r = x->c; break;
            case F_RAW: r = A; if (x->fw == 32) { uint32_t q = (uint32_t)A; float f; memcpy(&f, &q, 4); double v = f; u64 b; memcpy(&b, &v, 8); r = b; } break;
            case F_ITE: r = A ? B : D; break;
            }
            memo[x] = r;
        }
        return memo[t];
    }
};
