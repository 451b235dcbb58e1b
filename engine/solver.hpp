// Translation of terms to Z3 and one-shot satisfiability queries.
#pragma once
#include "term.hpp"
#include <chrono>
#include <fstream>
#include <z3.h>

class Solver {
public:
    TermMgr& tm;
    std::string backend = "z3", dumpDir;
    u64 queries = 0; double seconds = 0;
    std::string lastInfo;
    Solver(TermMgr& t) : tm(t) {}
    struct Ctx {
        Z3_context c; std::unordered_map<Term*, Z3_ast> memo; std::map<int, Z3_ast> vars; std::vector<Z3_ast> side; bool fp = false;
        Ctx() {
            Z3_config cfg = Z3_mk_config();
            c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, [](Z3_context c, Z3_error_code e) { throw std::runtime_error(std::string("z3: ") + Z3_get_error_msg(c, e)); });
        }
        ~Ctx() { Z3_del_context(c); }
        Z3_ast num(u128 v, int w) {
            Z3_sort s = Z3_mk_bv_sort(c, w);
            if (w <= 64) return Z3_mk_unsigned_int64(c, (u64)v, s);
            std::string d; if (!v) d = "0"; u128 x = v; while (x) { d += char('0' + (int)(x % 10)); x /= 10; }
            std::reverse(d.begin(), d.end());
            return Z3_mk_numeral(c, d.c_str(), s);
        }
    };
    // booleans are Z3 Bool, wider terms bit-vectors
    Z3_ast tr(Ctx& X, Term* root) {
        std::vector<Term*> st{root};
        Z3_context c = X.c;
        while (!st.empty()) {
            Term* t = st.back();
            if (X.memo.count(t)) { st.pop_back(); continue; }
            bool ready = true;
            for (Term* k : {t->a, t->b, t->d}) if (k && !X.memo.count(k)) { st.push_back(k); ready = false; }
            if (!ready) continue;
            st.pop_back();
            Z3_ast A = t->a ? X.memo[t->a] : 0, B = t->b ? X.memo[t->b] : 0, D = t->d ? X.memo[t->d] : 0, r;
            auto bv = [&](Term* k, Z3_ast x) { return k->w == 1 ? Z3_mk_ite(c, x, X.num(1, 1), X.num(0, 1)) : x; };
            auto bo = [&](Z3_ast x) { return Z3_mk_eq(c, x, X.num(1, 1)); };
            bool b1 = t->w == 1;
            // modular arithmetic is exact on the low bits: use only as many as the interval of the result needs
            if (!b1 && t->w > 8 && (t->op == T_ADD || t->op == T_MUL) && t->hi < TermMgr::mask(t->w)) {
                int k = 1; while (k < t->w && (t->hi >> k)) k++;
                if (k < t->w) {
                    Z3_ast p = Z3_mk_extract(c, k - 1, 0, A), q = Z3_mk_extract(c, k - 1, 0, B);
                    X.memo[t] = Z3_mk_zero_ext(c, t->w - k, t->op == T_ADD ? Z3_mk_bvadd(c, p, q) : Z3_mk_bvmul(c, p, q));
                    continue;
                }
            }
            switch (t->op) {
            case T_CONST: r = b1 ? (t->c ? Z3_mk_true(c) : Z3_mk_false(c)) : X.num(t->c, t->w); break;
            case T_VAR: {
                std::string n = "v" + std::to_string(t->imm);
                Z3_symbol s = Z3_mk_string_symbol(c, n.c_str());
                if (b1) r = Z3_mk_const(c, s, Z3_mk_bool_sort(c));
                else {
                    r = Z3_mk_const(c, s, Z3_mk_bv_sort(c, t->w));
                    if (t->lo > 0) X.side.push_back(Z3_mk_bvule(c, X.num(t->lo, t->w), r));
                    if (t->hi < TermMgr::mask(t->w)) X.side.push_back(Z3_mk_bvule(c, r, X.num(t->hi, t->w)));
                }
                X.vars[t->imm] = r; break;
            }
            case T_NOT: r = b1 ? Z3_mk_not(c, A) : Z3_mk_bvnot(c, A); break;
            case T_AND: { Z3_ast x[2] = {A, B}; r = b1 ? Z3_mk_and(c, 2, x) : Z3_mk_bvand(c, A, B); break; }
            case T_OR: { Z3_ast x[2] = {A, B}; r = b1 ? Z3_mk_or(c, 2, x) : Z3_mk_bvor(c, A, B); break; }
            case T_XOR: r = b1 ? Z3_mk_xor(c, A, B) : Z3_mk_bvxor(c, A, B); break;
            case T_ADD: r = b1 ? Z3_mk_xor(c, A, B) : Z3_mk_bvadd(c, A, B); break;
            case T_MUL: { Z3_ast x[2] = {A, B}; r = b1 ? Z3_mk_and(c, 2, x) : Z3_mk_bvmul(c, A, B); break; }
            case T_UDIV: r = Z3_mk_bvudiv(c, bv(t->a, A), bv(t->b, B)); if (b1) r = bo(r); break;
            case T_UREM: r = Z3_mk_bvurem(c, bv(t->a, A), bv(t->b, B)); if (b1) r = bo(r); break;
            case T_SDIV: r = Z3_mk_bvsdiv(c, bv(t->a, A), bv(t->b, B)); if (b1) r = bo(r); break;
            case T_SREM: r = Z3_mk_bvsrem(c, bv(t->a, A), bv(t->b, B)); if (b1) r = bo(r); break;
            case T_SHL: r = Z3_mk_bvshl(c, bv(t->a, A), bv(t->b, B)); if (b1) r = bo(r); break;
            case T_LSHR: r = Z3_mk_bvlshr(c, bv(t->a, A), bv(t->b, B)); if (b1) r = bo(r); break;
            case T_ASHR: r = Z3_mk_bvashr(c, bv(t->a, A), bv(t->b, B)); if (b1) r = bo(r); break;
            case T_CONCAT: r = Z3_mk_concat(c, bv(t->a, A), bv(t->b, B)); break;
            case T_EXTRACT: r = Z3_mk_extract(c, t->imm + t->w - 1, t->imm, bv(t->a, A)); if (b1) r = bo(r); break;
            case T_ZEXT: r = t->a->w == 1 ? Z3_mk_ite(c, A, X.num(1, t->w), X.num(0, t->w)) : Z3_mk_zero_ext(c, t->w - t->a->w, A); break;
            case T_SEXT: r = t->a->w == 1 ? Z3_mk_ite(c, A, X.num(TermMgr::mask(t->w), t->w), X.num(0, t->w)) : Z3_mk_sign_ext(c, t->w - t->a->w, A); break;
            case T_EQ: r = Z3_mk_eq(c, A, B); break;
            case T_ULT: r = Z3_mk_bvult(c, bv(t->a, A), bv(t->b, B)); break;
            case T_ULE: r = Z3_mk_bvule(c, bv(t->a, A), bv(t->b, B)); break;
            case T_SLT: r = Z3_mk_bvslt(c, bv(t->a, A), bv(t->b, B)); break;
            case T_SLE: r = Z3_mk_bvsle(c, bv(t->a, A), bv(t->b, B)); break;
            case T_ITE: r = Z3_mk_ite(c, A, B, D); break;
            case T_FP: {
                X.fp = true;
                auto so = [&](int w) { return w == 64 ? Z3_mk_fpa_sort_64(c) : Z3_mk_fpa_sort_32(c); };
                auto fl = [&](Z3_ast x, int w) { return Z3_mk_fpa_to_fp_bv(c, x, so(w)); };
                Z3_ast rm = Z3_mk_fpa_rne(c);
                switch (t->imm) {
                case 0: r = Z3_mk_fpa_add(c, rm, fl(A, t->w), fl(B, t->w)); break;
                case 1: r = Z3_mk_fpa_sub(c, rm, fl(A, t->w), fl(B, t->w)); break;
                case 2: r = Z3_mk_fpa_mul(c, rm, fl(A, t->w), fl(B, t->w)); break;
                case 3: r = Z3_mk_fpa_div(c, rm, fl(A, t->w), fl(B, t->w)); break;
                case 4: r = Z3_mk_fpa_to_fp_unsigned(c, rm, bv(t->a, A), so(t->w)); break;
                case 5: r = Z3_mk_fpa_to_fp_signed(c, rm, bv(t->a, A), so(t->w)); break;
                default: r = Z3_mk_fpa_to_fp_float(c, rm, fl(A, t->a->w), so(t->w)); break;
                }
                r = Z3_mk_fpa_to_ieee_bv(c, r);
                break;
            }
            default: throw Unsupported("floating-point value in a query");
            }
            X.memo[t] = r;
        }
        return X.memo[root];
    }
    // 1 sat, 0 unsat, -1 unknown
    int check(Term* f, double timeout, std::vector<u128>* model) {
        if (f->isConst()) {
            if (!f->c) return 0;
            if (model) { model->assign(tm.vars.size(), 0); for (size_t i = 0; i < tm.vars.size(); i++) (*model)[i] = tm.vars[i].lo; }
            return 1;
        }
        auto t0 = std::chrono::steady_clock::now();
        queries++;
        Ctx X;
        Z3_context c = X.c;
        Z3_ast q = tr(X, f);
        // range constraints of every variable are part of the query
        Z3_tactic tac = Z3_mk_tactic(c, X.fp ? "qffp" : "qfbv");
        Z3_solver s = Z3_mk_solver_from_tactic(c, tac);
        Z3_solver_inc_ref(c, s);
        Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p);
        Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), (unsigned)std::max(100.0, timeout * 1000));
        Z3_solver_set_params(c, s, p);
        Z3_solver_assert(c, s, q);
        for (Z3_ast a : X.side) Z3_solver_assert(c, s, a);
        if (!dumpDir.empty()) {
            std::ofstream of(dumpDir + "/q" + std::to_string(queries) + ".smt2");
            of << "(set-logic QF_BV)\n" << Z3_solver_to_string(c, s) << "(check-sat)\n";
        }
        Z3_lbool r = Z3_solver_check(c, s);
        int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
        if (res == 1 && model) {
            Z3_model m = Z3_solver_get_model(c, s);
            Z3_model_inc_ref(c, m);
            model->assign(tm.vars.size(), 0);
            for (size_t i = 0; i < tm.vars.size(); i++) (*model)[i] = tm.vars[i].lo;
            for (auto& v : X.vars) {
                Z3_ast o;
                if (!Z3_model_eval(c, m, v.second, true, &o)) continue;
                if (tm.vars[v.first].w == 1) (*model)[v.first] = Z3_get_bool_value(c, o) == Z3_L_TRUE;
                else {
                    std::string d = Z3_get_numeral_string(c, o);
                    u128 x = 0; for (char ch : d) x = x * 10 + (ch - '0');
                    (*model)[v.first] = x;
                }
            }
            Z3_model_dec_ref(c, m);
        }
        Z3_solver_dec_ref(c, s);
        seconds += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        return res;
    }
};
