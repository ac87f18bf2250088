// Z3 back end: slicing, caching, model reuse.
#pragma once
#include "expr.hpp"
#include <algorithm>
#include <chrono>
#include <map>
#include <z3.h>

struct SolverStats { u64 queries = 0, z3calls = 0, sat = 0, unsat = 0, cacheHits = 0, modelHits = 0, fastHits = 0; double z3time = 0, z3max = 0; };

struct Solver {
    Z3_context ctx; Z3_solver s;
    SolverStats st;
    std::string dumpDir; u64 dumpEvery = 0, dumped = 0; // cross-check corpus for a second solver
    u64 dumpMax = 0;
    struct Res { int sat; std::vector<std::pair<u32, u64>> model; };
    struct KeyH { size_t operator()(const std::vector<u32>& k) const { size_t h = 7; for (u32 x : k) h = (h ^ x) * 0x9e3779b97f4a7c15ull, h ^= h >> 32; return h; } };
    std::unordered_map<std::vector<u32>, Res, KeyH> cache;
    std::deque<Model> ring;

    Solver() {
        Z3_config cfg = Z3_mk_config();
        ctx = Z3_mk_context(cfg);
        s = Z3_mk_simple_solver(ctx);
        Z3_solver_inc_ref(ctx, s);
        Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
        Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), 400000000); // not "timeout": that starts a thread per check
        Z3_solver_set_params(ctx, s, p);
        Z3_params_dec_ref(ctx, p);
    }
    Z3_sort bv(int w) { static std::map<int, Z3_sort> m; auto& r = m[w]; if (!r) { r = Z3_mk_bv_sort(ctx, w); Z3_inc_ref(ctx, (Z3_ast) r); } return r; }
    Z3_ast keep(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
    Z3_ast toBool(E e) {
        assert(e->width == 1);
        if (e->zb) return (Z3_ast) e->zb;
        Z3_ast r;
        switch (e->op) {
        case O_CONST: r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
        case O_EQ: if (e->k[0]->width == 1) r = Z3_mk_iff(ctx, toBool(e->k[0]), toBool(e->k[1])); else r = Z3_mk_eq(ctx, toBV(e->k[0]), toBV(e->k[1])); break;
        case O_ULT: r = Z3_mk_bvult(ctx, toBV(e->k[0]), toBV(e->k[1])); break;
        case O_ULE: r = Z3_mk_bvule(ctx, toBV(e->k[0]), toBV(e->k[1])); break;
        case O_SLT: r = Z3_mk_bvslt(ctx, toBV(e->k[0]), toBV(e->k[1])); break;
        case O_SLE: r = Z3_mk_bvsle(ctx, toBV(e->k[0]), toBV(e->k[1])); break;
        case O_NOT: r = Z3_mk_not(ctx, toBool(e->k[0])); break;
        case O_AND: { Z3_ast a[2] = {toBool(e->k[0]), toBool(e->k[1])}; r = Z3_mk_and(ctx, 2, a); break; }
        case O_OR: { Z3_ast a[2] = {toBool(e->k[0]), toBool(e->k[1])}; r = Z3_mk_or(ctx, 2, a); break; }
        case O_XOR: r = Z3_mk_xor(ctx, toBool(e->k[0]), toBool(e->k[1])); break;
        case O_ITE: r = Z3_mk_ite(ctx, toBool(e->k[0]), toBool(e->k[1]), toBool(e->k[2])); break;
        default: r = Z3_mk_eq(ctx, toBV(e), Z3_mk_unsigned_int64(ctx, 1, bv(1)));
        }
        e->zb = keep(r);
        return r;
    }
    Z3_ast toBV(E e) {
        if (e->z) return (Z3_ast) e->z;
        Z3_ast r;
        auto A = [&] { return toBV(e->k[0]); };
        auto B = [&] { return toBV(e->k[1]); };
        if (e->width == 1 && e->op != O_CONST && e->op != O_VAR && e->op != O_EXTRACT) {
            r = Z3_mk_ite(ctx, toBool(e), Z3_mk_unsigned_int64(ctx, 1, bv(1)), Z3_mk_unsigned_int64(ctx, 0, bv(1)));
        } else switch (e->op) {
        case O_CONST:
            if (e->width <= 64) r = Z3_mk_unsigned_int64(ctx, e->c, bv(e->width));
            else r = Z3_mk_concat(ctx, Z3_mk_unsigned_int64(ctx, e->c2, bv(e->width - 64)), Z3_mk_unsigned_int64(ctx, e->c, bv(64)));
            break;
        case O_VAR: { std::string n = "v" + std::to_string(e->c) + "_" + std::to_string(e->width); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), bv(e->width)); break; }
        case O_ADD: r = Z3_mk_bvadd(ctx, A(), B()); break;
        case O_SUB: r = Z3_mk_bvsub(ctx, A(), B()); break;
        case O_MUL: r = Z3_mk_bvmul(ctx, A(), B()); break;
        case O_UDIV: r = Z3_mk_bvudiv(ctx, A(), B()); break;
        case O_SDIV: r = Z3_mk_bvsdiv(ctx, A(), B()); break;
        case O_UREM: r = Z3_mk_bvurem(ctx, A(), B()); break;
        case O_SREM: r = Z3_mk_bvsrem(ctx, A(), B()); break;
        case O_AND: r = Z3_mk_bvand(ctx, A(), B()); break;
        case O_OR: r = Z3_mk_bvor(ctx, A(), B()); break;
        case O_XOR: r = Z3_mk_bvxor(ctx, A(), B()); break;
        case O_SHL: r = Z3_mk_bvshl(ctx, A(), B()); break;
        case O_LSHR: r = Z3_mk_bvlshr(ctx, A(), B()); break;
        case O_ASHR: r = Z3_mk_bvashr(ctx, A(), B()); break;
        case O_ITE: r = Z3_mk_ite(ctx, toBool(e->k[0]), toBV(e->k[1]), toBV(e->k[2])); break;
        case O_ZEXT: r = Z3_mk_zero_ext(ctx, e->width - e->k[0]->width, A()); break;
        case O_SEXT: r = Z3_mk_sign_ext(ctx, e->width - e->k[0]->width, A()); break;
        case O_EXTRACT: r = Z3_mk_extract(ctx, e->c + e->width - 1, e->c, A()); break;
        case O_CONCAT: r = Z3_mk_concat(ctx, A(), B()); break;
        default: fprintf(stderr, "toBV op %d\n", e->op); abort();
        }
        e->z = keep(r);
        return r;
    }
    // 1 sat, 0 unsat, -1 unknown.  base: model satisfying cs (used for the untouched variables).
    int check(const std::vector<E>& cs, E cond, const Model& base, Model* out) {
        st.queries++;
        if (cond->isConst()) { st.fastHits++; if (cond->c && out) *out = base; return cond->c ? 1 : 0; }
        E nc = eNot(cond);
        for (E c : cs) { if (c == cond) { st.fastHits++; if (out) *out = base; return 1; } if (c == nc) { st.fastHits++; return 0; } }
        // slice
        std::vector<E> sl; VarSet vs = varsOf(cond);
        std::vector<char> used(cs.size(), 0);
        for (bool ch = true; ch;) { ch = false;
            for (size_t i = 0; i < cs.size(); i++) if (!used[i]) { auto& v = varsOf(cs[i]); if ((v & vs).any()) { used[i] = 1; ch = ch || ((v & ~vs).any()); vs |= v; sl.push_back(cs[i]); } } }
        std::vector<u32> key; for (E e : sl) key.push_back(e->id);
        std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
        key.push_back(cond->id);
        auto it = cache.find(key);
        if (it != cache.end()) {
            st.cacheHits++;
            if (it->second.sat == 1 && out) { *out = base; for (auto& p : it->second.model) out->set(p.first, p.second); }
            return it->second.sat;
        }
        Res r;
        for (auto& m : ring) {
            Evaluator ev(m);
            if (!ev.ev(cond)) continue;
            bool ok = true; for (E e : sl) if (!ev.ev(e)) { ok = false; break; }
            if (ok) { r.sat = 1; for (size_t i = 0; i < MAXVARS; i++) if (vs[i]) r.model.push_back({i, m.get(i)}); st.modelHits++; goto done; }
        }
        {
            auto t0 = std::chrono::steady_clock::now();
            Z3_solver_push(ctx, s);
            for (E e : sl) Z3_solver_assert(ctx, s, toBool(e));
            Z3_solver_assert(ctx, s, toBool(cond));
            Z3_lbool b = Z3_solver_check(ctx, s);
            st.z3calls++;
            r.sat = b == Z3_L_TRUE ? 1 : b == Z3_L_FALSE ? 0 : -1;
            if (r.sat == 1) {
                st.sat++;
                Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
                // find the width of each variable by walking expressions
                std::unordered_map<u32, E> vars; std::vector<E> stk(sl); stk.push_back(cond); std::unordered_map<E, char> seen;
                while (!stk.empty()) { E e = stk.back(); stk.pop_back(); if (seen[e]++) continue; if (e->op == O_VAR) vars[e->c] = e; for (auto k : e->k) if (k) stk.push_back(k); }
                for (auto& v : vars) { Z3_ast o; u64 x = 0; if (Z3_model_eval(ctx, m, toBV(v.second), true, &o)) { Z3_inc_ref(ctx, o); Z3_get_numeral_uint64(ctx, o, &x); Z3_dec_ref(ctx, o); } r.model.push_back({v.first, x}); }
                Z3_model_dec_ref(ctx, m);
                Model mm = base; for (auto& p : r.model) mm.set(p.first, p.second);
                { Evaluator ev(mm); bool ok = ev.ev(cond); for (E e : sl) ok = ok && ev.ev(e); if (!ok) { fprintf(stderr, "lsym: solver model does not satisfy the query\n"); exit(3); } }
                ring.push_front(mm); if (ring.size() > 12) ring.pop_back();
            } else if (r.sat == 0) st.unsat++;
            if (dumpMax && st.z3calls % dumpEvery == 0 && dumped < dumpMax) {
                std::string fn = dumpDir + "/q" + std::to_string(getpid()) + "_" + std::to_string(dumped++) + (r.sat == 1 ? ".sat" : r.sat == 0 ? ".unsat" : ".unk") + ".smt2";
                if (FILE* f = fopen(fn.c_str(), "w")) { fprintf(f, "(set-logic QF_BV)\n%s\n(check-sat)\n", Z3_solver_to_string(ctx, s)); fclose(f); }
            }
            Z3_solver_pop(ctx, s, 1);
            double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
            st.z3time += dt; if (dt > st.z3max) st.z3max = dt;
            if (dt > 0.5 && getenv("LSYM_SLOW")) fprintf(stderr, "slow query %.2f s, %zu constraints, result %d, pid %d\n", dt, sl.size(), r.sat, getpid());
        }
    done:
        if (r.sat == 1 && out) { *out = base; for (auto& p : r.model) out->set(p.first, p.second); }
        int sat = r.sat;
        if (sat >= 0) cache.emplace(std::move(key), std::move(r));
        return sat;
    }
};
