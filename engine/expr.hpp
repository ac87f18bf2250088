// Hash-consed bit-vector expressions with local simplification.
#pragma once
#include <bitset>
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <string>
#include <unordered_map>
#include <vector>

typedef unsigned __int128 u128;
typedef uint64_t u64;
typedef uint32_t u32;

enum Op : uint8_t {
    O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
    O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR, O_EQ, O_ULT, O_ULE, O_SLT,
    O_SLE, O_ITE, O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT, O_NOT /* width 1 */
};

constexpr int MAXVARS = 1024;
typedef std::bitset<MAXVARS> VarSet;

struct Expr {
    Op op;
    uint16_t width;
    u32 id;
    const Expr* k[3];
    u64 c, c2; // const value / var index (c2 unused) / extract low bit
    mutable void* z = nullptr;      // Z3_ast (bv)
    mutable void* zb = nullptr;     // Z3_ast (bool), width 1 only
    mutable const VarSet* vs = nullptr;
    mutable u64 mEpoch = 0;         // evaluation memo
    mutable u64 mLo = 0, mHi = 0;
    bool isConst() const { return op == O_CONST; }
};
typedef const Expr* E;

inline u64 mask64(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline u128 mask128(int w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline int64_t sext64(u64 v, int w) { return w >= 64 ? (int64_t) v : (int64_t)(v << (64 - w)) >> (64 - w); }
inline __int128 sext128(u128 v, int w) { return w >= 128 ? (__int128) v : (__int128)(v << (128 - w)) >> (128 - w); }

struct ExprPool {
    struct H {
        size_t operator()(E e) const {
            size_t h = e->op * 0x9e3779b97f4a7c15ull + e->width;
            for (auto k : e->k) h = (h ^ (k ? k->id + 1 : 0)) * 0xff51afd7ed558ccdull, h ^= h >> 29;
            h ^= e->c * 0xc4ceb9fe1a85ec53ull; h ^= h >> 31; h ^= e->c2;
            return h;
        }
    };
    struct Q {
        bool operator()(E a, E b) const {
            return a->op == b->op && a->width == b->width && a->k[0] == b->k[0] && a->k[1] == b->k[1] &&
                   a->k[2] == b->k[2] && a->c == b->c && a->c2 == b->c2;
        }
    };
    std::vector<E> tab;
    size_t cnt = 0;
    std::deque<Expr> store;
    std::vector<std::string> varNames;
    ExprPool() { tab.resize(1 << 16, nullptr); }
    E intern(const Expr& p) {
        if (cnt * 2 > tab.size()) grow();
        size_t m = tab.size() - 1, i = H{}(&p) & m;
        while (tab[i]) { if (Q{}(tab[i], &p)) return tab[i]; i = (i + 1) & m; }
        store.push_back(p);
        Expr& e = store.back();
        e.id = store.size();
        tab[i] = &e; cnt++;
        return &e;
    }
    void grow() {
        std::vector<E> old; old.swap(tab); tab.resize(old.size() * 2, nullptr);
        size_t m = tab.size() - 1;
        for (E e : old) if (e) { size_t i = H{}(e) & m; while (tab[i]) i = (i + 1) & m; tab[i] = e; }
    }
};
extern ExprPool pool;

inline E mk(Op op, int w, E a = nullptr, E b = nullptr, E c = nullptr, u64 imm = 0, u64 imm2 = 0) {
    Expr p; p.op = op; p.width = w; p.id = 0; p.k[0] = a; p.k[1] = b; p.k[2] = c; p.c = imm; p.c2 = imm2;
    return pool.intern(p);
}
inline E eConst(u128 v, int w) { v &= mask128(w); return mk(O_CONST, w, 0, 0, 0, (u64) v, (u64)(v >> 64)); }
inline u128 cval(E e) { return ((u128) e->c2 << 64) | e->c; }
inline E eVar(int idx, int w) { return mk(O_VAR, w, 0, 0, 0, idx); }
inline bool isC(E e, u64 v) { return e->op == O_CONST && e->c == v && e->c2 == 0; }

inline u128 evalOp(Op op, int w, u128 a, u128 b, int kw) {
    switch (op) {
    case O_ADD: return (a + b) & mask128(w);
    case O_SUB: return (a - b) & mask128(w);
    case O_MUL: return (a * b) & mask128(w);
    case O_UDIV: return b ? a / b : mask128(w);
    case O_UREM: return b ? a % b : a;
    case O_SDIV: { __int128 x = sext128(a, w), y = sext128(b, w); if (!y) return x >= 0 ? mask128(w) : 1; if (y == -1) return ((u128) 0 - a) & mask128(w); return (u128)(x / y) & mask128(w); }
    case O_SREM: { __int128 x = sext128(a, w), y = sext128(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & mask128(w); }
    case O_AND: return a & b;
    case O_OR: return a | b;
    case O_XOR: return a ^ b;
    case O_SHL: return b >= (u128) w ? 0 : (a << (int) b) & mask128(w);
    case O_LSHR: return b >= (u128) w ? 0 : a >> (int) b;
    case O_ASHR: { __int128 x = sext128(a, w); int s = b >= (u128) w ? w - 1 : (int) b; return (u128)(x >> s) & mask128(w); }
    case O_EQ: return a == b;
    case O_ULT: return a < b;
    case O_ULE: return a <= b;
    case O_SLT: return sext128(a, kw) < sext128(b, kw);
    case O_SLE: return sext128(a, kw) <= sext128(b, kw);
    default: abort();
    }
}

E eNot(E a); E eIte(E c, E a, E b); E eExtract(E a, int lo, int w); E eConcat(E hi, E lo);
E eZext(E a, int w); E eSext(E a, int w); E eBin(Op op, E a, E b);

inline E eTrue() { static E t = eConst(1, 1); return t; }
inline E eFalse() { static E t = eConst(0, 1); return t; }

inline E eNot(E a) {
    assert(a->width == 1);
    if (a->isConst()) return a->c ? eFalse() : eTrue();
    if (a->op == O_NOT) return a->k[0];
    if (a->op == O_ULT) return eBin(O_ULE, a->k[1], a->k[0]);
    if (a->op == O_ULE) return eBin(O_ULT, a->k[1], a->k[0]);
    if (a->op == O_SLT) return eBin(O_SLE, a->k[1], a->k[0]);
    if (a->op == O_SLE) return eBin(O_SLT, a->k[1], a->k[0]);
    return mk(O_NOT, 1, a);
}
// a value in the high part and one in the low part
inline E eJoin(E a, E b) {
    if (a->op != O_CONCAT) std::swap(a, b);
    if (a->op != O_CONCAT || !isC(a->k[1], 0)) return nullptr;
    int t = a->k[1]->width;
    if (b->isConst() && !(cval(b) & ~mask128(t))) return eConcat(a->k[0], eConst(cval(b), t));
    if (b->op == O_ZEXT && b->k[0]->width <= t) return eConcat(a->k[0], b->k[0]->width == t ? b->k[0] : eZext(b->k[0], t));
    return nullptr;
}
inline E eBin(Op op, E a, E b) {
    int kw = a->width;
    bool cmp = op >= O_EQ && op <= O_SLE;
    int w = cmp ? 1 : kw;
    assert(a->width == b->width);
    if (a->isConst() && b->isConst()) return eConst(evalOp(op, w, cval(a), cval(b), kw), w);
    switch (op) {
    case O_ADD: case O_MUL: case O_AND: case O_OR: case O_XOR: case O_EQ:
        if (a->isConst() || (!b->isConst() && a->id > b->id)) std::swap(a, b); // const on the right
        break;
    default: break;
    }
    bool bc = b->isConst();
    switch (op) {
    case O_ADD:
        if (isC(b, 0)) return a;
        if (bc && a->op == O_ADD && a->k[1]->isConst()) return eBin(O_ADD, a->k[0], eBin(O_ADD, a->k[1], b));
        if (w == 1) return eBin(O_XOR, a, b);
        if (bc && a->op == O_CONCAT && isC(a->k[1], 0) && !(cval(b) & mask128(a->k[1]->width)))
            return eConcat(eBin(O_ADD, a->k[0], eConst(cval(b) >> a->k[1]->width, a->k[0]->width)), a->k[1]);
        if (E r = eJoin(a, b)) return r;
        break;
    case O_SUB:
        if (isC(b, 0)) return a;
        if (a == b) return eConst(0, w);
        if (bc) return eBin(O_ADD, a, eConst((u128) 0 - cval(b), w));
        break;
    case O_MUL:
        if (isC(b, 0)) return b;
        if (isC(b, 1)) return a;
        break;
    case O_AND:
        if (isC(b, 0)) return b;
        if (bc && cval(b) == mask128(w)) return a;
        if (a == b) return a;
        if (w == 1 && (a == eNot(b))) return eFalse();
        if (bc && a->op == O_ZEXT && (cval(b) & mask128(a->k[0]->width)) == mask128(a->k[0]->width)) return a;
        if (bc && w > 1) { // and with low mask -> zext(extract)
            u128 m = cval(b);
            if ((m & (m + 1)) == 0) { int n = 0; while (m) { n++; m >>= 1; } return eZext(eExtract(a, 0, n), w); }
            u128 h = ~m & mask128(w);
            if ((h & (h + 1)) == 0) { int n = 0; while (h) { n++; h >>= 1; } return eConcat(eExtract(a, n, w - n), eConst(0, n)); } // high mask
        }
        break;
    case O_OR:
        if (isC(b, 0)) return a;
        if (E r = eJoin(a, b)) return r;
        if (bc && cval(b) == mask128(w)) return b;
        if (a == b) return a;
        if (w == 1 && (a == eNot(b))) return eTrue();
        break;
    case O_XOR:
        if (isC(b, 0)) return a;
        if (a == b) return eConst(0, w);
        if (w == 1 && isC(b, 1)) return eNot(a);
        if (bc && a->op == O_XOR && a->k[1]->isConst()) return eBin(O_XOR, a->k[0], eBin(O_XOR, a->k[1], b));
        break;
    case O_SHL: case O_LSHR: case O_ASHR:
        if (isC(b, 0)) return a;
        if (op == O_LSHR && bc && cval(b) < (u128) w) return eZext(eExtract(a, b->c, w - b->c), w);
        if (op == O_SHL && bc && cval(b) < (u128) w) return eConcat(eExtract(a, 0, w - b->c), eConst(0, b->c));
        if (bc && cval(b) >= (u128) w && op != O_ASHR) return eConst(0, w);
        break;
    case O_EQ:
        if (a == b) return eTrue();
        if (kw == 1 && bc) return b->c ? a : eNot(a);
        if (bc) {
            if (a->op == O_ZEXT) {
                int iw = a->k[0]->width;
                if (cval(b) & ~mask128(iw)) return eFalse();
                return eBin(O_EQ, a->k[0], eConst(cval(b), iw));
            }
            if (a->op == O_SEXT) {
                int iw = a->k[0]->width;
                u128 lo = cval(b) & mask128(iw);
                if (((u128) sext128(lo, iw) & mask128(kw)) != cval(b)) return eFalse();
                return eBin(O_EQ, a->k[0], eConst(lo, iw));
            }
            if (a->op == O_ADD && a->k[1]->isConst()) return eBin(O_EQ, a->k[0], eBin(O_SUB, b, a->k[1]));
            if (a->op == O_XOR && a->k[1]->isConst()) return eBin(O_EQ, a->k[0], eBin(O_XOR, b, a->k[1]));
            if (a->op == O_ITE && a->k[1]->isConst() && a->k[2]->isConst()) {
                bool x = cval(a->k[1]) == cval(b), y = cval(a->k[2]) == cval(b);
                if (x && y) return eTrue();
                if (x) return a->k[0];
                if (y) return eNot(a->k[0]);
                return eFalse();
            }
            if (a->op == O_CONCAT) {
                int lw = a->k[1]->width;
                return eBin(O_AND, eBin(O_EQ, a->k[0], eConst(cval(b) >> lw, kw - lw)),
                            eBin(O_EQ, a->k[1], eConst(cval(b), lw)));
            }
        }
        if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->width == b->k[0]->width) return eBin(O_EQ, a->k[0], b->k[0]);
        if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->width == b->k[0]->width) return eBin(O_EQ, a->k[0], b->k[0]);
        if (a->op == O_CONCAT && b->op == O_CONCAT && a->k[1]->width == b->k[1]->width)
            return eBin(O_AND, eBin(O_EQ, a->k[0], b->k[0]), eBin(O_EQ, a->k[1], b->k[1]));
        break;
    case O_ULT:
        if (a == b) return eFalse();
        if (isC(b, 0)) return eFalse();
        if (isC(b, 1)) return eBin(O_EQ, a, eConst(0, kw));
        if (a->isConst() && cval(a) == mask128(kw)) return eFalse();
        if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->width == b->k[0]->width) return eBin(op, a->k[0], b->k[0]);
        if (a->op == O_ZEXT && bc) { int iw = a->k[0]->width; if (cval(b) > mask128(iw)) return eTrue(); return eBin(op, a->k[0], eConst(cval(b), iw)); }
        if (b->op == O_ZEXT && a->isConst()) { int iw = b->k[0]->width; if (cval(a) >= mask128(iw)) return eFalse(); return eBin(op, eConst(cval(a), iw), b->k[0]); }
        break;
    case O_ULE:
        if (a == b) return eTrue();
        if (isC(a, 0)) return eTrue();
        if (bc && cval(b) == mask128(kw)) return eTrue();
        if (isC(b, 0)) return eBin(O_EQ, a, b);
        if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->width == b->k[0]->width) return eBin(op, a->k[0], b->k[0]);
        if (a->op == O_ZEXT && bc) { int iw = a->k[0]->width; if (cval(b) >= mask128(iw)) return eTrue(); return eBin(op, a->k[0], eConst(cval(b), iw)); }
        if (b->op == O_ZEXT && a->isConst()) { int iw = b->k[0]->width; if (cval(a) > mask128(iw)) return eFalse(); return eBin(op, eConst(cval(a), iw), b->k[0]); }
        break;
    case O_SLT: if (a == b) return eFalse();
        if (a->op == O_ZEXT && bc && sext128(cval(b), kw) >= 0) return eBin(O_ULT, a, b);
        if (a->op == O_ZEXT && isC(b, 0)) return eFalse();
        break;
    case O_SLE: if (a == b) return eTrue(); break;
    case O_UDIV: if (isC(b, 1)) return a; break;
    default: break;
    }
    return mk(op, w, a, b);
}
inline E eIte(E c, E a, E b) {
    if (c->isConst()) return c->c ? a : b;
    if (a == b) return a;
    if (c->op == O_NOT) return eIte(c->k[0], b, a);
    if (a->width == 1) {
        if (a->isConst() && b->isConst()) return a->c ? c : eNot(c);
        if (a->isConst()) return a->c ? eBin(O_OR, c, b) : eBin(O_AND, eNot(c), b);
        if (b->isConst()) return b->c ? eBin(O_OR, eNot(c), a) : eBin(O_AND, c, a);
    }
    return mk(O_ITE, a->width, c, a, b);
}
inline E eExtract(E a, int lo, int w) {
    if (lo == 0 && w == a->width) return a;
    assert(lo + w <= a->width && w > 0);
    if (a->isConst()) return eConst(cval(a) >> lo, w);
    if (a->op == O_EXTRACT) return eExtract(a->k[0], a->c + lo, w);
    if (a->op == O_CONCAT) {
        int lw = a->k[1]->width;
        if (lo + w <= lw) return eExtract(a->k[1], lo, w);
        if (lo >= lw) return eExtract(a->k[0], lo - lw, w);
        return eConcat(eExtract(a->k[0], 0, lo + w - lw), eExtract(a->k[1], lo, lw - lo));
    }
    if (a->op == O_ZEXT || a->op == O_SEXT) {
        int iw = a->k[0]->width;
        if (lo + w <= iw) return eExtract(a->k[0], lo, w);
        if (a->op == O_ZEXT) {
            if (lo >= iw) return eConst(0, w);
            return eZext(eExtract(a->k[0], lo, iw - lo), w);
        }
        if (lo == 0) return eSext(a->k[0], w);
    }
    if (a->op == O_ITE && a->k[1]->isConst() && a->k[2]->isConst())
        return eIte(a->k[0], eExtract(a->k[1], lo, w), eExtract(a->k[2], lo, w));
    if (a->op == O_ADD && a->k[1]->isConst() && cval(a->k[1])) { // below the lowest bit of the constant nothing is carried
        int t = 0; while (!((cval(a->k[1]) >> t) & 1)) t++;
        if (lo + w <= t) return eExtract(a->k[0], lo, w);
        if (lo > 0 && lo <= t) return eBin(O_ADD, eExtract(a->k[0], lo, w), eConst(cval(a->k[1]) >> lo, w));
    }
    if ((lo == 0 && (a->op == O_ADD || a->op == O_SUB || a->op == O_MUL)) || a->op == O_AND || a->op == O_OR || a->op == O_XOR)
        return eBin(a->op, eExtract(a->k[0], lo, w), eExtract(a->k[1], lo, w));
    return mk(O_EXTRACT, w, a, nullptr, nullptr, lo);
}
inline E eConcat(E hi, E lo) {
    int w = hi->width + lo->width;
    if (hi->isConst() && lo->isConst()) return eConst((cval(hi) << lo->width) | cval(lo), w);
    if (hi->isConst() && cval(hi) == 0) return eZext(lo, w);
    if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->k[0] == lo->k[0] && hi->c == lo->c + lo->width)
        return eExtract(hi->k[0], lo->c, w);
    return mk(O_CONCAT, w, hi, lo);
}
inline E eZext(E a, int w) {
    if (w == a->width) return a;
    if (a->isConst()) return eConst(cval(a), w);
    if (a->op == O_ZEXT) return eZext(a->k[0], w);
    return mk(O_ZEXT, w, a);
}
inline E eSext(E a, int w) {
    if (w == a->width) return a;
    if (a->isConst()) return eConst((u128) sext128(cval(a), a->width), w);
    if (a->op == O_ZEXT) return eZext(a->k[0], w);
    if (a->op == O_SEXT) return eSext(a->k[0], w);
    return mk(O_SEXT, w, a);
}
inline const VarSet& varsOf(E e) {
    static const VarSet empty;
    if (e->vs) return *e->vs;
    if (e->op == O_CONST) return empty;
    VarSet s;
    if (e->op == O_VAR) { if (e->c >= MAXVARS) { fprintf(stderr, "lsym: too many symbolic variables\n"); exit(3); } s.set(e->c); }
    else {
        const VarSet* only = nullptr; int n = 0;
        for (auto k : e->k) if (k && k->op != O_CONST) { only = &varsOf(k); s |= *only; n++; }
        if (n == 1) { e->vs = only; return *only; }
        for (auto k : e->k) if (k && k->op != O_CONST && varsOf(k) == s) { e->vs = &varsOf(k); return *e->vs; }
    }
    e->vs = new VarSet(s);
    return *e->vs;
}

// A full assignment; unassigned variables read as 0.
struct Model { std::vector<u64> v; u64 get(size_t i) const { return i < v.size() ? v[i] : 0; } void set(size_t i, u64 x) { if (v.size() <= i) v.resize(i + 1, 0); v[i] = x; } };

struct Evaluator {
    static u64& epoch() { static u64 e = 0; return e; }
    const Model& m;
    u64 ep;
    Evaluator(const Model& m) : m(m), ep(++epoch()) {}
    u128 ev(E e) {
        if (e->op == O_CONST) return cval(e);
        if (e->op == O_VAR) return m.get(e->c) & mask64(e->width);
        if (e->mEpoch == ep) return ((u128) e->mHi << 64) | e->mLo;
        u128 r;
        switch (e->op) {
        case O_ITE: r = ev(e->k[0]) ? ev(e->k[1]) : ev(e->k[2]); break;
        case O_ZEXT: r = ev(e->k[0]); break;
        case O_SEXT: r = (u128) sext128(ev(e->k[0]), e->k[0]->width) & mask128(e->width); break;
        case O_EXTRACT: r = (ev(e->k[0]) >> e->c) & mask128(e->width); break;
        case O_CONCAT: r = (ev(e->k[0]) << e->k[1]->width) | ev(e->k[1]); break;
        case O_NOT: r = !ev(e->k[0]); break;
        default: r = evalOp(e->op, e->width, ev(e->k[0]), ev(e->k[1]), e->k[0]->width);
        }
        e->mEpoch = ep; e->mLo = (u64) r; e->mHi = (u64)(r >> 64);
        return r;
    }
};
