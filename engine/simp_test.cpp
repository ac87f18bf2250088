// Checks the simplifications of expr.hpp against the meaning of the operators:
// random expressions, evaluated as built and as simplified.
#include "expr.hpp"
#include <cstdio>
#include <random>
ExprPool pool;
int main(int argc, char** argv)
{
    long rounds = argc > 1 ? atol(argv[1]) : 20000;
    std::mt19937_64 g{1};
    constexpr int A = 4;
    long n = 0;
    auto nasty = [&]() -> u128 {
        switch (g() % 6) {
        case 0: return g() % 4;
        case 1: return (u128) 1 << (g() % 128);
        case 2: return ((u128) 1 << (g() % 128)) - 1;
        case 3: return ~(((u128) 1 << (g() % 128)) - 1);
        case 4: return ((u128) g() << 64) | g();
        default: return ~(u128) 0 - g() % 3;
        }
    };
    struct T { E e; u128 v[A]; };
    for (long r = 0; r < rounds; ++r) {
        Model m[A];
        std::vector<T> ts;
        for (int i = 0; i < 5; ++i) {
            static const int ws[] = {8, 8, 32, 64, 1};
            T t{eVar((int) (i), ws[i]), {}};
            for (int k = 0; k < A; ++k) {
                m[k].set(i, (u64) nasty());
                t.v[k] = m[k].get(i) & mask64(ws[i]);
            }
            ts.push_back(t);
        }
        auto pick = [&](int w) -> T {
            std::vector<int> c;
            for (size_t i = 0; i < ts.size(); ++i)
                if (ts[i].e->width == w) c.push_back(i);
            if (c.empty() || g() % 4 == 0) {
                u128 x = nasty() & mask128(w);
                return T{eConst(x, w), {x, x, x, x}};
            }
            return ts[c[g() % 2 ? c.size() - 1 : g() % c.size()]];
        };
        for (int step = 0; step < 14; ++step) {
            T t;
            T a = ts[g() % 2 ? ts.size() - 1 : g() % ts.size()];
            int w = a.e->width;
            switch (g() % 8) {
            case 0: case 1: case 2: {
                Op op = (Op) (O_ADD + g() % (O_SLE - O_ADD + 1));
                bool cmp = op >= O_EQ && op <= O_SLE;
                if (w == 1 && !(op == O_AND || op == O_OR || op == O_XOR || op == O_EQ || op == O_ADD)) op = O_AND, cmp = false;
                T b = pick(w);
                if (op == O_SHL || op == O_LSHR || op == O_ASHR) { // shifts are by 64 bit amounts at most
                    u128 s = g() % (w + 2);
                    s &= mask128(w);
                    if (g() % 4) b = T{eConst(s, w), {s, s, s, s}};
                }
                if (g() % 2) std::swap(a, b);
                t.e = eBin(op, a.e, b.e);
                for (int k = 0; k < A; ++k) t.v[k] = evalOp(op, cmp ? 1 : w, a.v[k], b.v[k], w);
                break;
            }
            case 3: {
                int lo = g() % w, n = 1 + g() % (w - lo);
                if (g() % 2 && w >= 8) lo &= ~7, n = std::min(8 << (g() % 4), w - lo);
                t.e = eExtract(a.e, lo, n);
                for (int k = 0; k < A; ++k) t.v[k] = (a.v[k] >> lo) & mask128(n);
                break;
            }
            case 4: {
                T b = ts[g() % ts.size()];
                if (g() % 4 == 0) { u128 z = g() % 2 ? 0 : nasty() & 255; b = T{eConst(z, 8), {z, z, z, z}}; }
                if (g() % 2) std::swap(a, b);
                if (a.e->width + b.e->width > 128) continue;
                t.e = eConcat(a.e, b.e);
                for (int k = 0; k < A; ++k) t.v[k] = (a.v[k] << b.e->width) | b.v[k];
                break;
            }
            case 5: {
                int nw = w + g() % (129 - w);
                if (g() % 2) nw = std::max(w, 8 << (int) (g() % 5));
                bool s = g() % 2;
                t.e = s ? eSext(a.e, nw) : eZext(a.e, nw);
                for (int k = 0; k < A; ++k) t.v[k] = s ? (u128) sext128(a.v[k], w) & mask128(nw) : a.v[k];
                break;
            }
            case 6: {
                T c = pick(1), b = pick(w);
                t.e = eIte(c.e, a.e, b.e);
                for (int k = 0; k < A; ++k) t.v[k] = c.v[k] ? a.v[k] : b.v[k];
                break;
            }
            default: {
                T c = pick(1);
                t.e = eNot(c.e);
                for (int k = 0; k < A; ++k) t.v[k] = !c.v[k];
            }
            }
            ++n;
            for (int k = 0; k < A; ++k) {
                Evaluator ev{m[k]};
                if (ev.ev(t.e) != t.v[k]) {
                    fprintf(stderr, "round %ld: the simplified expression (operator %d, width %d) has another value\n", r, (int) t.e->op, t.e->width);
                    fprintf(stderr, "round %ld: the simplified expression (operator %d, width %d) has another value\n", r, (int) t.e->op, t.e->width);
                    return 1;
                }
            }
            ts.push_back(t);
        }
    }
    printf("%ld expressions have the value of what they simplify\n", n);
}
