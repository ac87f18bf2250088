//@ entry: equality reach=done,equal,different
//@ entry: equality_nested reach=done,equal,different
//@ entry: equality_template reach=done,equal,different
//@ entry: hashing reach=done,equal
//@ entry: introspection reach=done
//@ entry: many_members reach=done,equal,different
//@ bounds: nine structs of 0 to 6 members (ints of 1 to 64 bits, bools, pointers, other derived structs, a type whose equality ignores part of its representation, vectors of 0 to 2 elements), plain, nested in a class, nested in a class template and templated; every value of every member; a struct of 16 members
//@ outside: structs with more than 16 members; floating point members
#include "common.hpp"
#include <string>
#include <typeinfo>
#include <vector>
#include <lager/extra/derive.hpp>
#include <lager/extra/derive/eq.hpp>
#include <lager/extra/derive/hana.hpp>
#include <lager/extra/derive/hash.hpp>
#include <lager/extra/struct.hpp>
#include <boost/hana/at_key.hpp>
#include <boost/hana/for_each.hpp>
#include <boost/hana/keys.hpp>
#include <boost/hana/size.hpp>

namespace my {
// equality and hash that ignore a part of the representation
struct partial
{
    int v;
    int ignored = sym::any();
    partial(int x) : v(x) {}
    friend bool operator==(partial a, partial b) { return a.v == b.v; }
};
struct one
{
    int only;
};
struct six
{
    char a;
    int b;
    bool c;
    long long d;
    unsigned short e;
    int* f;
};
struct two_a
{
    one x;
    partial y;
};
struct with_vec
{
    std::vector<int> v;
    two_a t;
};
struct empty
{};
template <class A, class B>
struct tpl
{
    A a;
    B b;
    A c;
};
struct outer
{
    struct in
    {
        int a;
        short b;
        int c;
        LAGER_DERIVE_NESTED((EQ, HANA), in, a, b, c);
    };
    struct st
    {
        int p, q;
        LAGER_STRUCT_NESTED(st, p, q);
    };
};
template <class T>
struct touter
{
    struct in
    {
        T a;
        int b;
        LAGER_DERIVE_NESTED((EQ, HANA), in, a, b);
    };
};
template <class T>
struct stpl
{
    T x;
    int y;
};
struct st
{
    int m, n;
    bool k;
};
} // namespace my
namespace std {
template <>
struct hash<my::partial>
{
    size_t operator()(my::partial p) const { return p.v; }
};
} // namespace std
LAGER_DERIVE((EQ, HANA, HASH), my, one, only);
LAGER_DERIVE((EQ, HANA, HASH), my, six, a, b, c, d, e, f);
LAGER_DERIVE((EQ, HANA, HASH), my, two_a, x, y);
LAGER_DERIVE((EQ, HANA), my, with_vec, v, t);
LAGER_DERIVE((EQ, HANA), my, empty);
LAGER_DERIVE_TEMPLATE((EQ, HANA, HASH), my, (class A, class B), (tpl<A, B>), a, b, c);
LAGER_STRUCT_TEMPLATE(my, (class T), (stpl<T>), x, y);
LAGER_STRUCT(my, st, m, n, k);
namespace {
int objs[3];
int* any_ptr() { return &objs[sym::choice(2)]; }
my::six any_six() { return {sym::any<char>(), sym::any(), sym::any<bool>(), sym::any<long long>(), sym::any<unsigned short>(), any_ptr()}; }
my::two_a any_two() { return {{sym::any()}, {sym::any()}}; }
std::vector<int> any_vec()
{
    std::vector<int> v;
    for (unsigned n = sym::choice(3); n; --n)
        v.push_back(sym::any());
    return v;
}
// want is the conjunction over all the members
template <class T>
void chk(const T& a, const T& b, bool want)
{
    bool eq = a == b;
    CHECK(eq == want, "equality holds if and only if every member is equal");
    CHECK((a != b) == !eq, "inequality is the negation of equality");
    CHECK((b == a) == eq, "equality is symmetric");
    CHECK((a == a) & !(b != b), "equality is reflexive");
    sym::reach(eq ? "equal" : "different");
}
bool eq_two(const my::two_a& a, const my::two_a& b) { return (a.x.only == b.x.only) & (a.y.v == b.y.v); }
bool eq_six(const my::six& a, const my::six& b) { return (a.a == b.a) & (a.b == b.b) & (a.c == b.c) & (a.d == b.d) & (a.e == b.e) & (a.f == b.f); }
} // namespace
HARNESS(equality)
{
    switch (sym::choice(6)) {
    case 0: {
        my::one a{sym::any()}, b{sym::any()};
        chk(a, b, a.only == b.only);
        break;
    }
    case 1: {
        auto a = any_six(), b = any_six();
        chk(a, b, eq_six(a, b));
        break;
    }
    case 2: {
        auto a = any_two(), b = any_two();
        chk(a, b, eq_two(a, b));
        break;
    }
    case 3: {
        my::with_vec a{any_vec(), any_two()}, b{any_vec(), any_two()};
        bool v = a.v.size() == b.v.size();
        for (unsigned i = 0; v && i < a.v.size(); ++i)
            v &= a.v[i] == b.v[i];
        chk(a, b, v & eq_two(a.t, b.t));
        break;
    }
    case 4: {
        my::st a{sym::any(), sym::any(), sym::any<bool>()}, b{sym::any(), sym::any(), sym::any<bool>()};
        chk(a, b, (a.m == b.m) & (a.n == b.n) & (a.k == b.k));
        break;
    }
    default: {
        my::empty a, b;
        CHECK(a == b && !(a != b), "equality holds if and only if every member is equal");
    }
    }
    sym::reach("done");
}
HARNESS(equality_nested)
{
    switch (sym::choice(3)) {
    case 0: {
        my::outer::in a{sym::any(), sym::any<short>(), sym::any()}, b{sym::any(), sym::any<short>(), sym::any()};
        chk(a, b, (a.a == b.a) & (a.b == b.b) & (a.c == b.c));
        break;
    }
    case 1: {
        my::outer::st a{sym::any(), sym::any()}, b{sym::any(), sym::any()};
        chk(a, b, (a.p == b.p) & (a.q == b.q));
        break;
    }
    default: {
        my::touter<my::one>::in a{{sym::any()}, sym::any()}, b{{sym::any()}, sym::any()};
        chk(a, b, (a.a.only == b.a.only) & (a.b == b.b));
    }
    }
    sym::reach("done");
}
HARNESS(equality_template)
{
    if (sym::flip()) {
        using T = my::tpl<my::partial, long long>;
        T a{{sym::any()}, sym::any<long long>(), {sym::any()}}, b{{sym::any()}, sym::any<long long>(), {sym::any()}};
        chk(a, b, (a.a == b.a) & (a.b == b.b) & (a.c == b.c));
    } else {
        my::stpl<bool> a{sym::any<bool>(), sym::any()}, b{sym::any<bool>(), sym::any()};
        chk(a, b, (a.x == b.x) & (a.y == b.y));
    }
    sym::reach("done");
}
// makes a value in storage filled with other bytes
template <class T>
struct in_storage
{
    alignas(T) unsigned char raw[sizeof(T)];
    T* p;
    template <class... As>
    explicit in_storage(int fill, As... as)
    {
        for (auto& c : raw)
            c = (unsigned char) fill;
        p = new (raw) T{as...};
    }
};
template <class T, class... As>
void chk_hash(As... as)
{
    in_storage<T> a{0x11, as...}, b{0xee, as...};
    CHECK(*a.p == *b.p, "equality holds if and only if every member is equal");
    auto h = std::hash<T>{}(*a.p);
    CHECK(h == std::hash<T>{}(*b.p), "equal values have equal hashes");
    T c = *a.p;
    CHECK(h == std::hash<T>{}(c), "equal values have equal hashes");
    sym::reach("equal");
}
HARNESS(hashing)
{
    switch (sym::choice(4)) {
    case 0: chk_hash<my::one>(sym::any()); break;
    case 1: chk_hash<my::six>(sym::any<char>(), sym::any(), sym::any<bool>(), sym::any<long long>(), sym::any<unsigned short>(), any_ptr()); break;
    case 2: {
        // partial is constructed anew, with another ignored part
        int x = sym::any(), y = sym::any();
        my::two_a a{{x}, {y}}, b{{x}, {y}};
        CHECK(a == b, "equality holds if and only if every member is equal");
        CHECK(std::hash<my::two_a>{}(a) == std::hash<my::two_a>{}(b), "equal values have equal hashes");
        sym::reach("equal");
        break;
    }
    default: {
        using T     = my::tpl<my::partial, long long>;
        int x       = sym::any(), z = sym::any();
        long long y = sym::any<long long>();
        T a{{x}, y, {z}}, b{{x}, y, {z}};
        CHECK(a == b, "equality holds if and only if every member is equal");
        CHECK(std::hash<T>{}(a) == std::hash<T>{}(b), "equal values have equal hashes");
        sym::reach("equal");
    }
    }
    sym::reach("done");
}
namespace {
bool same(const char* a, const char* b)
{
    int i = 0;
    for (; a[i] && b[i]; ++i)
        if (a[i] != b[i])
            return false;
    return a[i] == b[i];
}
// visits x, expecting the names and addresses given
template <class T, int N>
void visit(T& x, const char* const (&names)[N], const void* const (&addrs)[N])
{
    int n = 0;
    boost::hana::for_each(boost::hana::accessors<std::decay_t<T>>(), [&](auto p) {
        CHECK(n < N && same(boost::hana::first(p).c_str(), names[n]), "introspection visits every member, in order, by name");
        CHECK((const void*) &boost::hana::second(p)(x) == addrs[n], "introspection gives the member of that name");
        ++n;
    });
    CHECK(n == N, "introspection visits every member exactly once");
    n = 0;
    boost::hana::for_each(boost::hana::keys(x), [&](auto k) {
        CHECK(same(k.c_str(), names[n]), "introspection visits every member, in order, by name");
        CHECK((const void*) &boost::hana::at_key(x, k) == addrs[n], "introspection gives the member of that name");
        ++n;
    });
    CHECK(n == N, "introspection visits every member exactly once");
    n = 0;
    boost::hana::for_each(x, [&](auto&& p) {
        CHECK(same(boost::hana::first(p).c_str(), names[n]), "introspection visits every member, in order, by name");
        CHECK(boost::hana::second(p) == *(const std::decay_t<decltype(boost::hana::second(p))>*) addrs[n], "introspection gives the value of that member");
        ++n;
    });
    CHECK(n == N, "introspection visits every member exactly once");
}
} // namespace
HARNESS(introspection)
{
    my::one o{sym::any()};
    visit(o, {"only"}, {&o.only});
    auto s = any_six();
    visit(s, {"a", "b", "c", "d", "e", "f"}, {&s.a, &s.b, &s.c, &s.d, &s.e, &s.f});
    const auto cs = s;
    visit(cs, {"a", "b", "c", "d", "e", "f"}, {&cs.a, &cs.b, &cs.c, &cs.d, &cs.e, &cs.f});
    auto t = any_two();
    visit(t, {"x", "y"}, {&t.x, &t.y});
    my::with_vec w{{sym::any()}, t};
    visit(w, {"v", "t"}, {&w.v, &w.t});
    my::tpl<my::partial, long long> p{{sym::any()}, sym::any<long long>(), {sym::any()}};
    visit(p, {"a", "b", "c"}, {&p.a, &p.b, &p.c});
    my::outer::in i{sym::any(), sym::any<short>(), sym::any()};
    visit(i, {"a", "b", "c"}, {&i.a, &i.b, &i.c});
    my::outer::st n{sym::any(), sym::any()};
    visit(n, {"p", "q"}, {&n.p, &n.q});
    my::touter<int>::in ti{sym::any(), sym::any()};
    visit(ti, {"a", "b"}, {&ti.a, &ti.b});
    my::stpl<bool> st{sym::any<bool>(), sym::any()};
    visit(st, {"x", "y"}, {&st.x, &st.y});
    my::st m{sym::any(), sym::any(), sym::any<bool>()};
    visit(m, {"m", "n", "k"}, {&m.m, &m.n, &m.k});
    static_assert(decltype(boost::hana::size(my::empty{}))::value == 0, "");
    sym::reach("done");
}
// many members
namespace my {
struct many
{
    int a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p;
};
} // namespace my
LAGER_DERIVE((EQ, HANA, HASH), my, many, a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p);
HARNESS(many_members)
{
    my::many x, y;
    int *px = &x.a, *py = &y.a;
    for (int i = 0; i < 16; ++i)
        px[i] = py[i] = sym::any();
    // one member may be another
    unsigned k = sym::choice(16);
    py[k]      = sym::any();
    bool eq    = px[k] == py[k];
    CHECK((x == y) == eq, "equal if and only if every member is");
    CHECK((x != y) == !eq, "inequality is the negation");
    sym::reach(eq ? "equal" : "different");
    if (eq)
        CHECK(std::hash<my::many>{}(x) == std::hash<my::many>{}(y), "equal values have equal hashes");
    int n = 0;
    boost::hana::for_each(boost::hana::accessors<my::many>(), [&](auto a) {
        CHECK(&boost::hana::second(a)(x) == px + n, "every member once, in order");
        const char* s = boost::hana::first(a).c_str();
        CHECK(s[0] == 'a' + n && !s[1], "with its own name");
        ++n;
    });
    CHECK(n == 16, "every member once, in order");
    sym::reach("done");
}
