//@ entry: vector reach=done,empty_over_full
//@ entry: box_vector reach=done
//@ entry: flex_vector reach=done
//@ entry: array reach=done
//@ entry: map reach=done,overlap
//@ entry: id_map reach=done
//@ entry: set reach=done
//@ entry: wrappers reach=done
//@ entry: structs reach=done
//@ entry: nested reach=done
//@ entry: rejects reach=done,accepted,rejected
//@ entry: missing reach=done,present,absent
//@ entry: missing_elements reach=done
//@ entry: large reach=done
//@ bounds: containers of 0..3 (thorough: 4) elements loaded into targets that hold 0..2 others (vectors with a branching factor of 32 and of 4), maps and sets with keys 0..3 in any order and combination; boxes, tuples, variants, enums, derived structs, camel case and plain reflected structs and a nesting of them; arbitrary 32-bit contents; rejects: maps and sets saved with 0..3 keys out of 3 in any order with repetitions, and variants and enums with other names; missing: every subset of the members of a struct, and of those of each of up to 3 elements of a container, saved by name; cereal's own dispatch over an in-memory binary archive and an in-memory named (text) archive; vectors, flexible vectors and arrays of 31 to 34, 64, 65 and 140 elements, and maps and sets of 20 elements, loaded into targets that hold 0 or 40 others
//@ outside: larger containers; the JSON and XML text formats themselves (stream formatting is not encoded), so to_json/from_json beyond the calls they make
#include "common.hpp"
#include <cereal/cereal.hpp>
#include <cereal/types/string.hpp>
#include <cstring>
#include <string>

// archives that keep their bytes in memory
namespace mem {
struct bytes
{
    char d[1500];
    int n = 0, r = 0;
};
struct out : cereal::OutputArchive<out, cereal::AllowEmptyClassElision>
{
    bytes& b;
    out(bytes& x)
        : cereal::OutputArchive<out, cereal::AllowEmptyClassElision>(this)
        , b(x)
    {}
    void raw(const void* p, int n)
    {
        CHECK(b.n + n <= (int) sizeof b.d, "harness: archive full");
        std::memcpy(b.d + b.n, p, n);
        b.n += n;
    }
};
struct in : cereal::InputArchive<in, cereal::AllowEmptyClassElision>
{
    bytes& b;
    in(bytes& x)
        : cereal::InputArchive<in, cereal::AllowEmptyClassElision>(this)
        , b(x)
    {}
    void raw(void* p, int n)
    {
        CHECK(b.r + n <= b.n, "loading asks for no more than was saved");
        std::memcpy(p, b.d + b.r, n);
        b.r += n;
    }
};
// the same with the names of members
struct tout : cereal::OutputArchive<tout, cereal::AllowEmptyClassElision>, cereal::traits::TextArchive
{
    bytes& b;
    tout(bytes& x)
        : cereal::OutputArchive<tout, cereal::AllowEmptyClassElision>(this)
        , b(x)
    {}
    void raw(const void* p, int n)
    {
        CHECK(b.n + n <= (int) sizeof b.d, "harness: archive full");
        std::memcpy(b.d + b.n, p, n);
        b.n += n;
    }
    void name(const char* s) { raw(s, (int) std::strlen(s) + 1); }
};
struct tin : cereal::InputArchive<tin>, cereal::traits::TextArchive
{
    bytes& b;
    tin(bytes& x)
        : cereal::InputArchive<tin>(this)
        , b(x)
    {}
    void raw(void* p, int n)
    {
        CHECK(b.r + n <= b.n, "loading asks for no more than was saved");
        std::memcpy(p, b.d + b.r, n);
        b.r += n;
    }
    bool hasName(const char* s) const
    {
        int n = (int) std::strlen(s) + 1;
        return b.r + n <= b.n && !std::memcmp(b.d + b.r, s, n);
    }
    bool hasName(const std::string& s) const { return hasName(s.c_str()); }
    void name(const char* s)
    {
        CHECK(hasName(s), "members are loaded by the name under which they were saved");
        b.r += (int) std::strlen(s) + 1;
    }
};
#define ARCHIVE(OUT, IN)                                                                   \
    template <class T>                                                                     \
    std::enable_if_t<std::is_arithmetic<T>::value> CEREAL_SAVE_FUNCTION_NAME(OUT& ar, const T& t) { ar.raw(&t, sizeof t); } \
    template <class T>                                                                     \
    std::enable_if_t<std::is_arithmetic<T>::value> CEREAL_LOAD_FUNCTION_NAME(IN& ar, T& t) { ar.raw(&t, sizeof t); } \
    template <class Archive, class T>                                                           \
    CEREAL_ARCHIVE_RESTRICT(IN, OUT) CEREAL_SERIALIZE_FUNCTION_NAME(Archive& ar, cereal::SizeTag<T>& t) { ar(t.size); } \
    template <class T>                                                                     \
    void CEREAL_SAVE_FUNCTION_NAME(OUT& ar, const cereal::BinaryData<T>& d) { ar.raw(d.data, (int) d.size); } \
    template <class T>                                                                     \
    void CEREAL_LOAD_FUNCTION_NAME(IN& ar, cereal::BinaryData<T>& d) { ar.raw(d.data, (int) d.size); }
ARCHIVE(out, in)
ARCHIVE(tout, tin)
template <class Archive, class T>
CEREAL_ARCHIVE_RESTRICT(in, out)
CEREAL_SERIALIZE_FUNCTION_NAME(Archive& ar, cereal::NameValuePair<T>& t) { ar(t.value); }
template <class Archive, class T>
CEREAL_ARCHIVE_RESTRICT(tin, tout)
CEREAL_SERIALIZE_FUNCTION_NAME(Archive& ar, cereal::NameValuePair<T>& t)
{
    ar.name(t.name);
    ar(t.value);
}
template <class T>
void CEREAL_SAVE_FUNCTION_NAME(tout& ar, const std::basic_string<T>& s)
{
    int n = (int) s.size();
    ar.raw(&n, sizeof n);
    ar.raw(s.data(), n);
}
template <class T>
void CEREAL_LOAD_FUNCTION_NAME(tin& ar, std::basic_string<T>& s)
{
    int n = 0;
    ar.raw(&n, sizeof n);
    s.resize(n);
    ar.raw(&s[0], n);
}
} // namespace mem
CEREAL_SETUP_ARCHIVE_TRAITS(mem::in, mem::out)
CEREAL_SETUP_ARCHIVE_TRAITS(mem::tin, mem::tout)

#include <lager/extra/cereal/enum.hpp>
#include <lager/extra/cereal/immer_array.hpp>
#include <lager/extra/cereal/immer_box.hpp>
#include <lager/extra/cereal/immer_flex_vector.hpp>
#include <lager/extra/cereal/immer_map.hpp>
#include <lager/extra/cereal/immer_set.hpp>
#include <lager/extra/cereal/immer_vector.hpp>
#include <lager/extra/cereal/inline.hpp>
#include <lager/extra/cereal/struct.hpp>
#include <lager/extra/cereal/tuple.hpp>
#include <lager/extra/cereal/variant_with_name.hpp>
#include <lager/extra/derive.hpp>
#include <lager/extra/derive/cereal.hpp>
#include <lager/extra/enum.hpp>
#include <lager/extra/struct.hpp>

namespace ns {
struct item
{
    int id, x;
    friend bool operator==(const item& a, const item& b) { return (a.id == b.id) & (a.x == b.x); }
};
struct pt
{
    int x_pos;
    long long y2;
    friend bool operator==(const pt& a, const pt& b) { return (a.x_pos == b.x_pos) & (a.y2 == b.y2); }
};
struct none
{
    friend bool operator==(none, none) { return true; }
};
struct plain
{
    int the_a, b;
};
struct later
{
    int num = 0;
    int one = 11;
    int two = 22;
};
struct camel
{
    constexpr static bool serialize_camel_case = true;
    int the_first, THE_SECOND_1;
};
template <class A, class B>
struct two
{
    A a;
    B b;
    friend bool operator==(const two& x, const two& y) { return x.a == y.a && x.b == y.b; }
};
} // namespace ns
LAGER_DERIVE((CEREAL), ns, item, id, x);
LAGER_DERIVE((CEREAL), ns, pt, x_pos, y2);
LAGER_DERIVE((CEREAL), ns, none);
LAGER_DERIVE_TEMPLATE((CEREAL), ns, (class A, class B), (two<A, B>), a, b);
LAGER_STRUCT(ns, plain, the_a, b);
LAGER_STRUCT(ns, later, num, one, two);
LAGER_STRUCT(ns, camel, the_first, THE_SECOND_1);
namespace ns {
enum class color { red, green = 7, blue };
} // namespace ns
LAGER_ENUM(ns, color, red, green, blue);

namespace {
constexpr int N = TIER ? 4 : 3;
// saves x, and loads it into `y`
template <class Out, class In, class T>
void trip_as(const T& x, T& y)
{
    mem::bytes b;
    {
        Out ar{b};
        ar(x);
    }
    {
        In ar{b};
        ar(y);
    }
    CHECK(y == x, "loading what was saved gives an equal value");
    CHECK(b.r == b.n, "loading consumes what was saved");
}
template <class T>
void trip(const T& x, T y)
{
    if (sym::choice(2))
        trip_as<mem::out, mem::in>(x, y);
    else
        trip_as<mem::tout, mem::tin>(x, y);
    sym::reach("done");
}
template <class V, class F>
V some(int n, F f)
{
    V v;
    for (int i = 0; i < n; ++i)
        v = std::move(v).push_back(f());
    return v;
}
template <class V>
void sequence()
{
    auto any = [] { return typename V::value_type(sym::any()); };
    int n = sym::choice(N + 1), m = sym::choice(3);
    if (!n && m)
        sym::reach("empty_over_full");
    trip(some<V>(n, any), some<V>(m, any));
}
struct ident
{
    std::size_t operator()(int i) const { return i; }
};
} // namespace

HARNESS(vector)
{
    if (sym::choice(2))
        sequence<immer::vector<int>>();
    else
        sequence<immer::vector<int, immer::default_memory_policy, 1, 1>>();
}
HARNESS(box_vector) { sequence<immer::vector<immer::box<int>>>(); }
HARNESS(flex_vector)
{
    if (sym::choice(2))
        sequence<immer::flex_vector<int>>();
    else
        sequence<immer::flex_vector<int, immer::default_memory_policy, 1, 1>>();
}
HARNESS(array) { sequence<immer::array<int>>(); }
HARNESS(map)
{
    immer::map<int, int, ident> a, b;
    int ka = sym::choice(16), kb = sym::choice(16);
    for (int i = 0; i < 4; ++i) {
        if (ka >> i & 1)
            a = std::move(a).set(i * 33, sym::any());
        if (kb >> i & 1)
            b = std::move(b).set(i * 33, sym::any());
    }
    if (ka & kb)
        sym::reach("overlap");
    trip(a, b);
}
HARNESS(id_map)
{
    immer::map<int, ns::item, ident> a, b;
    int ka = sym::choice(16), kb = sym::choice(16);
    for (int i = 0; i < 4; ++i) {
        if (ka >> i & 1)
            a = std::move(a).set(i * 33, {i * 33, sym::any()});
        if (kb >> i & 1)
            b = std::move(b).set(i * 33, {i * 33, sym::any()});
    }
    trip(a, b);
}
HARNESS(set)
{
    immer::set<int, ident> a, b;
    int ka = sym::choice(16), kb = sym::choice(16);
    for (int i = 0; i < 4; ++i) {
        if (ka >> i & 1)
            a = std::move(a).insert(i * 33);
        if (kb >> i & 1)
            b = std::move(b).insert(i * 33);
    }
    trip(a, b);
}
namespace {
using var = std::variant<int, ns::pt, std::monostate, long>;
var any_variant()
{
    switch (sym::choice(4)) {
    case 0: return var{sym::any()};
    case 1: return var{ns::pt{sym::any(), sym::any<long long>()}};
    case 2: return var{std::monostate{}};
    default: return var{sym::any<long>()};
    }
}
ns::color any_color()
{
    switch (sym::choice(3)) {
    case 0: return ns::color::red;
    case 1: return ns::color::green;
    default: return ns::color::blue;
    }
}
} // namespace
HARNESS(wrappers)
{
    switch (sym::choice(4)) {
    case 0: trip(immer::box<int>{sym::any()}, immer::box<int>{sym::any()}); break;
    case 1: {
        using t = std::tuple<int, immer::box<int>, immer::vector<int>>;
        int n   = sym::choice(3);
        auto f  = [] { return sym::any(); };
        trip(t{sym::any(), sym::any(), some<immer::vector<int>>(n, f)}, t{sym::any(), sym::any(), some<immer::vector<int>>(1, f)});
        trip(std::tuple<>{}, std::tuple<>{});
        break;
    }
    case 2: trip(any_variant(), any_variant()); break;
    case 3: trip(any_color(), any_color()); break;
    }
}
HARNESS(structs)
{
    auto a = [] { return sym::any(); };
    switch (sym::choice(6)) {
    case 0: trip(ns::item{a(), a()}, ns::item{a(), a()}); break;
    case 1: trip(ns::pt{a(), sym::any<long long>()}, ns::pt{a(), a()}); break;
    case 2: trip(ns::none{}, ns::none{}); break;
    case 3: trip(ns::plain{a(), a()}, ns::plain{a(), a()}); break;
    case 4: trip(ns::camel{a(), a()}, ns::camel{a(), a()}); break;
    case 5: {
        using t = ns::two<int, ns::plain>;
        trip(t{a(), {a(), a()}}, t{a(), {a(), a()}});
        break;
    }
    }
}
HARNESS(nested)
{
    using rec  = ns::two<immer::vector<var>, ns::two<immer::map<int, ns::color, ident>, std::tuple<immer::set<int, ident>, ns::camel>>>;
    auto make  = [](int n) {
        rec r;
        for (int i = 0; i < n; ++i) {
            r.a   = r.a.push_back(any_variant());
            r.b.a = r.b.a.set(i, any_color());
            std::get<0>(r.b.b) = std::get<0>(r.b.b).insert(i + 1);
        }
        std::get<1>(r.b.b) = {sym::any(), sym::any()};
        return r;
    };
    int n = sym::choice(bound(2, 3));
    rec x = make(n);
    rec y;
    y.a                = y.a.push_back(var{7});
    y.b.a              = y.b.a.set(1, ns::color::red).set(2, ns::color::blue);
    std::get<0>(y.b.b) = std::get<0>(y.b.b).insert(2).insert(9);
    std::get<1>(y.b.b) = {1, 2};
    trip(x, y);
}

// data that no saved value has
namespace {
template <class T>
bool loads(mem::bytes& b, T& y)
{
    try {
        mem::in ar{b};
        ar(y);
        return true;
    } catch (const std::exception&) {
        return false;
    }
}
template <class T>
bool loads_text(mem::bytes& b, T& y)
{
    try {
        mem::tin ar{b};
        ar(y);
        return true;
    } catch (const std::exception&) {
        return false;
    }
}
} // namespace
HARNESS(rejects)
{
    int n = sym::choice(4), k[3] = {}, v[3] = {};
    bool repeated = false;
    for (int i = 0; i < n; ++i) {
        k[i] = 33 * sym::choice(3);
        v[i] = sym::any();
        for (int j = 0; j < i; ++j)
            repeated |= k[i] == k[j];
    }
    bool ok = false;
    mem::bytes b;
    mem::out ar{b};
    int what = sym::choice(5);
    if (what < 3)
        ar(cereal::make_size_tag((cereal::size_type) n));
    if (what == 0) {
        immer::map<int, int, ident> m;
        for (int i = 0; i < n; ++i)
            ar(k[i], v[i]);
        ok = loads(b, m);
        if (ok)
            for (int i = 0; i < n; ++i)
                CHECK(m.count(k[i]) && m[k[i]] == v[i], "every entry is loaded");
    } else if (what == 1) {
        immer::map<int, ns::item, ident> m;
        for (int i = 0; i < n; ++i)
            ar(k[i], v[i]);
        ok = loads(b, m);
    } else if (what == 2) {
        immer::set<int, ident> m;
        for (int i = 0; i < n; ++i)
            ar(k[i]);
        ok = loads(b, m);
    } else {
        // a name that none of the alternatives, or of the enumerators, has
        static const char* const names[] = {"red", "int", "", "re", "redd", "long int", "in", "long", "blue", "std::monostate"};
        int j = sym::choice(10);
        std::string name = names[j];
        mem::tout ar{b};
        if (what == 3) {
            ns::color c{};
            ar(name);
            ok       = loads_text(b, c);
            repeated = !(j == 0 || j == 8);
        } else {
            var y;
            ar(cereal::make_nvp("type", name));
            int x = sym::any();
            if (j == 9)
                ar(cereal::make_nvp("data", std::monostate{}));
            else
                ar(cereal::make_nvp("data", x), x, x);
            ok       = loads_text(b, y);
            repeated = !(j == 1 || j == 7 || j == 9);
        }
    }
    sym::reach(ok ? "accepted" : "rejected");
    CHECK(ok == !repeated, "keys listed twice and unknown names are rejected, and nothing else");
    sym::reach("done");
}
HARNESS(missing)
{
    mem::bytes b;
    mem::tout ar{b};
    int x = sym::any(), y = sym::any(), px = sym::any(), py = sym::any();
    int which = sym::choice(4);
    bool camel = sym::choice(2);
    if (which & 1)
        ar(cereal::make_nvp(camel ? "theFirst" : "the_a", x));
    if (which & 2)
        ar(cereal::make_nvp(camel ? "theSecond1" : "b", y));
    sym::reach(which ? "present" : "absent");
    mem::tin in{b};
    if (camel) {
        ns::camel c{px, py};
        in(c);
        CHECK((c.the_first == (which & 1 ? x : px)) & (c.THE_SECOND_1 == (which & 2 ? y : py)), "members present in the data are loaded, others keep their value");
    } else {
        ns::plain c{px, py};
        in(c);
        CHECK((c.the_a == (which & 1 ? x : px)) & (c.b == (which & 2 ? y : py)), "members present in the data are loaded, others keep their value");
    }
    CHECK(b.r == b.n, "all of the data is loaded");
    sym::reach("done");
}
// members that are missing from some of the elements of a container
template <class C>
void missing_in()
{
    constexpr bool map = std::is_same_v<C, immer::map<int, ns::later>>;
    mem::bytes b;
    mem::tout ar{b};
    int n = sym::choice(4), which[3], held = sym::choice(3);
    ns::later want[3];
    ar(cereal::make_size_tag((cereal::size_type) n));
    for (int i = 0; i < n; ++i) {
        which[i]   = sym::choice(4);
        want[i].num = sym::any();
        if constexpr (map)
            ar.name("key"), ar(10 + i), ar.name("value");
        ar(cereal::make_nvp("num", want[i].num));
        if (which[i] & 1)
            ar(cereal::make_nvp("one", want[i].one = sym::any()));
        if (which[i] & 2)
            ar(cereal::make_nvp("two", want[i].two = sym::any()));
    }
    C c;
    for (int i = 0; i < held; ++i) {
        ns::later x{sym::any(), sym::any(), sym::any()};
        if constexpr (map)
            c = c.set(10 + i, x);
        else
            c = c.push_back(x);
    }
    mem::tin in{b};
    in(c);
    CHECK(b.r == b.n, "all of the data is loaded");
    CHECK((int) c.size() == n, "the same number of elements");
    for (int i = 0; i < n; ++i) {
        const ns::later& x = [&]() -> const ns::later& {
            if constexpr (map)
                return c.at(10 + i);
            else
                return c[i];
        }();
        CHECK((x.num == want[i].num) & (x.one == want[i].one) & (x.two == want[i].two), "a member missing from the data of an element has its default value");
    }
}
HARNESS(missing_elements)
{
    switch (sym::choice(5)) {
    case 0: missing_in<immer::vector<ns::later>>(); break;
    case 1: missing_in<immer::flex_vector<ns::later>>(); break;
    case 2: missing_in<immer::array<ns::later>>(); break;
    case 3: missing_in<immer::map<int, ns::later>>(); break;
    default: missing_in<immer::vector<immer::box<ns::later>>>();
    }
    sym::reach("done");
}
// sizes around those of the nodes of the containers
HARNESS(large)
{
    static const int sizes[] = {31, 32, 33, 34, 64, 65, 140};
    int n = sizes[sym::choice(7)], held = sym::flip() ? 40 : 0;
    auto fill = [&](auto c, int n) {
        for (int i = 0; i < n; ++i)
            c = std::move(c).push_back(sym::any());
        return c;
    };
    auto run = [&](auto empty) {
        using T = decltype(empty);
        T x = fill(empty, n), y = fill(empty, held);
        mem::bytes b;
        {
            mem::out o{b};
            o(x);
        }
        mem::in i{b};
        i(y);
        CHECK(b.r == b.n, "loading takes everything that was saved");
        CHECK(y.size() == x.size(), "the same number of elements");
        for (int k = 0; k < n; ++k)
            CHECK(y[k] == x[k], "the same elements in the same order");
    };
    switch (sym::choice(5)) {
    case 0: run(immer::vector<int>{}); break;
    case 1: run(immer::flex_vector<int>{}); break;
    case 2: run(immer::array<int>{}); break;
    case 3: {
        immer::map<int, int> x, y;
        for (int k = 0; k < 20; ++k)
            x = std::move(x).set(k * 7 - 30, sym::any());
        for (int k = 0; k < held; ++k)
            y = std::move(y).set(k, k);
        mem::bytes b;
        {
            mem::out o{b};
            o(x);
        }
        mem::in i{b};
        i(y);
        CHECK(b.r == b.n && y.size() == 20, "the same number of elements");
        for (int k = 0; k < 20; ++k) {
            auto p = y.find(k * 7 - 30);
            CHECK(p && *p == x.at(k * 7 - 30), "the same keys with the same values");
        }
        break;
    }
    default: {
        immer::set<int> x, y;
        for (int k = 0; k < 20; ++k)
            x = std::move(x).insert(k * 7 - 30);
        for (int k = 0; k < held; ++k)
            y = std::move(y).insert(k);
        mem::bytes b;
        {
            mem::out o{b};
            o(x);
        }
        mem::in i{b};
        i(y);
        CHECK(b.r == b.n && y.size() == 20, "the same number of elements");
        for (int k = 0; k < 20; ++k)
            CHECK(y.count(k * 7 - 30), "the same elements");
    }
    }
    sym::reach("done");
}
