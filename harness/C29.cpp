//@ entry: values reach=done,declared,undeclared
//@ entry: texts reach=done,accepted,rejected
//@ entry: serialized reach=done,accepted,rejected
//@ entry: other_types reach=done,accepted,rejected
//@ entry: many reach=done,accepted,rejected
//@ bounds: three enumerations (one over int with negative, extreme and far apart values and names that are prefixes of each other, one class over unsigned char with aliases excluded, one of a single enumerator); every value of the underlying type; every text of 0 to 7 (thorough: 12) arbitrary bytes, embedded NULs included; an enumeration of 14 enumerators with names of up to 24 characters, every value, and texts of 22 to 26 arbitrary bytes
//@ outside: longer texts; enumerations with more than 14 enumerators
#include "common.hpp"
#include <string>
#include <lager/extra/enum.hpp>
#include <lager/extra/cereal/enum.hpp>

namespace my {
enum class wide : int
{
    a    = -5,
    ab   = 0,
    abc  = 2147483647,
    b_a  = -2147483647 - 1,
    A    = 7,
    abcd = 8
};
enum small : unsigned char
{
    zero,
    one  = 255,
    _two = 2
};
enum class single : long long
{
    only = 1LL << 40
};
} // namespace my
LAGER_ENUM(my, wide, a, ab, abc, b_a, A, abcd)
LAGER_ENUM(my, small, zero, one, _two)
LAGER_ENUM(my, single, only)
namespace {
template <class T>
struct table;
template <>
struct table<my::wide>
{
    static constexpr my::wide v[]        = {my::wide::a, my::wide::ab, my::wide::abc, my::wide::b_a, my::wide::A, my::wide::abcd};
    static constexpr const char* n[]     = {"a", "ab", "abc", "b_a", "A", "abcd"};
    static constexpr int size            = 6;
};
template <>
struct table<my::small>
{
    static constexpr my::small v[]   = {my::zero, my::one, my::_two};
    static constexpr const char* n[] = {"zero", "one", "_two"};
    static constexpr int size        = 3;
};
template <>
struct table<my::single>
{
    static constexpr my::single v[]  = {my::single::only};
    static constexpr const char* n[] = {"only"};
    static constexpr int size        = 1;
};
bool same(const char* a, const char* b)
{
    int i = 0;
    for (; a[i] && b[i]; ++i)
        if (a[i] != b[i])
            return false;
    return a[i] == b[i];
}
template <class T>
int index_of(T x)
{
    int r = -1;
    for (int i = 0; i < table<T>::size; ++i)
        if (table<T>::v[i] == x)
            r = i;
    return r;
}
template <class T>
void all_values()
{
    T x   = (T) sym::any<std::underlying_type_t<T>>();
    int i = index_of(x);
    try {
        auto s = lager::to_string(x);
        CHECK(i >= 0, "undeclared values raise an error");
        CHECK(same(s, table<T>::n[i]), "the text of an enumerator is its name");
        T y = lager::to_enum<T>(s);
        CHECK(x == y, "an enumerator converted to text and back is the same");
        sym::reach("declared");
    } catch (const std::runtime_error&) {
        CHECK(i < 0, "a declared enumerator has a text");
        sym::reach("undeclared");
    }
    // distinct texts
    for (int a = 0; a < table<T>::size; ++a)
        for (int b = 0; b < a; ++b)
            CHECK(!same(lager::to_string(table<T>::v[a]), lager::to_string(table<T>::v[b])), "distinct enumerators have distinct texts");
}
std::string any_text(int max)
{
    unsigned n = sym::choice(max + 1);
    std::string s(n, 'x');
    for (unsigned i = 0; i < n; ++i)
        s[i] = sym::any<char>();
    return s;
}
template <class T>
int named(const std::string& s)
{
    int r = -1;
    for (int i = 0; i < table<T>::size; ++i) {
        unsigned n = 0;
        while (table<T>::n[i][n])
            ++n;
        if (n != s.size())
            continue;
        bool eq = true;
        for (unsigned k = 0; k < n; ++k)
            eq &= s[k] == table<T>::n[i][k];
        if (eq)
            r = i;
    }
    return r;
}
template <class T, class F>
void all_texts(int max, F conv)
{
    auto s = any_text(max);
    int i  = named<T>(s);
    try {
        T x = conv(s);
        CHECK(i >= 0, "a text that is not the name of an enumerator raises an error");
        CHECK(x == table<T>::v[i], "a name gives its enumerator");
        CHECK(lager::to_string(x) == s, "a text converted to an enumerator and back is the same");
        sym::reach("accepted");
    } catch (const std::runtime_error&) {
        CHECK(i < 0, "the name of an enumerator is accepted");
        sym::reach("rejected");
    }
}
struct archive
{};
} // namespace
HARNESS(values)
{
    switch (sym::choice(3)) {
    case 0: all_values<my::wide>(); break;
    case 1: all_values<my::small>(); break;
    default: all_values<my::single>();
    }
    sym::reach("done");
}
HARNESS(texts)
{
    all_texts<my::wide>(bound(7, 12), [](auto& s) { return lager::to_enum<my::wide>(s); });
    sym::reach("done");
}
HARNESS(other_types)
{
    if (sym::flip())
        all_texts<my::small>(bound(6, 10), [](auto& s) { return lager::to_enum<my::small>(s); });
    else
        all_texts<my::single>(bound(6, 10), [](auto& s) { return lager::to_enum<my::single>(s); });
    sym::reach("done");
}
HARNESS(serialized)
{
    archive ar;
    if (sym::flip()) {
        int i = sym::choice(6);
        auto x = table<my::wide>::v[i];
        auto s = cereal::save_minimal(ar, x);
        my::wide y = table<my::wide>::v[sym::choice(6)];
        cereal::load_minimal(ar, y, s);
        CHECK(x == y, "a serialized enumerator loads as itself");
        sym::reach("accepted");
    } else
        all_texts<my::wide>(5, [&](auto& s) {
            my::wide y{};
            cereal::load_minimal(ar, y, s);
            return y;
        });
    sym::reach("done");
}
// many enumerators, long names
namespace my {
enum class many
{
    e0,
    e1,
    e2 = 20,
    e3,
    e4,
    e5 = -9,
    e6,
    e7,
    e8,
    e9,
    e10 = 1000,
    e11,
    a_name_that_is_very_long,
    a_name_that_is_very_lonG
};
} // namespace my
LAGER_ENUM(my, many, e0, e1, e2, e3, e4, e5, e6, e7, e8, e9, e10, e11, a_name_that_is_very_long, a_name_that_is_very_lonG)
HARNESS(many)
{
    using my::many;
    static constexpr many v[]       = {many::e0, many::e1, many::e2, many::e3, many::e4, many::e5, many::e6, many::e7, many::e8, many::e9, many::e10, many::e11, many::a_name_that_is_very_long, many::a_name_that_is_very_lonG};
    static constexpr const char* n[] = {"e0", "e1", "e2", "e3", "e4", "e5", "e6", "e7", "e8", "e9", "e10", "e11", "a_name_that_is_very_long", "a_name_that_is_very_lonG"};
    auto conv = [](const std::string& t) { return lager::to_enum<many>(t); };
    for (int i = 0; i < 14; ++i) {
        CHECK(same(lager::to_string(v[i]), n[i]), "the text of an enumerator is its name");
        CHECK(conv(n[i]) == v[i], "the name of an enumerator gives the enumerator");
    }
    // any value
    many x = (many) sym::any<int>();
    int at = -1;
    for (int i = 0; i < 14; ++i)
        if (x == v[i])
            at = i;
    bool threw = false;
    try {
        auto t = lager::to_string(x);
        CHECK(at >= 0 && same(t, n[at < 0 ? 0 : at]), "the text of an enumerator is its name");
    } catch (...) {
        threw = true;
    }
    CHECK(threw == (at < 0), "values that were not declared are rejected");
    // texts as long as the longest name, and a little shorter and longer
    std::string s(22 + sym::choice(5), 'x');
    for (auto& c : s)
        c = sym::any<char>();
    int is = -1;
    for (int i = 12; i < 14; ++i) {
        bool eq = s.size() == 24;
        for (int j = 0; eq && j < 24; ++j)
            eq = s[j] == n[i][j];
        if (eq)
            is = i;
    }
    threw = false;
    try {
        many y = conv(s);
        CHECK(is >= 0 && y == v[is < 0 ? 0 : is], "a text is accepted if and only if it is a name");
        sym::reach("accepted");
    } catch (...) {
        threw = true;
        sym::reach("rejected");
    }
    CHECK(threw == (is < 0), "a text is accepted if and only if it is a name");
    sym::reach("done");
}
