// Stand-in for the environment of lager's HTTP debugger: Boost.Beast messages, Asio sockets, cereal's JSON writer,
// std::regex, string streams, files and threads.  What lager asks of them is recorded, and the harness plays the client.
#pragma once
#include <atomic>
#include <cereal/cereal.hpp>
#include <cstdint>
#include <cstring>
#include <fstream>
#include <functional>
#include <memory>
#include <regex>
#include <sstream>
#include <string>
#include <string_view>
#include <thread>
#include <vector>

namespace standin {
// a JSON document: the numbers and strings in it, under the hash of the path of names that leads to them
struct doc
{
    struct item
    {
        std::uint64_t path;
        long long num;
        std::string text;
    };
    std::vector<item> items;
    bool complete = false;
    static std::uint64_t step(std::uint64_t h, const char* n)
    {
        h = h * 1099511628211ull + 7;
        for (; *n; ++n)
            h = (h ^ (unsigned char) *n) * 1099511628211ull;
        return h;
    }
    template <class... Names>
    const item* get(Names... names) const
    {
        std::uint64_t h = 1;
        ((h = step(h, names)), ...);
        for (auto& i : items)
            if (i.path == h)
                return &i;
        return nullptr;
    }
};
inline std::vector<std::shared_ptr<doc>> docs;

// a matcher for the usual regular expressions: literals, ., classes, escapes, groups, alternatives and ? * +
struct regex
{
    std::string p;
    using cont = std::function<bool(const char*)>;
    static bool in_class(const std::string& p, std::size_t i, std::size_t e, char c)
    {
        bool neg = i < e && p[i] == '^', r = false;
        if (neg)
            ++i;
        while (i < e) {
            if (i + 2 < e && p[i + 1] == '-') {
                r = r | ((p[i] <= c) & (c <= p[i + 2]));
                i += 3;
            } else if (p[i] == '\\') {
                r = r | esc(p[i + 1], c);
                i += 2;
            } else
                r = r | (p[i++] == c);
        }
        return r != neg;
    }
    static bool esc(char k, char c)
    {
        bool digit = (c >= '0') & (c <= '9');
        if (k == 'd')
            return digit;
        if (k == 'D')
            return !digit;
        if (k == 'w')
            return digit | ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '_');
        return c == k;
    }
    // the end of the atom at i
    std::size_t atom_end(std::size_t i) const
    {
        if (p[i] == '\\')
            return i + 2;
        if (p[i] == '[') {
            auto e = i + 1;
            if (p[e] == '^')
                ++e;
            if (p[e] == ']')
                ++e;
            while (p[e] != ']')
                ++e;
            return e + 1;
        }
        if (p[i] == '(') {
            int d  = 1;
            auto e = i + 1;
            while (d) {
                if (p[e] == '\\')
                    ++e;
                else
                    d += p[e] == '(' ? 1 : p[e] == ')' ? -1 : 0;
                ++e;
            }
            return e;
        }
        return i + 1;
    }
    bool one(std::size_t i, std::size_t e, const char* s, const char* end, const cont& k) const
    {
        if (p[i] == '(') {
            auto b = i + 1;
            if (p[b] == '?')
                b += 2; // (?: )
            return alt(b, e - 1, s, end, k);
        }
        if (s == end)
            return false;
        char c  = *s;
        bool ok = p[i] == '.'    ? c != '\n' && c != '\r'
                  : p[i] == '\\' ? esc(p[i + 1], c)
                  : p[i] == '['  ? in_class(p, i + 1, e - 1, c)
                                 : p[i] == c;
        return ok && k(s + 1);
    }
    bool rep(std::size_t i, std::size_t e, int min, bool many, const char* s, const char* end, const cont& k) const
    {
        if (one(i, e, s, end, [&](const char* t) { return (many && t != s) ? rep(i, e, min - 1, true, t, end, k) : k(t); }))
            return true;
        return min <= 0 && k(s);
    }
    bool seq(std::size_t i, std::size_t e, const char* s, const char* end, const cont& k) const
    {
        if (i == e)
            return k(s);
        if (p[i] == '^' || p[i] == '$')
            return seq(i + 1, e, s, end, k);
        auto ae   = atom_end(i);
        char q    = ae < e ? p[ae] : 0;
        auto next = [&, n = ae + ((q == '?' || q == '*' || q == '+') ? 1 : 0)](const char* t) { return seq(n, e, t, end, k); };
        if (q == '?')
            return rep(i, ae, 0, false, s, end, next);
        if (q == '*')
            return rep(i, ae, 0, true, s, end, next);
        if (q == '+')
            return rep(i, ae, 1, true, s, end, next);
        return one(i, ae, s, end, next);
    }
    bool alt(std::size_t i, std::size_t e, const char* s, const char* end, const cont& k) const
    {
        auto b = i;
        while (i < e) {
            if (p[i] == '|') {
                if (seq(b, i, s, end, k))
                    return true;
                b = ++i;
            } else
                i = atom_end(i);
        }
        return seq(b, e, s, end, k);
    }
};

// the files there are
struct file
{
    const char* path;
    const char* text;
};
inline const file* files = nullptr;
inline int nfiles        = 0;
inline std::vector<std::string> opened;
// a path that can only be that of a directory
inline bool directory(const std::string& p)
{
    auto n = p.size();
    return n == 0 || p[n - 1] == '/' || (n >= 2 && p[n - 1] == '.' && (p[n - 2] == '/' || p[n - 2] == '.'));
}
// a path as the operating system takes it: neither empty components nor . or ..
inline std::string real_path(const std::string& p)
{
    std::vector<std::string> parts;
    std::size_t i = 0;
    while (i <= p.size()) {
        auto j = i;
        while (j < p.size() && p[j] != '/')
            ++j;
        auto c = p.substr(i, j - i);
        if (c == "..") {
            if (!parts.empty())
                parts.pop_back();
        } else if (!c.empty() && c != ".")
            parts.push_back(c);
        i = j + 1;
    }
    std::string r;
    for (auto& c : parts) {
        r += '/';
        r += c;
    }
    return r;
}
} // namespace standin

namespace std {
struct lsym_ostringstream
{
    std::string s;
    std::shared_ptr<standin::doc> d;
    lsym_ostringstream& operator<<(const char* x)
    {
        s += x;
        return *this;
    }
    lsym_ostringstream& operator<<(const std::string& x)
    {
        s += x;
        return *this;
    }
    lsym_ostringstream& operator<<(char x)
    {
        s += x;
        return *this;
    }
    std::string str() const
    {
        CHECK(!d || d->complete, "a document is sent once it is complete");
        return s;
    }
};
struct lsym_regex : standin::regex
{
    lsym_regex() = default;
    explicit lsym_regex(std::string s)
        : standin::regex{std::move(s)}
    {}
};
template <class It>
bool lsym_regex_match(It b, It e, const lsym_regex& r)
{
    const char* end = &*b + (e - b);
    return r.alt(0, r.p.size(), &*b, end, [&](const char* s) { return s == end; });
}
inline bool lsym_regex_match(const std::string& s, const lsym_regex& r)
{
    return lsym_regex_match(s.data(), s.data() + s.size(), r);
}
template <class It>
bool lsym_regex_search(It b, It e, const lsym_regex& r)
{
    const char* end = &*b + (e - b);
    for (const char* i = &*b;; ++i) {
        if (r.alt(0, r.p.size(), i, end, [](const char*) { return true; }))
            return true;
        if (i == end)
            return false;
    }
}
inline bool lsym_regex_search(const std::string& s, const lsym_regex& r)
{
    return lsym_regex_search(s.data(), s.data() + s.size(), r);
}
struct lsym_ifstream
{
    const char* text = nullptr;
    explicit lsym_ifstream(const std::string& p, int = 0)
    {
        auto r = standin::real_path(p);
        standin::opened.push_back(r);
        for (int i = 0; i < standin::nfiles; ++i)
            if (!standin::directory(p) && r == standin::files[i].path)
                text = standin::files[i].text;
    }
    bool is_open() const { return text; }
    explicit operator bool() const { return text; }
    bool operator!() const { return !text; }
};
template <class C>
struct lsym_streambuf_iterator
{
    using iterator_category = std::input_iterator_tag;
    using value_type        = C;
    using difference_type   = std::ptrdiff_t;
    using pointer           = const C*;
    using reference         = C;
    lsym_ifstream* f        = nullptr;
    lsym_streambuf_iterator() = default;
    lsym_streambuf_iterator(lsym_ifstream& x)
        : f{&x}
    {}
    bool at_end() const { return !f || !f->text || !*f->text; }
    C operator*() const { return *f->text; }
    lsym_streambuf_iterator& operator++()
    {
        ++f->text;
        return *this;
    }
    lsym_streambuf_iterator operator++(int)
    {
        auto r = *this;
        ++*this;
        return r;
    }
    friend bool operator==(const lsym_streambuf_iterator& a, const lsym_streambuf_iterator& b) { return a.at_end() == b.at_end(); }
    friend bool operator!=(const lsym_streambuf_iterator& a, const lsym_streambuf_iterator& b) { return !(a == b); }
};
} // namespace std

// cereal's JSON writer
namespace cereal {
struct JSONOutputArchive : OutputArchive<JSONOutputArchive>, traits::TextArchive
{
    std::shared_ptr<standin::doc> d;
    std::uint64_t path = 1;
    explicit JSONOutputArchive(std::lsym_ostringstream& s)
        : OutputArchive<JSONOutputArchive>{this}
        , d{std::make_shared<standin::doc>()}
    {
        s.d = d;
        s.s += "doc";
        CHECK(standin::docs.size() < 90, "harness: too many documents");
        s.s += (char) ('!' + standin::docs.size());
        standin::docs.push_back(d);
    }
    ~JSONOutputArchive() { d->complete = true; }
    void put(long long v) { d->items.push_back({path, v, {}}); }
    void put(const std::string& v) { d->items.push_back({path, 0, v}); }
};
template <class T>
void prologue(JSONOutputArchive&, const T&)
{}
template <class T>
void epilogue(JSONOutputArchive&, const T&)
{}
template <class T>
void CEREAL_SAVE_FUNCTION_NAME(JSONOutputArchive& ar, const NameValuePair<T>& t)
{
    auto p  = ar.path;
    ar.path = standin::doc::step(p, t.name);
    ar(t.value);
    ar.path = p;
}
template <class T, traits::EnableIf<std::is_arithmetic<T>::value> = traits::sfinae>
void CEREAL_SAVE_FUNCTION_NAME(JSONOutputArchive& ar, const T& t)
{
    ar.put((long long) t);
}
inline void CEREAL_SAVE_FUNCTION_NAME(JSONOutputArchive& ar, const std::string& t) { ar.put(t); }
template <class T>
void CEREAL_SAVE_FUNCTION_NAME(JSONOutputArchive&, const SizeTag<T>&)
{}
} // namespace cereal
CEREAL_REGISTER_ARCHIVE(cereal::JSONOutputArchive)

namespace boost {
namespace system {
struct error_code
{
    int v = 0;
    explicit operator bool() const { return v; }
    bool operator!() const { return !v; }
};
} // namespace system
namespace asio {
struct io_context
{
    bool stopped = false, ran = false;
    void stop() { stopped = true; }
    std::size_t run();
};
struct socket_base
{
    enum shutdown_type { shutdown_receive, shutdown_send, shutdown_both };
    struct reuse_address
    {
        bool v;
        explicit reuse_address(bool b)
            : v{b}
        {}
    };
    static constexpr int max_listen_connections = 128;
};
} // namespace asio
namespace beast {
using error_code  = boost::system::error_code;
using string_view = std::string_view;
struct flat_buffer
{};
inline bool iequals(string_view a, string_view b)
{
    if (a.size() != b.size())
        return false;
    auto low = [](char c) { return c >= 'A' && c <= 'Z' ? (char) (c + 32) : c; };
    for (std::size_t i = 0; i < a.size(); ++i)
        if (low(a[i]) != low(b[i]))
            return false;
    return true;
}
namespace http {
enum class verb { unknown, delete_, get, head, post, put };
enum class field { unknown, content_type, content_length };
enum class status : unsigned { ok = 200, bad_request = 400, not_found = 404, internal_server_error = 500 };
struct string_body
{};
template <class Body>
struct request
{
    verb m = verb::unknown;
    std::string t, b;
    verb method() const { return m; }
    string_view target() const { return t; }
    std::string& body() { return b; }
    const std::string& body() const { return b; }
    unsigned version() const { return 11; }
    bool keep_alive() const { return true; }
};
template <class Body>
struct response
{
    unsigned code = 0;
    std::string type, b;
    bool prepared = false, eof = false;
    void result(unsigned c) { code = c; }
    void result(status c) { code = (unsigned) c; }
    void set(field f, string_view v)
    {
        if (f == field::content_type)
            type = std::string{v};
    }
    std::string& body() { return b; }
    const std::string& body() const { return b; }
    void prepare_payload() { prepared = true; }
    bool need_eof() const { return eof; }
    void content_length(std::size_t) { prepared = true; }
    void version(unsigned) {}
    void keep_alive(bool) {}
};
} // namespace http
} // namespace beast
} // namespace boost

namespace standin {
using req_t = boost::beast::http::request<boost::beast::http::string_body>;
using res_t = boost::beast::http::response<boost::beast::http::string_body>;
using io_fn = std::function<void(boost::beast::error_code, std::size_t)>;
// a connection, as the client sees it
struct connection
{
    req_t* reading       = nullptr;
    res_t* writing       = nullptr;
    io_fn on_read, on_write;
    bool shut = false, open = true;
};
inline std::vector<std::shared_ptr<connection>> conns;
} // namespace standin

namespace boost::asio::ip {
struct tcp
{
    static tcp v4() { return {}; }
    struct endpoint
    {
        std::uint16_t port;
        endpoint(tcp, std::uint16_t n)
            : port{n}
        {}
        tcp protocol() const { return {}; }
    };
    struct socket : socket_base
    {
        std::shared_ptr<standin::connection> c;
        explicit socket(std::shared_ptr<standin::connection> x)
            : c{std::move(x)}
        {}
        socket(socket&&) = default;
        socket(const socket&) = default; // kept by handlers that std::function copies
        ~socket() = default;
        void shutdown(shutdown_type, boost::system::error_code&) { c->shut = true; }
        void shutdown(shutdown_type) { c->shut = true; }
        void close(boost::system::error_code&) { c->shut = true; }
        void close() { c->shut = true; }
    };
    using accept_fn = std::function<void(boost::system::error_code, socket)>;
    struct acceptor;
};
} // namespace boost::asio::ip

namespace boost::asio::ip {
struct tcp::acceptor
{
    explicit acceptor(io_context&) {}
    acceptor(io_context&, const endpoint& e, bool = true)
    {
        open({});
        bind(e);
        listen(0);
    }
    bool opened = false, bound = false, listening = false;
    void open(tcp) { opened = true; }
    void open(tcp, boost::system::error_code&) { opened = true; }
    template <class... O>
    void set_option(O&&...)
    {}
    void bind(const endpoint& e, boost::system::error_code&) { bind(e); }
    void listen(int, boost::system::error_code&) { listen(0); }
    void bind(const endpoint& e)
    {
        bound = true;
        port  = e.port;
    }
    void listen(int)
    {
        CHECK(opened && bound, "the server listens on a bound socket");
        listening = true;
    }
    template <class F>
    void async_accept(F f)
    {
        CHECK(listening && !accept, "the server accepts connections on a listening socket, one at a time");
        accept = std::move(f);
    }
    static inline accept_fn accept;
    static inline std::uint16_t port;
};
} // namespace boost::asio::ip

namespace boost::beast::http {
template <class F>
void async_read(asio::ip::tcp::socket& s, flat_buffer&, standin::req_t& r, F f)
{
    CHECK(!s.c->reading && !s.c->writing, "one operation at a time on a connection");
    CHECK(r.t.empty() && r.b.empty(), "a request is read into an empty one");
    s.c->reading = &r;
    s.c->on_read = std::move(f);
}
template <class F>
void async_write(asio::ip::tcp::socket& s, standin::res_t& r, F f)
{
    CHECK(!s.c->reading && !s.c->writing, "one operation at a time on a connection");
    s.c->writing  = &r;
    s.c->on_write = std::move(f);
}
} // namespace boost::beast::http

namespace standin {
// what the client does
inline std::shared_ptr<connection> connect()
{
    auto c = std::make_shared<connection>();
    conns.push_back(c);
    auto f = std::move(boost::asio::ip::tcp::acceptor::accept);
    boost::asio::ip::tcp::acceptor::accept = {};
    CHECK(bool(f), "the server accepts connections");
    f({}, boost::asio::ip::tcp::socket{c});
    return c;
}
inline void accept_fails()
{
    auto f = std::move(boost::asio::ip::tcp::acceptor::accept);
    boost::asio::ip::tcp::acceptor::accept = {};
    f({1}, boost::asio::ip::tcp::socket{std::make_shared<connection>()});
}
inline void send(connection& c, boost::beast::http::verb m, std::string target)
{
    CHECK(c.reading && c.on_read, "the server reads the next request");
    c.reading->m = m;
    c.reading->t = std::move(target);
    c.reading->b = "body";
    c.reading    = nullptr;
    auto f       = std::move(c.on_read);
    c.on_read    = {};
    f({}, 1);
}
// the response, once it has been written out
inline res_t receive(connection& c, bool fails = false)
{
    CHECK(c.writing && c.on_write, "every request is answered");
    res_t r   = *c.writing;
    c.writing = nullptr;
    auto f    = std::move(c.on_write);
    c.on_write = {};
    f({fails ? 1 : 0}, 1);
    return r;
}
inline void hang_up(connection& c)
{
    CHECK(c.reading && c.on_read, "the server reads the next request");
    c.reading = nullptr;
    auto f    = std::move(c.on_read);
    c.on_read = {};
    f({1}, 0);
}
} // namespace standin

// for lager/debug/http_server.hpp
#define ostringstream lsym_ostringstream
#define stringstream lsym_ostringstream
#define regex_match lsym_regex_match
#define regex_search lsym_regex_search
#define regex lsym_regex
#define ifstream lsym_ifstream
#define istreambuf_iterator lsym_streambuf_iterator
