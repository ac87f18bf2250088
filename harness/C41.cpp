//@ entry: api reach=done,ok,missing,bad,acted
//@ entry: history reach=done,rewound,discarded,paused
//@ entry: connections reach=done,closed,failed
//@ entry: files reach=done,found,missing,outside
//@ entry: types reach=done
//@ entry: threads mt reach=done,before,after
//@ flags: -I@V@/harness/httpstub
//@ stub: Boost.Beast messages, Asio sockets and io_context (the harness plays the client and decides what succeeds), cereal's JSON writer (a document of named values), std::regex (a matcher for literals, classes, groups and repetition), string streams, the file system (a table of files, paths resolved as the operating system does), the start and join of std::thread, and the spin lock of immer::atom (a mutex)
//@ bounds: api: after a history of up to 2 actions and an undo, any of 13 beginnings of a target (those of the interface, /, and numbers around 2^32, around and beyond 2^64) followed by any up to 4 (thorough: 6) printable characters, with GET, POST or another verb; history: any sequence of 5 (6) operations out of an action of the application, and goto, undo, redo, pause and resume over HTTP, on a loop that runs at once or when asked, everything asked for after each; connections: two connections, any sequence of 6 (7) requests, answers, read and write errors, new connections and changes; files: targets of up to 3 (4) components out of 10; types: 25 kinds of files; threads: one client asking twice while the application dispatches, all interleavings; action values and the initial model arbitrary, reducer uninterpreted
//@ outside: the parsing of HTTP and the text of the JSON documents (Boost.Beast's and cereal's own code); the tree debugger behind the server; the destruction of the server (the store and its debugger refer to each other, and so live until the program ends); several threads making requests (the server has one)
#include "debugger.hpp"
#include <http_stand_in.hpp>

// std::thread on the threads of the harness
static int started     = 0;
static bool concurrent = false;
static int server_tid  = -1;
void std::thread::_M_start_thread(_State_ptr s, void (*)())
{
    started++;
    if (concurrent)
        server_tid = __lsym_thread_create([](void* p) {
            std::unique_ptr<_State> s{(_State*) p};
            s->_M_run();
        }, s.release());
    else
        s->_M_run();
    _M_id = id{(native_handle_type) 1};
}
void std::thread::join()
{
    if (concurrent)
        __lsym_thread_join(server_tid);
    _M_id = id{};
}
void std::thread::detach() { CHECK(false, "the thread of the server is joined"); }
static void (*serve)() = nullptr;
std::size_t boost::asio::io_context::run()
{
    ran = true;
    if (serve)
        serve();
    return 0;
}

#include <lager/debug/debugger.hpp>
#include <lager/debug/http_server.hpp>

namespace c41 {
using namespace dbg;
using boost::beast::http::verb;
using standin::doc;
using standin::res_t;
using D = lager::debugger<act, M, lager::deps<>>;

inline std::string number(int n)
{
    std::string r;
    if (n >= 10)
        r += (char) ('0' + n / 10);
    r += (char) ('0' + n % 10);
    return r;
}
inline const doc& document(const res_t& r)
{
    CHECK(r.code == 200 && r.type == "application/json" && r.prepared, "the request is answered with a document");
    CHECK(r.b.size() == 4 && r.b.substr(0, 3) == "doc", "which is the body");
    return *standin::docs[r.b[3] - '!'];
}
inline bool is(const doc::item* i, long long v) { return i && i->num == v; }

// a store with a debugger that is looked at over HTTP, next to what it should show
static const char* argv[] = {"prog", "-x", "file"};
struct world
{
    loop_state ls;
    int init = sym::any();
    lager::http_debug_server serv{3, argv, 8080, "/res"};
    slog<int> ha, hm;
    int pend[8];
    int np = 0, cur = 0;
    bool paused = false;

    auto make()
    {
        auto st = lager::make_store<act>(M{init}, loop{&ls}, lager::with_reducer(plain{}), lager::with_debugger(serv));
        CHECK(started == 1 && boost::asio::ip::tcp::acceptor::port == 8080, "the server listens on its port");
        return st;
    }
    void apply(int a)
    {
        int m = red(cur == 0 ? init : hm[cur - 1], a);
        if (cur < ha.n)
            sym::reach("discarded");
        ha.n = hm.n = cur;
        ha.push(a);
        hm.push(m);
        cur = ha.n;
    }
    void action(int a)
    {
        if (paused)
            pend[np++] = a;
        else
            apply(a);
    }
    void go(unsigned c)
    {
        if (c <= (unsigned) ha.n)
            cur = (int) c;
    }
    void undo() { cur -= cur > 0; }
    void redo() { cur += cur < ha.n; }
    void resume()
    {
        paused = false;
        for (int i = 0; i < np; ++i)
            apply(pend[i]);
        np = 0;
    }
    // what is shown
    void check_summary(const res_t& r)
    {
        auto& d = document(r);
        auto p  = d.get("program");
        CHECK(p && p->text == "prog -x file", "the program is shown");
        CHECK(is(d.get("summary"), ha.n), "the number of recorded steps is shown");
        CHECK(is(d.get("cursor"), cur), "the position in the history is shown");
        CHECK(is(d.get("paused"), paused), "whether the application is paused is shown");
    }
    void check_step(const res_t& r, int n)
    {
        if (n > ha.n) {
            CHECK(r.code == 500, "a step that does not exist is an error");
            return;
        }
        auto& d = document(r);
        CHECK(is(d.get("model", "v"), n == 0 ? init : hm[n - 1]), "the model of a step is shown as it was");
        if (n == 0)
            CHECK(!d.get("action", "v"), "the initial step has no action");
        else
            CHECK(is(d.get("action", "v"), ha[n - 1]), "the action of a step is shown as it was");
    }
    template <class Store>
    void check_store(Store& st)
    {
        D::model m = st.get();
        CHECK((int) m.history.size() == ha.n && (int) m.cursor == cur && m.paused == paused && (int) m.pending.size() == np, "the store is in the state that was asked for");
        CHECK(static_cast<const M&>(m).v == (cur == 0 ? init : hm[cur - 1]), "and shows the model there");
    }
};
inline res_t ask(standin::connection& c, verb m, std::string target)
{
    standin::send(c, m, std::move(target));
    return standin::receive(c);
}
inline void all(world& w, standin::connection& c)
{
    w.check_summary(ask(c, verb::get, "/api"));
    for (int n = 0; n <= w.ha.n + 1; ++n)
        w.check_step(ask(c, verb::get, "/api/step/" + number(n)), n);
}
inline bool digit(char c) { return c >= '0' && c <= '9'; }
} // namespace c41
using namespace c41;

// any request, at any of some states
HARNESS(api)
{
    world w;
    {
        auto st = w.make();
        auto c  = standin::connect();
        // a history
        unsigned k = sym::choice(3);
        for (unsigned i = 0; i < k; ++i) {
            int a = sym::any();
            w.action(a);
            st.dispatch(act{a, 0, 0});
        }
        if (k == 2 && sym::flip()) {
            w.undo();
            st.dispatch(D::undo_action{});
        }
        // a request
        static const char* heads[] = {"/", "/api", "/api/step/", "/api/goto/", "/api/undo", "/api/redo", "/api/pause", "/api/resume", "/api/step/429496", "/api/goto/429496", "/api/step/1844674407370955", "/api/goto/1844674407370955", "/api/goto/99999999999999999999"};
        static const verb verbs[]  = {verb::get, verb::post, verb::put};
        unsigned h  = sym::choice(13);
        verb m      = verbs[sym::choice(3)];
        unsigned ns = sym::choice(h == 12 ? 2 : bound(5, 6));
        std::string target{heads[h]}, tail;
        for (unsigned i = 0; i < ns; ++i)
            tail += sym::any<char>();
        for (char x : tail)
            sym::assume((x > ' ') & (x < 127));
        target += tail;
        auto r = ask(*c, m, target);
        // what it means
        bool step = target.substr(0, 10) == "/api/step/", go = target.substr(0, 10) == "/api/goto/", huge = false;
        bool number = (step || go) && target.size() > 10;
        for (std::size_t i = 10; i < target.size(); ++i)
            number = number && digit(target[i]);
        unsigned __int128 num = 0;
        if (number)
            for (std::size_t i = 10; i < target.size(); ++i)
                num = num * 10 + (target[i] - '0');
        huge = num > ~0ull;
        auto path = [&](const char* p) { return target == p; };
        if (m == verb::get && (path("/api") || path("/api/"))) {
            w.check_summary(r);
            sym::reach("ok");
        } else if (m == verb::get && step && number) {
            if (!huge && num <= (unsigned) w.ha.n) {
                w.check_step(r, (int) __lsym_conc((std::uint64_t) num));
                sym::reach("ok");
            } else {
                CHECK(r.code == 500 && r.prepared, "a step that does not exist or a number that is too large is an error");
                sym::reach("bad");
            }
        } else if (m == verb::get) {
            CHECK(r.code == 404 && r.prepared, "what does not exist is not found");
            sym::reach("missing");
        } else if (m == verb::post && go && number) {
            if (huge) {
                CHECK(r.code == 500 && r.prepared, "a number that is too large is an error");
                sym::reach("bad");
            } else {
                CHECK(r.code == 200 && r.prepared, "the request is accepted");
                sym::reach("acted");
                if (num <= (unsigned) w.ha.n)
                    w.go((unsigned) __lsym_conc((std::uint64_t) num));
            }
        } else {
            bool acted = m == verb::post;
            if (acted && path("/api/undo"))
                w.undo();
            else if (acted && path("/api/redo"))
                w.redo();
            else if (acted && path("/api/pause"))
                w.paused = true;
            else if (acted && path("/api/resume"))
                w.resume();
            else
                acted = false;
            CHECK(r.code == (acted ? 200 : 404) && r.prepared, "a command is accepted, anything else is not found");
            sym::reach(acted ? "acted" : "missing");
        }
        w.check_store(st);
        CHECK(w.ls.pauses == w.paused && w.ls.resumes == (m == verb::post && path("/api/resume")), "the loop is paused and resumed as asked");
        w.check_summary(ask(*c, verb::get, "/api/"));
    }
    sym::reach("done");
}

// any history, made by the application and over HTTP
HARNESS(history)
{
    world w;
    auto st = w.make();
    auto c  = standin::connect();
    all(w, *c);
    w.ls.deferred = sym::flip();
    for (int i = 0; i < bound(5, 6); ++i) {
        // what is asked for becomes visible when the loop gets to it
        auto settle = [&] {
            if (w.ls.deferred) {
                w.check_summary(ask(*c, verb::get, "/api"));
                w.ls.run();
            }
        };
        switch (sym::choice(6)) {
        case 0: {
            int a = sym::any();
            st.dispatch(act{a, 0, 0});
            settle();
            w.action(a);
            break;
        }
        case 1: {
            int to = sym::choice(3);
            ask(*c, verb::post, "/api/goto/" + number(to));
            settle();
            w.go(to);
            sym::reach("rewound");
            break;
        }
        case 2:
            ask(*c, verb::post, "/api/undo");
            settle();
            w.undo();
            break;
        case 3:
            ask(*c, verb::post, "/api/redo");
            settle();
            w.redo();
            break;
        case 4:
            ask(*c, verb::post, "/api/pause");
            settle();
            w.paused = true;
            sym::reach("paused");
            break;
        case 5:
            ask(*c, verb::post, "/api/resume");
            settle();
            w.resume();
            break;
        }
        w.check_store(st);
        w.check_summary(ask(*c, verb::get, "/api"));
    }
    all(w, *c);
    sym::reach("done");
}

// several connections, some of which fail
HARNESS(connections)
{
    world w;
    long heap = 0;
    {
        auto st = w.make();
        std::shared_ptr<standin::connection> c[2] = {standin::connect(), standin::connect()};
        bool dead[2] = {}, waiting[2] = {};
        int shown[2] = {}; // what the pending answer shows
        for (int i = 0; i < bound(6, 7); ++i) {
            int k = sym::choice(2);
            if (dead[k]) {
                CHECK(!c[k]->reading && !c[k]->writing, "nothing is done on a connection that failed");
                CHECK(c[k]->shut, "a connection that failed is shut down");
                c[k]    = standin::connect();
                dead[k] = false;
                continue;
            }
            switch (sym::choice(4)) {
            case 0: // a request
                sym::assume(!waiting[k]);
                waiting[k] = true;
                shown[k]   = w.cur;
                standin::send(*c[k], verb::get, "/api");
                break;
            case 1: // its answer
                sym::assume(waiting[k]);
                waiting[k] = false;
                CHECK(is(document(standin::receive(*c[k])).get("cursor"), shown[k]), "a request is answered with what was there when it was made");
                break;
            case 2: // failures
                dead[k] = true;
                if (waiting[k]) {
                    standin::receive(*c[k], true);
                    sym::reach("failed");
                } else {
                    standin::hang_up(*c[k]);
                    sym::reach("closed");
                }
                waiting[k] = false;
                break;
            case 3: // the application goes on
                w.action(7);
                st.dispatch(act{7, 0, 0});
                break;
            }
        }
        for (int k = 0; k < 2; ++k)
            if (!dead[k]) {
                if (waiting[k])
                    CHECK(is(document(standin::receive(*c[k])).get("cursor"), shown[k]), "a request is answered with what was there when it was made");
                all(w, *c[k]);
            }
        // the handlers that nobody will call any more
        for (auto& x : standin::conns)
            x->on_read = x->on_write = {};
    }
    sym::observe(heap);
    sym::reach("done");
}

// the files of the user interface
HARNESS(files)
{
    static const standin::file there[] = {{"/res/gui/index.html", "<i>"}, {"/res/gui/a.js", "js"}, {"/res/gui/d/a.css", "css"}, {"/res/x", "private"}, {"/etc/x", "secret"}, {"/res/gui2/x", "other"}};
    standin::files  = there;
    standin::nfiles = 6;
    static const char* parts[] = {"d", "..", ".", "a.js", "a.css", "x", "etc", "", "index.html", "gui2"};
    world w;
    auto st = w.make();
    auto c  = standin::connect();
    std::string target;
    unsigned n = sym::choice(bound(4, 5));
    if (!n)
        target = "/";
    for (unsigned i = 0; i < n; ++i) {
        if (i || sym::flip())
            target += '/';
        target += parts[sym::choice(10)];
    }
    auto r = ask(*c, verb::get, target);
    CHECK(r.prepared, "the request is answered");
    auto real = standin::real_path("/res/gui/" + (target == "/" ? std::string{"index.html"} : target));
    for (auto& o : standin::opened)
        CHECK(o == "/res/gui" || o.substr(0, 9) == "/res/gui/", "only files of the user interface are looked at");
    const standin::file* f = target == "/" ? there : nullptr;
    for (int i = 0; i < 3; ++i)
        if (!standin::directory(target) && real == there[i].path)
            f = &there[i];
    bool dots = false;
    for (std::size_t i = 0; i + 1 < target.size(); ++i)
        dots |= target[i] == '.' && target[i + 1] == '.';
    if (f && !dots) {
        CHECK(r.code == 200 && r.b == f->text, "a file is sent as it is");
        CHECK(r.type == (f == there ? "text/html" : f == there + 1 ? "application/javascript" : "text/css"), "with the type that goes with its name");
        sym::reach("found");
    } else if (f) {
        CHECK(r.code == 404 || r.b == f->text, "a file is sent as it is");
    } else {
        CHECK(r.code == 404, "a file that does not exist is not found");
        sym::reach(real.substr(0, 9) == "/res/gui/" ? "missing" : "outside");
    }
    all(w, *c);
    sym::reach("done");
}

// every kind of file
HARNESS(types)
{
    static const char* kinds[][2] = {{"htm", "text/html"}, {"html", "text/html"}, {"php", "text/html"}, {"css", "text/css"}, {"txt", "text/plain"}, {"js", "application/javascript"}, {"json", "application/json"}, {"xml", "application/xml"}, {"swf", "application/x-shockwave-flash"}, {"flv", "video/x-flv"}, {"png", "image/png"}, {"jpe", "image/jpeg"}, {"jpeg", "image/jpeg"}, {"jpg", "image/jpeg"}, {"gif", "image/gif"}, {"bmp", "image/bmp"}, {"ico", "image/vnd.microsoft.icon"}, {"tiff", "image/tiff"}, {"tif", "image/tiff"}, {"svg", "image/svg+xml"}, {"svgz", "image/svg+xml"}, {"min.js", "application/javascript"}, {"js.map", "application/text"}, {"html.PNG", "image/png"}, {"jS", "application/javascript"}};
    auto& k   = kinds[sym::choice(sizeof(kinds) / sizeof(kinds[0]))];
    auto path = std::string{"/res/gui/d/f."} + k[0];
    const standin::file there[] = {{path.c_str(), "content"}};
    standin::files  = there;
    standin::nfiles = 1;
    world w;
    auto st = w.make();
    auto c  = standin::connect();
    auto r  = ask(*c, verb::get, std::string{"/d/f."} + k[0]);
    CHECK(r.code == 200 && r.b == "content" && r.type == k[1], "a file is sent as it is, with the type that goes with its name");
    sym::reach("done");
}

// requests while the application goes on in another thread
static world* tw;
static int act_value;
HARNESS(threads)
{
    __libc_single_threaded = 0;
    concurrent             = true;
    world w;
    tw        = &w;
    act_value = sym::any();
    serve     = [] {
        auto c   = standin::connect();
        auto r1  = ask(*c, verb::get, "/api");
        auto s   = document(r1).get("summary");
        auto cur = document(r1).get("cursor");
        CHECK(s && (s->num == 0 || s->num == 1), "what is shown was there");
        CHECK(cur && cur->num == s->num, "at a single point in time");
        bool after = s->num == 1;
        auto r2    = ask(*c, verb::get, "/api/step/1");
        CHECK(r2.code == 200 || (r2.code == 500 && !after), "history is not lost");
        if (r2.code == 200)
            CHECK(is(document(r2).get("action", "v"), act_value), "the action of a step is shown as it was");
        sym::reach(after ? "after" : "before");
    };
    auto st = w.make();
    st.dispatch(act{act_value, 0, 0});
    __lsym_thread_join(server_tid);
    sym::reach("done");
}
