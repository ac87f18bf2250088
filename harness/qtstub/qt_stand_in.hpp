// A stand-in for the parts of Qt 5 that lager uses: objects that live on a (logical) thread with a first in first out
// queue of events, queued and direct invocation, thread pools whose tasks start when the environment decides so, timers,
// and quick items that are polished and painted when the environment decides so.
#pragma once
#include <cassert>
#include <cstddef>
#include <cstdlib>
#include <functional>
#include <memory>
#include <mutex>
#include <thread>
#include <type_traits>
#include <utility>
#include <vector>

#define Q_PROPERTY(...)
#define Q_OBJECT
#define Q_SIGNAL
#define Q_INVOKABLE
#define Q_EMIT

class QObject;
class QEvent
{
    int type_;

public:
    enum Type { None = 0, MetaCall = 43, PolishRequest = 74, User = 1000 };
    explicit QEvent(Type t)
        : type_{t}
    {}
    virtual ~QEvent() = default;
    Type type() const { return (Type) type_; }
};

namespace qt {
struct call : QEvent
{
    std::function<void()> fn;
    call(std::function<void()> f)
        : QEvent{QEvent::MetaCall}
        , fn{std::move(f)}
    {}
};
struct posted
{
    QObject* to;
    std::shared_ptr<QEvent> ev;
};
// the logical thread that is running; with real threads, the one the engine runs
inline int current       = 0;
inline bool real_threads = false;
inline int here() { return real_threads ? __lsym_tid() : current; }
inline std::mutex mutex;
inline std::vector<posted> events;
inline void clear() { events.clear(); }
} // namespace qt

class QThread
{
public:
    static void msleep(unsigned long) {}
};

class QObject
{
    int thread_ = qt::here();

public:
    explicit QObject(QObject* = nullptr) {}
    QObject(const QObject&) = delete;
    QObject& operator=(const QObject&) = delete;
    virtual ~QObject()
    {
        std::lock_guard<std::mutex> g{qt::mutex};
        for (std::size_t i = 0; i < qt::events.size();)
            if (qt::events[i].to == this)
                qt::events.erase(qt::events.begin() + (long) i);
            else
                ++i;
    }
    virtual bool event(QEvent* e)
    {
        if (e->type() != QEvent::MetaCall)
            return false;
        static_cast<qt::call*>(e)->fn();
        return true;
    }
    int lives_on() const { return thread_; }
    void move_to(int t) { thread_ = t; }
    template <class Sender, class Receiver, class Base>
    static void connect(Sender* s, void (Sender::*)(), Receiver* r, void (Base::*slot)())
    {
        s->slots_.push_back([r, slot] { (r->*slot)(); });
    }
    template <class Sender, class Fn>
    static void connect(Sender* s, void (Sender::*)(), QObject*, Fn fn)
    {
        s->slots_.push_back([fn]() mutable { fn(); });
    }
};

namespace qt {
inline void post(QObject* o, std::shared_ptr<QEvent> e)
{
    std::lock_guard<std::mutex> g{mutex};
    events.push_back({o, std::move(e)});
}
// deliver one event to the objects of this thread; false if there was none
inline bool deliver()
{
    posted p{};
    {
        std::lock_guard<std::mutex> g{mutex};
        for (std::size_t i = 0; i < events.size(); ++i)
            if (events[i].to->lives_on() == here()) {
                p = events[i];
                events.erase(events.begin() + (long) i);
                break;
            }
    }
    if (!p.to)
        return false;
    p.to->event(p.ev.get());
    return true;
}
} // namespace qt

namespace Qt {
enum ConnectionType { AutoConnection, DirectConnection, QueuedConnection, BlockingQueuedConnection };
}
struct QMetaObject
{
    template <class Fn>
    static bool invokeMethod(QObject* o, Fn&& fn, Qt::ConnectionType t = Qt::AutoConnection)
    {
        if (t == Qt::DirectConnection || (t == Qt::AutoConnection && o->lives_on() == qt::here()))
            fn();
        else
            qt::post(o, std::make_shared<qt::call>(std::function<void()>{std::forward<Fn>(fn)}));
        return true;
    }
};

class QTimer : public QObject
{
public:
    std::vector<std::function<void()>> slots_;
    bool running  = false;
    int interval_ = 0;
    explicit QTimer(QObject* parent = nullptr)
        : QObject{parent}
    {
        last() = this;
    }
    ~QTimer()
    {
        if (last() == this)
            last() = nullptr;
    }
    void timeout() {}
    void setInterval(int ms) { interval_ = ms; }
    void start(int ms)
    {
        interval_ = ms;
        running   = true;
    }
    void start() { running = true; }
    void stop() { running = false; }
    bool isActive() const { return running; }
    static QTimer*& last()
    {
        static QTimer* t = nullptr;
        return t;
    }
    void fire()
    {
        if (running)
            for (auto& s : slots_)
                s();
    }
};

class QCoreApplication : public QObject
{
    static QCoreApplication*& self()
    {
        static QCoreApplication* s = nullptr;
        return s;
    }

public:
    int quits = 0;
    QCoreApplication() { self() = this; }
    QCoreApplication(int&, char**) { self() = this; }
    ~QCoreApplication() { self() = nullptr; }
    static QCoreApplication* instance() { return self(); }
    static void quit() { self()->quits++; }
    static void exit(int = 0) { self()->quits++; }
    static void postEvent(QObject* o, QEvent* e, int = 0) { qt::post(o, std::shared_ptr<QEvent>{e}); }
    static bool sendEvent(QObject* o, QEvent* e) { return o->event(e); }
};

class QThreadPool : public QObject
{
public:
    struct task
    {
        std::function<void()> fn;
        int thread;
    };
    std::vector<task> tasks;     // not started yet (logical threads)
    std::vector<int> threads;    // started and not joined (real threads)
    int waits = 0, started = 0;
    static QThreadPool* globalInstance()
    {
        static QThreadPool p;
        return &p;
    }
    static void entry(void* p)
    {
        std::unique_ptr<std::function<void()>> f{(std::function<void()>*) p};
        (*f)();
    }
    void start_task(std::function<void()> f)
    {
        started++;
        if (qt::real_threads)
            threads.push_back(__lsym_thread_create(entry, new std::function<void()>{std::move(f)}));
        else
            tasks.push_back({std::move(f), 7});
    }
    // run the task that was given first
    bool run_one()
    {
        if (tasks.empty())
            return false;
        auto t     = std::move(tasks.front());
        tasks.erase(tasks.begin());
        int before  = qt::current;
        qt::current = t.thread;
        t.fn();
        qt::current = before;
        return true;
    }
    bool waitForDone(int = -1)
    {
        waits++;
        while (run_one()) {}
        while (!threads.empty()) {
            int t = threads.back();
            threads.pop_back();
            __lsym_thread_join(t);
        }
        return true;
    }
};
namespace QtConcurrent {
template <class Fn>
void run(QThreadPool* p, Fn&& fn)
{
    p->start_task(std::function<void()>{std::forward<Fn>(fn)});
}
template <class Fn>
void run(Fn&& fn)
{
    run(QThreadPool::globalInstance(), std::forward<Fn>(fn));
}
} // namespace QtConcurrent

class QSGNode;
class QQuickItem : public QObject
{
    bool polish_ = false, paint_ = false;

public:
    struct UpdatePaintNodeData
    {};
    explicit QQuickItem(QQuickItem* parent = nullptr)
        : QObject{parent}
    {}
    void polish() { polish_ = true; }
    void update() { paint_ = true; }
    virtual void updatePolish() {}
    virtual QSGNode* updatePaintNode(QSGNode*, UpdatePaintNodeData*) { return nullptr; }
    bool event(QEvent* e) override { return QObject::event(e); }
    // the polish phase of a frame, and the paint phase
    bool polish_phase()
    {
        bool p  = polish_;
        polish_ = false;
        if (p)
            updatePolish();
        return p;
    }
    bool paint_phase()
    {
        bool p = paint_;
        paint_ = false;
        UpdatePaintNodeData d;
        if (p)
            updatePaintNode(nullptr, &d);
        return p;
    }
};
