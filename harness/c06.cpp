// C06: waitFor()
#include "common.h"
#include "vqt.h"
#include <qcorotask.h>
#include <qcorolazytask.h>
#include <qcorotimer.h>
#include <QThread>
using QCoro::Task; using QCoro::LazyTask;

// The environment opens gates while an event loop runs.
struct World : vqt::Env {
    Gate gate[2];
    int gates = 1, noise = 0;
    void (*onFire)(World &) = nullptr;
    QThread *other = nullptr; // the gate is opened from this thread
    World() { vqt::env = this; vqt::loopRuns = 0; }
    ~World() override { vqt::env = nullptr; }
    unsigned shut() const { unsigned n = 0; for (int i = 0; i < gates; i++) n += gate[i].pending(); return n; }
    unsigned acts() override { return other ? 0 : shut() + (noise > 0 && shut() ? 1 : 0); }
    void act(unsigned k) override {
        for (int i = 0; i < gates; i++) if (gate[i].pending() && k-- == 0) { gate[i].fire(); return; }
        noise--;
    }
    unsigned asyncs() override { return other && gate[0].pending() ? 1 : 0; }
    void async(unsigned) override { vqt::InThread in(vqt::dataOf(other)); gate[0].fire(); }
};
enum Out { OVoid, OInt, OTracked, OMoveOnly, OutCount };
enum End { ENormal, EThrowBeforeSuspend, EThrowAfterSuspend, EndCount };
struct Case { bool suspends; End end; int32_t v, w; int finished = 0; bool viaChild; };
template<typename T> static T make(int32_t v) { if constexpr (std::is_same_v<T, void>) return; else return T(v); }
template<template<typename> class K, typename T>
static K<T> child(World &w, Case &c) {
    if (c.end == EThrowBeforeSuspend) throw DerivedError(c.v, c.w);
    if (c.suspends) co_await w.gate[0];
    c.finished++;
    if (c.end == EThrowAfterSuspend) throw DerivedError(c.v, c.w);
    if constexpr (!std::is_void_v<T>) co_return T(c.v);
}
template<template<typename> class K, typename T>
static K<T> body(World &w, Case &c) {
    Tracked local(1);
    if (c.viaChild) co_return co_await child<Task, T>(w, c);
    if (c.end == EThrowBeforeSuspend) throw DerivedError(c.v, c.w);
    if (c.suspends) co_await w.gate[0];
    c.finished++;
    if (c.end == EThrowAfterSuspend) throw DerivedError(c.v, c.w);
    co_return T(c.v);
}
template<template<typename> class K>
static K<void> bodyVoid(World &w, Case &c) {
    Tracked local(1);
    if (c.viaChild) { co_await child<Task, void>(w, c); co_return; }
    if (c.end == EThrowBeforeSuspend) throw DerivedError(c.v, c.w);
    if (c.suspends) co_await w.gate[0];
    c.finished++;
    if (c.end == EThrowAfterSuspend) throw DerivedError(c.v, c.w);
}
template<template<typename> class K, typename T> static K<T> start(World &w, Case &c) { if constexpr (std::is_void_v<T>) return bodyVoid<K>(w, c); else return body<K, T>(w, c); }
template<typename T> static int32_t valueOf(const T &v) { if constexpr (std::is_same_v<T, int>) return v; else return v.get(); }
// waits and compares with what the coroutine did
template<typename T, typename F>
static void expect(Case &c, bool loop, F wait) {
    int32_t got = 0; bool threw = false;
    try { if constexpr (std::is_void_v<T>) wait(); else { T r = wait(); got = valueOf(r); } }
    catch (const DerivedError &e) { threw = true; vf::check(e.v == c.v && e.w == c.w, "the exception arrives with its content"); }
    catch (const std::exception &) { vf_fail_("the exception arrives with its type"); }
    vf::check(threw == (c.end != ENormal), "waitFor() throws exactly what the awaitable throws");
    vf::check(c.finished == (c.end != EThrowBeforeSuspend), "waitFor() returns when the awaitable finished");
    if constexpr (!std::is_void_v<T>) if (!threw) vf::check(got == c.v, "waitFor() returns the awaited value");
    vf::check(vqt::loopRuns == (loop ? 1 : 0), loop ? "waitFor() waits in one event loop" : "waitFor() runs no event loop for a finished awaitable");
    vf::reach(threw ? "threw" : "returned");
}
enum Form { FRvalue, FLvalue, FLazy, FLazyLvalue, FThen, FormCount };
template<typename T> static void forms(World &w, Case &c) {
    bool loop = c.suspends && c.end != EThrowBeforeSuspend;
    switch (vf::choice("form", FormCount)) {
    case FRvalue: expect<T>(c, loop, [&]() -> T { return QCoro::waitFor(start<Task, T>(w, c)); }); break;
    case FLvalue: {
        auto t = start<Task, T>(w, c);
        if (loop && vf::flag("finishes_before_waiting")) { w.gate[0].fire(); loop = false; }
        expect<T>(c, loop, [&]() -> T { return QCoro::waitFor(t); });
        vf::check(t.isReady(), "the task that was waited for is finished");
        break; }
    case FLazy: expect<T>(c, loop, [&]() -> T { return QCoro::waitFor(start<LazyTask, T>(w, c)); }); break;
    case FLazyLvalue: { auto t = start<LazyTask, T>(w, c); expect<T>(c, loop, [&]() -> T { return QCoro::waitFor(t); }); break; }
    default:
        if constexpr (std::is_void_v<T>) expect<T>(c, loop, [&]() -> T { return QCoro::waitFor(start<Task, T>(w, c).then([]() {})); });
        else if constexpr (std::is_same_v<T, MoveOnly>) vf::skip(); // then() needs a default constructible type
        else expect<T>(c, loop, [&]() -> T { return QCoro::waitFor(start<Task, T>(w, c).then([](T v) { return v; })); });
    }
}
HARNESS(h_c06_outcomes) {
    Scope scope;
    {
        World w; w.noise = BOUND(1, 3);
        Case c{vf::flag("suspends"), End(vf::choice("end", EndCount)), vf::i32("value"), vf::i32("value2")};
        c.viaChild = vf::flag("through_a_child_task");
        switch (vf::choice("type", OutCount)) {
        case OVoid: forms<void>(w, c); break;
        case OInt: forms<int>(w, c); break;
        case OTracked: forms<Tracked>(w, c); break;
        case OMoveOnly: forms<MoveOnly>(w, c); break;
        }
        vf::check(w.shut() == 0, "nothing waits any more");
    }
    scope.finish();
}
// awaitables that are not tasks
struct IntGate { Gate &g; int32_t v; bool throws = false;
    bool await_ready() const { return g.open; }
    void await_suspend(std::coroutine_handle<> h) { g.await_suspend(h); }
    int32_t await_resume() const { if (throws) throw PlainError{v}; return v; } };
struct TrackedGate { Gate &g; Tracked t;
    bool await_ready() const { return g.open; }
    bool await_suspend(std::coroutine_handle<> h) { g.await_suspend(h); return true; }
    Tracked await_resume() { t.use(); return std::move(t); } };
struct WithMember { Gate &g; int32_t v; IntGate operator co_await() const { return {g, v}; } };
struct WithFree { Gate &g; int32_t v; };
IntGate operator co_await(const WithFree &x) { return {x.g, x.v}; }
HARNESS(h_c06_awaitables) {
    Scope scope;
    {
        World w; w.noise = BOUND(1, 3);
        if (vf::flag("open")) w.gate[0].fire();
        bool loop = !w.gate[0].open;
        int32_t v = vf::i32("value");
        switch (vf::choice("kind", 7)) {
        case 0: QCoro::waitFor(w.gate[0]); break;
        case 1: vf::check(QCoro::waitFor(IntGate{w.gate[0], v}) == v, "waitFor() returns the awaited value"); break;
        case 2: { IntGate g{w.gate[0], v}; vf::check(QCoro::waitFor(g) == v, "waitFor() returns the awaited value"); break; }
        case 3: { bool t = false; try { QCoro::waitFor(IntGate{w.gate[0], v, true}); } catch (const PlainError &e) { t = e.v == v; } vf::check(t, "waitFor() throws what the awaitable throws"); break; }
        case 4: vf::check(QCoro::waitFor(TrackedGate{w.gate[0], Tracked(v)}).get() == v, "waitFor() returns the awaited value"); break;
        case 5: vf::check(QCoro::waitFor(WithMember{w.gate[0], v}) == v, "waitFor() returns the awaited value"); break;
        case 6: vf::check(QCoro::waitFor(WithFree{w.gate[0], v}) == v, "waitFor() returns the awaited value"); break;
        }
        vf::check(w.gate[0].open, "waitFor() returns when the awaitable finished");
        vf::check(vqt::loopRuns == (loop ? 1 : 0), "waitFor() runs an event loop exactly if it has to wait");
        vf::reach(loop ? "waited" : "immediate");
    }
    scope.finish();
}
// time passes in the nested loop; other work goes on there
static Task<int32_t> sleeper(int64_t ms, int32_t v) { co_await QCoro::sleepFor(std::chrono::milliseconds(ms)); co_return v; }
HARNESS(h_c06_time) {
    Scope scope;
    {
        World w;
        int64_t a = vf::range("ms", 0, 100000), b = vf::range("other_ms", 0, 100000);
        int32_t v = vf::i32("value"), u = vf::i32("value2");
        int64_t t0 = vqt::now();
        auto other = sleeper(b, u);
        vf::check(QCoro::waitFor(sleeper(a, v)) == v, "waitFor() returns the awaited value");
        vf::check(vqt::now() >= t0 + a, "waitFor() returns when the awaitable finished");
        if (b < a) vf::check(other.isReady(), "the event loop keeps serving others");
        vf::reach(other.isReady() ? "other_done" : "other_running");
        vf::check(QCoro::waitFor(other) == u, "waitFor() returns the awaited value");
        vf::check(vqt::now() == t0 + (a > b ? a : b), "waitFor() takes no longer than the awaitable");
    }
    scope.finish();
}
// nested waits: a wait that starts inside the event loop of another one
static Task<int32_t> outerTask(World &w, int32_t v) { co_await w.gate[0]; co_return v; }
static Task<int32_t> innerTask(World &w, int32_t v, bool throws) { co_await w.gate[1]; if (throws) throw PlainError{v}; co_return v; }
static Task<> nesting(World &w, int32_t v, bool throws, int &done) {
    co_await w.gate[0];
    bool threw = false; int32_t r = 0;
    try { r = QCoro::waitFor(innerTask(w, v, throws)); } catch (const PlainError &e) { threw = true; r = e.v; }
    vf::check(r == v && threw == throws, "a nested waitFor() returns its own outcome");
    done++;
}
HARNESS(h_c06_nested) {
    Scope scope;
    {
        World w; w.gates = 2;
        int32_t v = vf::i32("outer"), u = vf::i32("inner"); bool throws = vf::flag("inner_throws");
        int done = 0;
        switch (vf::choice("scenario", 3)) {
        case 0: // the inner wait starts when the outer awaitable finished: same gate, started before or after
            { auto o = outerTask(w, v); auto n = nesting(w, u, throws, done); vf::check(QCoro::waitFor(std::move(o)) == v, "waitFor() returns the awaited value"); vf::check(done == 1 && n.isReady(), "the nested wait ended"); break; }
        case 1:
            { auto n = nesting(w, u, throws, done); vf::check(QCoro::waitFor(outerTask(w, v)) == v, "waitFor() returns the awaited value"); vf::check(done == 1, "the nested wait ended"); break; }
        case 2: // waiting for the coroutine that waits
            QCoro::waitFor(nesting(w, u, throws, done)); vf::check(done == 1, "the nested wait ended"); break;
        }
        vf::check(vqt::loopRuns == 2, "each wait ran one event loop");
        vf::reach(throws ? "threw" : "returned");
    }
    scope.finish();
}
// the awaitable finishes on another thread, at any moment
static Task<int32_t> elsewhere(World &w, int32_t v, bool throws) { co_await w.gate[0]; if (throws) throw PlainError{v}; co_return v; }
HARNESS(h_c06_other_thread) {
    Scope scope;
    {
        QThread th; World w;
        w.other = &th;
        int32_t v = vf::i32("value"); bool throws = vf::flag("throws");
        bool threw = false; int32_t r = 0;
        try { r = QCoro::waitFor(elsewhere(w, v, throws)); } catch (const PlainError &e) { threw = true; r = e.v; }
        vf::check(r == v && threw == throws, "waitFor() returns the outcome of an awaitable that finished on another thread");
        vf::reach(threw ? "threw" : "returned");
    }
    scope.finish();
}
