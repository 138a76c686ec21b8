// C07: QCoro::connect()
#include "common.h"
#include "vqt.h"
#include "context.h"
#include <qcorotask.h>
#include <qcorolazytask.h>
#include <qcorotimer.h>
using QCoro::Task;

static Context *alive; // the live context, null once destroyed
Context::~Context() { alive = nullptr; }
static int called, calledWith; static int32_t value; static bool matters;
static void count(bool with, int32_t v) {
    called++; calledWith += with; value = v;
    if (matters) vf::check(alive != nullptr, "the callback is not called once the context is destroyed");
}
void Context::nothing() { vf::check(this == alive, "the callback runs on the context"); count(false, 0); }
void Context::nothingConst() const { vf::check(this == alive, "the callback runs on the context"); count(false, 0); }
void Context::take(int v) { vf::check(this == alive, "the callback runs on the context"); count(true, v); }
void Context::takeRef(const int &v) { vf::check(this == alive, "the callback runs on the context"); count(true, v); }
int Context::answer(int v) { vf::check(this == alive, "the callback runs on the context"); count(true, v); return v; }
static void plain() { count(false, 0); }
static void plainTake(int v) { count(true, v); }

struct World : vqt::Env {
    Gate gate;
    Context *ctx = nullptr, *parent = nullptr;
    bool mayDestroy = true;
    World() { vqt::env = this; parent = new Context; ctx = new Context(parent); alive = ctx; called = calledWith = 0; value = -1; matters = true; }
    ~World() override { vqt::env = nullptr; matters = false; delete parent; }
    void destroy() {
        mayDestroy = false;
        switch (vf::choice("destruction", 3)) {
        case 0: delete ctx; break;
        case 1: delete parent; parent = nullptr; break;
        case 2: ctx->deleteLater(); break;
        }
    }
    unsigned acts() override { return gate.pending() + mayDestroy; }
    void act(unsigned i) override { if (gate.pending() && i == 0) gate.fire(); else destroy(); }
};
struct Case { bool suspends, throws, destroys; int32_t v; int finished = 0; bool aliveAtEnd = false; };
static void ending(World &w, Case &c) {
    if (c.destroys && c.suspends && alive) { delete w.ctx; w.mayDestroy = false; }
    c.finished++;
    c.aliveAtEnd = alive != nullptr;
    if (c.throws) throw BaseError(c.v);
}
template<typename T> static Task<T> task(World &w, Case &c) {
    Tracked local(3);
    if (c.suspends) co_await w.gate;
    ending(w, c);
    co_return T(c.v);
}
static Task<> taskVoid(World &w, Case &c) {
    Tracked local(3);
    if (c.suspends) co_await w.gate;
    ending(w, c);
}
static Case makeCase() { return {vf::flag("suspends"), vf::flag("throws"), vf::flag("destroys_the_context_itself"), vf::i32("value")}; }
// lets everything happen and compares
static void finish(World &w, Case &c, bool with) {
    if (!c.finished || !c.suspends) vf::check(called == (!c.suspends && !c.throws && c.aliveAtEnd), "the callback is called at once if the task is finished");
    vqt::run(12);
    vf::check(c.finished == 1, "the task runs to its end although nobody holds it");
    vf::check(called == (!c.throws && c.aliveAtEnd), "the callback is called once if the context is alive and the task succeeded, and not otherwise");
    if (called) {
        vf::check(calledWith == with, "the callback is called with its arguments");
        if (with) vf::check(value == c.v, "the callback gets the value");
    }
    vf::reach(called ? "called" : c.throws ? "threw" : "context_gone");
}
HARNESS(h_c07_shapes) {
    Scope scope;
    {
        World w; Case c = makeCase();
        Tracked captured(9);
        bool with = true;
        switch (vf::choice("shape", 20)) {
        case 0: QCoro::connect(task<int>(w, c), w.ctx, [captured](int v) { captured.use(); count(true, v); }); break;
        case 1: QCoro::connect(task<int>(w, c), w.ctx, [captured]() { captured.use(); count(false, 0); }); with = false; break;
        case 2: QCoro::connect(task<int>(w, c), w.ctx, [captured](auto &&v) { captured.use(); count(true, v); }); break;
        case 3: QCoro::connect(task<int>(w, c), w.ctx, [captured](const int &v) { count(true, v); }); break;
        case 4: QCoro::connect(task<int>(w, c), w.ctx, &plainTake); break;
        case 5: QCoro::connect(task<int>(w, c), w.ctx, &plain); with = false; break;
        case 6: QCoro::connect(task<int>(w, c), w.ctx, &Context::take); break;
        case 7: QCoro::connect(task<int>(w, c), w.ctx, &Context::takeRef); break;
        case 8: QCoro::connect(task<int>(w, c), w.ctx, &Context::nothing); with = false; break;
        case 9: QCoro::connect(task<int>(w, c), w.ctx, &Context::answer); break;
        case 10: QCoro::connect(task<Tracked>(w, c), w.ctx, [](Tracked t) { count(true, t.get()); }); break;
        case 11: QCoro::connect(task<Tracked>(w, c), w.ctx, [](const Tracked &t) { count(true, t.get()); }); break;
        case 12: QCoro::connect(task<Tracked>(w, c), w.ctx, [](auto &&t) { Tracked mine = std::move(t); count(true, mine.get()); }); break;
        case 13: QCoro::connect(taskVoid(w, c), w.ctx, [captured]() { captured.use(); count(false, 0); }); with = false; break;
        case 14: QCoro::connect(taskVoid(w, c), w.ctx, &Context::nothing); with = false; break;
        case 15: QCoro::connect(taskVoid(w, c), w.ctx, &plain); with = false; break;
        case 16: { auto t = task<int>(w, c); QCoro::connect(std::move(t), w.ctx, &Context::take); break; } // the name goes out of scope
        case 17: QCoro::connect(task<MoveOnly>(w, c), w.ctx, [captured](MoveOnly m) { count(true, m.get()); }); break;
        case 18: case 19: { // the caller keeps the task
            auto t = task<Tracked>(w, c); int resumed = 0;
            QCoro::connect(t, w.ctx, [captured]() { captured.use(); count(false, 0); });
            with = false;
            bool threw = false;
            auto also = [](Task<Tracked> &t, int &resumed, bool &threw) -> Task<> { try { co_await t; } catch (const BaseError &) { threw = true; } resumed++; };
            if (vf::flag("awaited_too")) { auto a = also(t, resumed, threw); vqt::run(12); vf::check(resumed == 1 && threw == c.throws, "the task still belongs to the caller"); }
            break; }
        }
        vf::check(captured.get() == 9, "the caller's objects are untouched");
        finish(w, c, with);
    }
    scope.finish();
}
// a task held by the caller as well, several connections, callbacks that destroy the context
HARNESS(h_c07_several) {
    Scope scope;
    {
        World w; Case c = makeCase();
        c.throws = false;
        bool kills = vf::flag("callback_destroys_the_context");
        auto kill = [&w, kills](int v) { count(true, v); if (kills && alive) { delete w.ctx; w.mayDestroy = false; } };
        auto outer = [](World &w, Case &c, int &seen) -> Task<int> { int v = co_await task<int>(w, c); seen++; co_return v; };
        int seen = 0;
        auto first = outer(w, c, seen);
        QCoro::connect(std::move(first), w.ctx, kill);
        Context *other = new Context(w.parent); // not watched by anything
        int second = 0;
        Case c2{true, false, false, 5};
        if (alive || !c.destroys) { if (alive) QCoro::connect(task<int>(w, c2), w.ctx, [&second](int) { second++; vf::check(alive != nullptr, "the callback is not called once the context is destroyed"); }); }
        (void)other;
        vqt::run(12);
        while (w.gate.pending()) w.gate.fire();
        vf::check(seen == 1 && c.finished == 1, "the task runs to its end although nobody holds it");
        vf::check(called == c.aliveAtEnd, "the callback is called once");
        vf::check(second == (c2.finished && c2.aliveAtEnd), "each connection lives on its own");
        vf::reach(second ? "second" : "first_only");
    }
    scope.finish();
}
// futures that are not tasks
struct IntGate { Gate *g = nullptr; int32_t v = 0; Tracked t{4};
    bool await_ready() const { t.use(); return g->open; }
    void await_suspend(std::coroutine_handle<> h) { t.use(); g->await_suspend(h); }
    int32_t await_resume() const { t.use(); return v; } };
struct WithMember { Gate *g = nullptr; int32_t v = 0; IntGate operator co_await() const { return {g, v}; } };
struct WithFree { Gate *g = nullptr; int32_t v = 0; };
IntGate operator co_await(const WithFree &x) { return {x.g, x.v}; }
HARNESS(h_c07_futures) {
    Scope scope;
    {
        World w; Case c{vf::flag("suspends"), false, false, vf::i32("value")};
        bool with = true;
        if (!c.suspends) w.gate.fire();
        Tracked captured(9);
        QTimer *timer = nullptr;
        switch (vf::choice("kind", 6)) {
        case 0: QCoro::connect(IntGate{&w.gate, c.v}, w.ctx, [captured](int v) { captured.use(); count(true, v); }); break;
        case 1: { IntGate g{&w.gate, c.v}; QCoro::connect(std::move(g), w.ctx, &plainTake); break; }
        case 2: QCoro::connect(WithMember{&w.gate, c.v}, w.ctx, [](int v) { count(true, v); }); break;
        case 3: QCoro::connect(WithFree{&w.gate, c.v}, w.ctx, [](int v) { count(true, v); }); break;
        case 4: QCoro::connect(IntGate{&w.gate, c.v}, w.ctx, [captured]() { captured.use(); count(false, 0); }); with = false; break;
        case 5: timer = new QTimer; timer->setSingleShot(true); if (c.suspends) timer->start(10); QCoro::connect(std::move(timer), w.ctx, [captured]() { captured.use(); count(false, 0); }); with = false; break;
        }
        vf::check(called == !c.suspends, "the callback is called at once if the future is finished");
        bool before = alive;
        for (int i = 0; vqt::turn(); i++) { if (i > 12) vf_bound_("event loop turns"); if (!called && w.mayDestroy == false && !alive) before = false; }
        vf::check(called <= 1, "the callback is called once");
        if (alive) vf::check(called == 1, "the callback is called if the context lives");
        if (called) { vf::check(calledWith == with, "the callback is called with its arguments"); if (with) vf::check(value == c.v, "the callback gets the value"); }
        vf::reach(called ? "called" : "context_gone");
        delete timer;
    }
    scope.finish();
}
