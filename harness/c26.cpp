// C26: QML tasks
#include "common.h"
#include "vqt_qml.h"
#include <qcoroqmltask.h>
#include <qcorotask.h>
#include <optional>
#include <memory>
using QCoro::Task; using QCoro::QmlTask; using QCoro::QmlTaskListener;

struct World {
    Gate gate;
    int32_t v = 0; bool throws = false, finished = false;
    int form = 0; // of the task
};
static World *world;
static Task<QVariant> sourceVariant(World &w) { Tracked t(w.v); co_await w.gate; w.finished = true; if (w.throws) throw PlainError{w.v}; co_return QVariant(int(t.get())); }
static Task<int> sourceInt(World &w) { Tracked t(w.v); co_await w.gate; w.finished = true; if (w.throws) throw PlainError{w.v}; co_return int(t.get()); }
static Task<> sourceVoid(World &w) { Tracked t(w.v); co_await w.gate; w.finished = true; if (w.throws) throw PlainError{w.v}; }
static Task<QVariant> sourceNull(World &w) { Tracked t(w.v); co_await w.gate; w.finished = true; if (w.throws) throw PlainError{w.v}; co_return QVariant(QMetaType::fromType<int>()); }
struct Awaitable { World *w; bool await_ready() { return w->gate.open; } void await_suspend(std::coroutine_handle<> h) { w->gate.await_suspend(h); } int await_resume() { w->finished = true; if (w->throws) throw PlainError{w->v}; return w->v; } };
static QmlTask make(World &w) {
    switch (w.form) {
    case 0: return QmlTask(sourceVariant(w));
    case 1: return QmlTask(sourceInt(w));
    case 2: return QmlTask(sourceVoid(w));
    case 4: return QmlTask(sourceNull(w));
    default: return QmlTask(Awaitable{&w});
    }
}
static bool right(World &w, const QVariant &v) { return w.form == 2 ? !v.isValid() : v.isValid() && v.toInt() == (w.form == 4 ? 0 : w.v); }

static constexpr int Handles = 3, Users = 4;
struct Use {
    int kind = 0; // 1 then(), 2 await()
    int calls = 0, changes = 0;
    bool intermediate = false; int32_t between = 0;
    QPointer<QmlTaskListener> listener;
};
static std::optional<QmlTask> *handle; static Use *use; static int users;
static std::unique_ptr<QJSEngine> *engine;
static int reaction; // what the next callback does: 1 drops every handle, 2 uses the task again
static void perform(int kind);
static void called(int id, const QJSValueList &args) {
    Use &u = use[id - 1];
    vf::check(u.kind == 1 && ++u.calls == 1, "the function is called once");
    vf::check(world->finished && !world->throws, "the function is called when the task has its value");
    vf::check(args.size() == 1 && right(*world, vqt::jsVariant(args.at(0))), "the function gets the task's value");
    const int r = reaction; reaction = 0;
    if (r == 1) for (int i = 0; i < Handles; i++) handle[i].reset();
    if (r == 2) perform(1);
    if (r == 3) engine->reset();
}
static void listens(Use &u, bool before) {
    World &w = *world;
    if (!u.listener) return;
    const QVariant v = u.listener->value();
    if (w.finished && !w.throws) vf::check(right(w, v), "the listener has the task's value");
    else if (u.intermediate) vf::check(v.isValid() && v.toInt() == u.between, "the listener has the intermediate value");
    else vf::check(!v.isValid(), "the listener has no value yet");
    if (before) return;
    vf::check(u.changes == (w.finished && !w.throws), "the change is announced exactly when the task has its value");
}
static void perform(int kind) { // on the first handle there is
    for (int i = 0; i < Handles; i++) if (handle[i]) {
        Use &u = use[users++];
        u.kind = kind;
        if (kind == 1) { handle[i]->then(vqt::jsFunction(engine->get(), users)); return; }
        u.intermediate = vf::flag("intermediate");
        if (u.intermediate) u.between = vf::i32("between");
        u.listener = u.intermediate ? handle[i]->await(QVariant(int(u.between))) : handle[i]->await();
        vf::check(u.listener, "await() returns a listener");
        const bool done = world->finished;
        listens(u, true);
        if (!done) QObject::connect(u.listener, &QmlTaskListener::valueChanged, u.listener, [&u] { u.changes++; vf::check(world->finished && right(*world, u.listener->value()), "the change is announced with the value"); });
        else u.changes = !world->throws;
        return;
    }
}
static void run(int steps, int form) {
    Scope scope;
    {
        World w; world = &w;
        w.form = form;
        w.v = vf::i32("value"); w.throws = vf::flag("throws");
        std::optional<QmlTask> h[Handles]; handle = h;
        Use u[Users]; use = u; users = 0; reaction = 0;
        std::unique_ptr<QJSEngine> e(new QJSEngine); engine = &e;
        vqt::jsCalled = called;
        bool ready = vf::flag("ready");
        if (ready) w.gate.fire();
        h[0].emplace(make(w));
        bool gone = false; int before = 0; // uses that then() could not serve any more
        int live = 1;
        (void)live; (void)before;
        for (int i = 0; i < steps; i++) {
            bool any = false; for (int k = 0; k < Handles; k++) any |= bool(h[k]);
            enum { Stop, Then, Await, Finish, Copy, Drop, Assign, Self, Listener, Engine, React, N };
            bool can[N] = {true, any && e && users < Users - 1, any && users < Users - 1, w.gate.pending(), h[0] && !h[1], any, h[0] && h[1], bool(h[0]), false, e && !gone, !reaction && !w.finished};
            int listener = -1; for (int k = 0; k < users; k++) if (u[k].listener) listener = k;
            can[Listener] = listener >= 0;
            unsigned n = 0; for (bool c : can) n += c;
            unsigned pick = vf::choice("step", n);
            int a = 0; for (; a < N; a++) if (can[a] && pick-- == 0) break;
            switch (a) {
            case Then: perform(1); break;
            case Await: perform(2); break;
            case Finish: w.gate.fire(); break;
            case Copy: h[1].emplace(*h[0]); break;
            case Drop: h[vf::flag("second") && h[1] ? 1 : h[0] ? 0 : 1].reset(); break;
            case Assign: if (vf::flag("forth")) *h[1] = *h[0]; else { QmlTask other; other = *h[1]; *h[0] = other; } break;
            case Self: { QmlTask &x = *h[0]; x = *&x; break; }
            case Listener: delete u[listener].listener; break;
            case Engine: e.reset(); gone = true; break;
            case React: reaction = 1 + vf::choice("reaction", 3); break;
            default: i = steps;
            }
            if (e == nullptr) gone = true;
            for (int k = 0; k < users; k++) {
                if (u[k].kind == 1 && !gone) vf::check(u[k].calls == (w.finished && !w.throws), "the function is called exactly when the task has its value");
                if (u[k].kind == 2) listens(u[k], false);
            }
        }
        const bool finished = w.finished;
        if (!finished) w.gate.fire();
        vf::check(w.finished, "the task runs on without its handles");
        for (int k = 0; k < users; k++) {
            if (u[k].kind == 1 && e && !gone) vf::check(u[k].calls == !w.throws, "the function is called");
            if (u[k].kind == 2) listens(u[k], false);
            vf::log("calls", u[k].calls); vf::log("changes", u[k].changes);
            delete u[k].listener;
        }
        vf::reach(w.throws ? "throws" : gone ? "engine gone" : !users ? "unused" : finished ? "finished" : "later");
        for (auto &x : h) x.reset();
        e.reset();
        vqt::jsCalled = nullptr;
    }
    scope.finish();
}
HARNESS(h_c26_variant) { run(BOUND(5, 6), 0); }
HARNESS(h_c26_int) { run(BOUND(4, 5), 1); }
// a value that is null: a value all the same
HARNESS(h_c26_null) { run(BOUND(3, 4), 4); }
HARNESS(h_c26_void) { run(BOUND(4, 5), 2); }
HARNESS(h_c26_awaitable) { run(BOUND(4, 5), 3); }
// a QML task without a task
HARNESS(h_c26_empty) {
    Scope scope;
    {
        std::unique_ptr<QJSEngine> e(new QJSEngine);
        vqt::jsCalled = [](int, const QJSValueList &) { vf::check(false, "there is nothing to call the function with"); };
        QmlTask t; std::optional<QmlTask> copy;
        if (vf::flag("copied")) copy.emplace(t);
        if (vf::flag("then")) t.then(vqt::jsFunction(e.get(), 1));
        else if (vf::flag("no_function")) { World w; QmlTask u(sourceVariant(w)); u.then(QJSValue()); w.gate.fire(); }
        const bool intermediate = vf::flag("intermediate"); const int32_t v = vf::i32("between");
        QmlTaskListener *l = intermediate ? t.await(QVariant(int(v))) : t.await();
        vf::check(l && (intermediate ? l->value().toInt() == v : !l->value().isValid()), "only the intermediate value is there");
        vf::reach("empty");
        delete l;
        e.reset();
        vqt::jsCalled = nullptr;
    }
    scope.finish();
}
// many users of one task
HARNESS(h_c26_many) {
    static const int N = BOUND(120, 400);
    Scope scope;
    {
        World w; world = &w;
        w.form = 1; w.v = vf::i32("value");
        std::unique_ptr<QJSEngine> e(new QJSEngine); engine = &e;
        static int calls; calls = 0;
        vqt::jsCalled = [](int id, const QJSValueList &args) { vf::check(id == ++calls, "the functions are called once each, in order"); vf::check(args.size() == 1 && right(*world, vqt::jsVariant(args.at(0))), "the function gets the task's value"); };
        if (vf::flag("ready")) w.gate.fire();
        int changes = 0;
        QPointer<QmlTaskListener> l[N];
        {
            QmlTask t = make(w), copy = t;
            for (int i = 0; i < N; i++) {
                (i & 1 ? t : copy).then(vqt::jsFunction(e.get(), i + 1));
                l[i] = (i & 1 ? copy : t).await(QVariant(7));
                if (!w.finished) QObject::connect(l[i], &QmlTaskListener::valueChanged, l[i], [&changes] { changes++; });
            }
        }
        const bool early = w.finished;
        w.gate.fire();
        vf::check(calls == N, "every function is called");
        if (!early) vf::check(changes == N, "every listener announces the change");
        for (int i = 0; i < N; i++) { vf::check(l[i] && right(w, l[i]->value()), "every listener has the value"); delete l[i]; }
        e.reset();
        vqt::jsCalled = nullptr;
        vf::reach("done");
    }
    scope.finish();
}
