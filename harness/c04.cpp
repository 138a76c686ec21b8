// C04: then()
#include "common.h"
#include <qcorotask.h>
#include <optional>
using QCoro::Task;

// kinds of continuation
enum { CbPlain, CbVoid, CbTask, CbNoArg, CbNoArgTask, CbTaskVoid, CbCount };
struct World {
    Gate src, inner;
    int32_t v = 0, out = 0;
    unsigned srcThrow = 0; bool cbThrow = false, errThrow = false, hasErr = false;
    int cb = 0, err = 0;
    int32_t cbArg = 0;
    bool srcDone = false, innerDone = false;
    Task<> *namedVoid = nullptr; Task<Tracked> *named = nullptr; // then() was called on these
};
static Task<Tracked> source(World &w) {
    co_await w.src;
    w.srcDone = true;
    if (w.srcThrow == 1) throw DerivedError(w.v, 5);
    if (w.srcThrow == 2) throw PlainError{w.v};
    co_return Tracked(w.v);
}
static Task<> sourceVoid(World &w) {
    co_await w.src;
    w.srcDone = true;
    if (w.srcThrow == 1) throw DerivedError(w.v, 5);
    if (w.srcThrow == 2) throw PlainError{w.v};
}
static Task<int32_t> innerTask(World &w, int32_t x) { Tracked l(x); co_await w.inner; w.innerDone = true; if (w.cbThrow) throw BaseError(x); co_return l.get(); }
static Task<> innerVoid(World &w, int32_t x) { Tracked l(x); co_await w.inner; w.innerDone = true; if (w.cbThrow) throw BaseError(x); }
static void cbCalled(World &w) { vf::check(w.srcDone, "the callback runs after the task finished"); w.cb++; vf::check(w.cb == 1, "the callback runs exactly once"); }

struct Result { int times = 0; bool value = false; unsigned kind = 0; int32_t v = 0, r = 0; };
template<typename T>
static Task<> observe(Result &o, Task<T> t) {
    try {
        if constexpr (std::is_void_v<T>) co_await t; else o.r = co_await t;
        o.value = true;
    } catch (const DerivedError &e) { o.kind = 1; o.v = e.v; }
    catch (const PlainError &e) { o.kind = 2; o.v = e.v; }
    catch (const BaseError &e) { o.kind = 3; o.v = e.v; }
    catch (int32_t e) { o.kind = 4; o.v = e; }
    o.times++;
}
static Task<> observeRef(Result &o, Task<> &t) {
    try { co_await t; o.value = true; }
    catch (const DerivedError &e) { o.kind = 1; o.v = e.v; }
    catch (const PlainError &e) { o.kind = 2; o.v = e.v; }
    o.times++;
}
// captured state must live as long as the continuation does
template<bool Void, typename S, typename F>
static auto attach(World &w, S &&src, F &&f) {
    if (w.hasErr) {
        auto h = [&w, cap = Tracked(11)](const std::exception &e) {
            cap.use(); w.err++;
            auto d = dynamic_cast<const DerivedError *>(&e);
            vf::check(d && d->v == w.v && d->w == 5, "the error handler gets the task's exception");
            vf::check(w.err == 1, "the error handler runs once");
            if (w.errThrow) throw w.v;
        };
        return std::forward<S>(src).then(std::forward<F>(f), std::move(h));
    }
    return std::forward<S>(src).then(std::forward<F>(f));
}
template<typename T>
static void finish(World &w, Task<T> t, int kind, bool isVoidSrc, bool drop) {
    Result o;
    bool taskResult = kind == CbTask || kind == CbNoArgTask || kind == CbTaskVoid;
    Result other; // somebody else who awaits the named task
    std::optional<Task<>> second;
    auto ready = [&] { if (w.namedVoid || w.named) vf::check((w.namedVoid ? w.namedVoid->isReady() : w.named->isReady()) == w.srcDone, "the named task is ready when its own coroutine has finished"); };
    ready();
    if (w.namedVoid && vf::flag("somebody_else_awaits")) second.emplace(observeRef(other, *w.namedVoid));
    if (drop) { { Task<T> gone = std::move(t); } w.src.fire(); w.inner.fire(); }
    else {
        bool late = vf::flag("await_late");
        std::optional<Task<>> c;
        if (late) { w.src.fire(); if (w.srcThrow == 0 && taskResult && !w.inner.open) vf::check(!t.isReady(), "the returned task waits for the task the callback returned"); w.inner.fire(); vf::check(t.isReady(), "the returned task finishes"); c.emplace(observe<T>(o, std::move(t))); }
        else {
            c.emplace(observe<T>(o, std::move(t)));
            if (!w.src.open) vf::check(o.times == 0 && w.cb == 0 && w.err == 0, "nothing happens before the task finished");
            w.src.fire();
            if (w.srcThrow == 0 && taskResult && !w.inner.open) vf::check(o.times == 0, "the returned task waits for the task the callback returned");
            w.inner.fire();
        }
        vf::check(o.times == 1, "the returned task finishes once");
    }
    ready();
    if (second) vf::check(other.times == 1 && other.value == !w.srcThrow && other.kind == w.srcThrow && (!w.srcThrow || other.v == w.v), "whoever else awaits the named task gets its outcome");
    bool handled = w.srcThrow == 1 && w.hasErr;
    vf::check(w.cb == (w.srcThrow ? 0 : 1), "the callback runs exactly when the task succeeded");
    vf::check(w.err == (handled ? 1 : 0), "the error handler runs exactly when the task failed");
    if (w.cb && !isVoidSrc && kind != CbNoArg && kind != CbNoArgTask) vf::check(w.cbArg == w.v, "the callback gets the task's value");
    if (taskResult && w.cb) vf::check(w.innerDone, "the callback's task ran to completion");
    if (!drop) {
        if (w.srcThrow == 0) {
            if (w.cbThrow) vf::check(o.kind == 3 && o.v == w.v, "the callback's exception propagates");
            else { vf::check(o.value, "the returned task finishes with the callback's result"); if constexpr (!std::is_void_v<T>) vf::check(o.r == w.v, "the returned task finishes with the callback's result"); }
        } else if (handled) {
            if (w.errThrow) vf::check(o.kind == 4 && o.v == w.v, "the error handler's exception propagates");
            else { vf::check(o.value, "a handled failure finishes the returned task"); if constexpr (!std::is_void_v<T>) vf::check(o.r == 0, "a handled failure yields a default value"); }
        } else vf::check(!o.value && o.kind == w.srcThrow && o.v == w.v, "an unhandled failure propagates");
        vf::log("kind", o.kind);
    }
    vf::reach(w.srcThrow ? "failed" : "succeeded");
}
template<bool Void, typename S>
static void run(World &w, S &&src, bool drop) {
    int kind = vf::choice("callback", CbCount);
    auto val = [&w](int32_t x) { if (w.cbThrow) throw BaseError(x); return x; };
    if constexpr (Void) {
        if (kind == CbPlain || kind == CbTask || kind == CbVoid) vf::skip();
        switch (kind) {
        case CbNoArg: finish<int32_t>(w, attach<Void>(w, std::forward<S>(src), [&w, val, cap = Tracked(1)] { cap.use(); cbCalled(w); return val(w.v); }), kind, Void, drop); break;
        case CbNoArgTask: finish<int32_t>(w, attach<Void>(w, std::forward<S>(src), [&w, cap = Tracked(1)]() -> Task<int32_t> { cap.use(); cbCalled(w); return innerTask(w, w.v); }), kind, Void, drop); break;
        case CbTaskVoid: finish<void>(w, attach<Void>(w, std::forward<S>(src), [&w, cap = Tracked(1)]() -> Task<> { cap.use(); cbCalled(w); return innerVoid(w, w.v); }), kind, Void, drop); break;
        }
    } else switch (kind) {
        case CbPlain: finish<int32_t>(w, attach<Void>(w, std::forward<S>(src), [&w, val, cap = Tracked(1)](Tracked t) { cap.use(); cbCalled(w); w.cbArg = t.get(); return val(t.get()); }), kind, Void, drop); break;
        case CbVoid: finish<void>(w, attach<Void>(w, std::forward<S>(src), [&w, val, cap = Tracked(1)](const Tracked &t) { cap.use(); cbCalled(w); w.cbArg = t.get(); val(t.get()); }), kind, Void, drop); break;
        case CbTask: finish<int32_t>(w, attach<Void>(w, std::forward<S>(src), [&w, cap = Tracked(1)](Tracked t) -> Task<int32_t> { cap.use(); cbCalled(w); w.cbArg = t.get(); return innerTask(w, t.get()); }), kind, Void, drop); break;
        case CbNoArg: finish<int32_t>(w, attach<Void>(w, std::forward<S>(src), [&w, val, cap = Tracked(1)] { cap.use(); cbCalled(w); return val(w.v); }), kind, Void, drop); break;
        case CbNoArgTask: finish<int32_t>(w, attach<Void>(w, std::forward<S>(src), [&w, cap = Tracked(1)]() -> Task<int32_t> { cap.use(); cbCalled(w); return innerTask(w, w.v); }), kind, Void, drop); break;
        case CbTaskVoid: finish<void>(w, attach<Void>(w, std::forward<S>(src), [&w, cap = Tracked(1)](Tracked &&t) -> Task<> { cap.use(); cbCalled(w); w.cbArg = t.get(); return innerVoid(w, t.get()); }), kind, Void, drop); break;
    }
}
static void setup(World &w) {
    w.v = vf::i32("value");
    w.srcThrow = vf::choice("source_throws", 3);
    if (w.srcThrow == 0) w.cbThrow = vf::flag("callback_throws");
    w.hasErr = vf::flag("has_error_handler");
    if (w.srcThrow == 1 && w.hasErr) w.errThrow = vf::flag("handler_throws");
    w.src.open = vf::flag("source_open");
    if (w.srcThrow == 0) w.inner.open = vf::flag("inner_open");
}
HARNESS(h_c04_then_temporary) {
    Scope scope;
    { World w; setup(w); bool drop = vf::flag("drop_returned"); if (vf::flag("void_source")) run<true>(w, sourceVoid(w), drop); else run<false>(w, source(w), drop); }
    scope.finish();
}
// then() on a named task: the continuation refers to the task, which the documentation leaves to the caller to keep
HARNESS(h_c04_then_named) {
    Scope scope;
    { World w; setup(w); bool drop = vf::flag("drop_returned"); if (vf::flag("void_source")) { auto s = sourceVoid(w); w.namedVoid = &s; run<true>(w, s, drop); } else { auto s = source(w); w.named = &s; run<false>(w, s, drop); } }
    scope.finish();
}
// chains of continuations
HARNESS(h_c04_chain) {
    Scope scope;
    {
        World w; w.v = vf::i32("value");
        w.srcThrow = vf::choice("source_throws", 2);
        int failAt = vf::choice("fails_at", 3); // 0 none
        bool t1 = vf::flag("first_returns_task");
        w.src.open = vf::flag("source_open"); w.inner.open = vf::flag("inner_open");
        int n1 = 0, n2 = 0, n3 = 0, e3 = 0;
        {
            auto first = [&](Task<Tracked> s) -> Task<int32_t> {
                if (t1) return std::move(s).then([&](Tracked t) -> Task<int32_t> { n1++; if (failAt == 1) throw BaseError(1); return innerTask(w, t.get()); });
                return std::move(s).then([&](Tracked t) { n1++; if (failAt == 1) throw BaseError(1); return t.get(); });
            };
            auto t = first(source(w)).then([&](int32_t x) { n2++; vf::check(x == w.v, "the value passes along the chain"); if (failAt == 2) throw BaseError(2); return int64_t(x); })
                         .then([&](int64_t x) { n3++; vf::check(x == w.v, "the value passes along the chain"); }, [&](const std::exception &) { e3++; });
            if (vf::flag("drop")) { auto gone = std::move(t); }
            w.src.fire(); w.inner.fire();
        }
        bool ok1 = !w.srcThrow, ok2 = ok1 && failAt != 1, ok3 = ok2 && failAt != 2;
        vf::check(n1 == (ok1 ? 1 : 0) && n2 == (ok2 ? 1 : 0) && n3 == (ok3 ? 1 : 0), "each continuation runs exactly when everything before it succeeded");
        vf::check(e3 == (ok3 ? 0 : 1), "the error reaches the handler at the end of the chain");
        vf::reach("done");
    }
    scope.finish();
}
// long chains of continuations
HARNESS(h_c04_many) {
    static const int N = BOUND(200, 1100);
    Scope scope;
    {
        World w;
        w.v = vf::i32("value"); w.srcThrow = vf::choice("source_throws", 3);
        const bool handler = vf::flag("handler_at_the_end");
        if (vf::flag("finished_before")) w.src.fire();
        int calls = 0, errs = 0;
        Gate inner; if (vf::flag("inner_open")) inner.open = true;
        auto t = source(w).then([](Tracked x) { return x.get(); });
        for (int i = 0; i < N; i++) {
            if (i & 1) t = t.then([&calls, &inner, i](int32_t x) -> Task<int32_t> { vf::check(calls == i, "the continuations run in order"); calls++; if (i % 20 == 1) co_await inner; co_return x; });
            else t = t.then([&calls, i](int32_t x) { vf::check(calls == i, "the continuations run in order"); calls++; return x; });
        }
        if (handler) t = t.then([](int32_t x) { return x; }, [&errs](const std::exception &) { errs++; });
        w.src.fire();
        while (inner.pending()) inner.pulse();
        Result o;
        auto c = observe<int32_t>(o, std::move(t));
        vf::check(o.times == 1, "the last continuation's task finishes");
        vf::check(calls == (w.srcThrow ? 0 : N), "every continuation runs once, if the task succeeded");
        const bool handled = handler && w.srcThrow == 1;
        vf::check(errs == handled, "the error handler runs once, if the task failed");
        if (!w.srcThrow) vf::check(o.value && o.r == w.v, "the last continuation's task has the value");
        else if (handled) vf::check(o.value && o.r == 0, "a handled failure yields a default value");
        else vf::check(!o.value && o.kind == w.srcThrow && o.v == w.v, "an unhandled failure propagates");
        vf::reach(w.srcThrow ? "failed" : "done");
    }
    scope.finish();
}
