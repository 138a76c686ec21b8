// C05: LazyTask
#include "common.h"
#include <qcorolazytask.h>
#include <optional>
using QCoro::Task;
using QCoro::LazyTask;

struct World {
    Gate g;
    int32_t v = 0;
    bool thr = false;
    int started = 0, finished = 0, resumed = 0, awaiters = 0;
};
static LazyTask<Tracked> lazy(World &w, Tracked arg) {
    w.started++;
    vf::check(w.started == 1, "the body of a lazy task runs once");
    Tracked local(arg.get());
    co_await w.g;
    w.finished++;
    if (w.thr) throw BaseError(local.get());
    co_return local;
}
static LazyTask<> lazyVoid(World &w, Tracked arg) {
    w.started++;
    vf::check(w.started == 1, "the body of a lazy task runs once");
    Tracked local(arg.get());
    co_await w.g;
    w.finished++;
    if (w.thr) throw BaseError(local.get());
}
template<typename L>
static Task<> awaiter(World &w, L &t, bool takesValue) {
    Tracked local(3);
    w.awaiters++;
    try {
        if constexpr (std::is_void_v<typename L::value_type>) { co_await t; vf::check(!w.thr, "the awaiter gets the outcome"); }
        else { auto r = co_await t; vf::check(!w.thr, "the awaiter gets the outcome"); if (takesValue) vf::check(r.get() == w.v, "the awaiter gets the value"); }
    } catch (const BaseError &e) { vf::check(w.thr && e.v == w.v, "the awaiter gets the exception"); }
    vf::check(w.finished == 1, "the awaiter continues after the lazy task finished");
    local.use();
    w.resumed++;
}
// LazyTask can be neither copied nor moved: it is created in place
template<typename L, typename F> struct InPlace { F f; operator L() const { return f(); } };
template<typename L, typename F> static InPlace<L, F> inPlace(F f) { return {f}; }
template<typename L, typename Make>
static Task<> awaitTemporary(World &w, Make make) {
    Tracked local(3);
    w.awaiters++;
    try {
        if constexpr (std::is_void_v<typename L::value_type>) { co_await make(); vf::check(!w.thr, "the awaiter gets the outcome"); }
        else { auto r = co_await make(); vf::check(!w.thr, "the awaiter gets the outcome"); vf::check(r.get() == w.v, "the awaiter gets the value"); }
    } catch (const BaseError &e) { vf::check(w.thr && e.v == w.v, "the awaiter gets the exception"); }
    vf::check(w.finished == 1, "the awaiter continues after the lazy task finished");
    w.resumed++;
}
template<typename L, typename Make>
static void histories(World &w, Make make) {
    std::optional<L> t;
    bool awaited = false;
    if (vf::flag("temporary")) {
        awaited = true;
        auto a = awaitTemporary<L>(w, make);
        vf::check(w.started == 1, "awaiting starts the body at once");
        vf::check(a.isReady() == w.g.open, "the awaiter waits for the lazy task");
    } else {
        t.emplace(inPlace<L>(make));
        vf::check(w.started == 0, "the body does not start before the task is awaited");
        for (int step = 0; step < BOUND(6, 8); step++) {
            unsigned op = vf::choice("op", 4);
            if (op == 3) break;
            switch (op) {
            case 0: if (!t) vf::skip(); t.reset(); break;                                                              // drop
            case 1: { if (!t || w.awaiters == 4) vf::skip(); bool first = !awaited; awaited = true; auto a = awaiter<L>(w, *t, first); vf::check(w.started == 1, "awaiting starts the body at once"); break; }
            case 2: if (!w.g.pending()) vf::skip(); w.g.fire(); break;
            }
            vf::check(w.started == (awaited ? 1 : 0), "the body runs exactly when the task is awaited");
            if (t) vf::check(t->isReady() == (w.finished == 1), "a lazy task is ready once its body finished");
        }
    }
    w.g.fire();
    vf::check(w.started == (awaited ? 1 : 0) && w.finished == w.started, "an awaited lazy task runs to completion, others do not run");
    vf::check(w.resumed == w.awaiters, "every awaiter continues exactly once");
    vf::reach(awaited ? "awaited" : "never awaited");
    vf::log("awaiters", w.awaiters);
}
HARNESS(h_c05_histories) {
    Scope scope;
    {
        World w; w.v = vf::i32("value"); w.thr = vf::flag("throws"); w.g.open = vf::flag("open");
        if (vf::flag("void_task")) histories<LazyTask<>>(w, [&w] { return lazyVoid(w, Tracked(w.v)); });
        else histories<LazyTask<Tracked>>(w, [&w] { return lazy(w, Tracked(w.v)); });
    }
    scope.finish();
}
// continuations: lazy ones keep the chain lazy, an eager one starts it
static LazyTask<int32_t> lazyInner(World &w, int32_t x, Gate &g) { w.awaiters++; co_await g; co_return x; }
static Task<int32_t> eagerInner(World &w, int32_t x, Gate &g) { w.awaiters++; co_await g; co_return x; }
template<typename T>
static Probe take(T &t, int32_t &out, unsigned &kind) { try { out = co_await t; kind = 1; } catch (const BaseError &e) { kind = 2; out = e.v; } }
HARNESS(h_c05_then) {
    Scope scope;
    {
        World w; Gate g2;
        w.v = vf::i32("value"); w.thr = vf::flag("throws"); w.g.open = vf::flag("open"); g2.open = vf::flag("inner_open");
        int kind = vf::choice("continuation", 3);
        bool await = vf::flag("await"), named = vf::flag("named");
        bool handler = vf::flag("error_handler");
        int cb = 0, errs = 0; int32_t out = 0; unsigned got = 0;
        auto go = [&](auto &&t, bool lazyChain) {
            if (lazyChain) vf::check(w.started == 0 && cb == 0, "a chain of lazy continuations does not start before it is awaited");
            else vf::check(w.started == 1, "an eager continuation starts the lazy task");
            if (await) {
                Probe p = take(t, out, got);
                vf::check(w.started == 1, "awaiting starts the chain");
                w.g.fire(); g2.fire();
                if (w.thr && handler) vf::check(got == 1 && out == 0, "a handled failure yields a default value");
                else vf::check(got == (w.thr ? 2u : 1u) && out == w.v, "the chain delivers the outcome");
                vf::check(errs == (w.thr && handler ? 1 : 0), "the error handler runs once, when the task failed");
            } else {
                w.g.fire(); g2.fire();
                if (lazyChain) vf::check(w.started == 0 && cb == 0, "a lazy chain that is not awaited never runs");
                else vf::check(w.finished == 1 && cb == (w.thr ? 0 : 1), "an eager continuation runs without being awaited");
            }
            if (await) vf::check(cb == (w.thr ? 0 : 1), "the continuation runs once, when the task succeeded");
        };
        auto c0 = [&, cap = Tracked(2)](Tracked t) -> Task<int32_t> { cap.use(); cb++; return eagerInner(w, t.get(), g2); };
        auto c1 = [&, cap = Tracked(2)](Tracked t) -> LazyTask<int32_t> { cap.use(); cb++; return lazyInner(w, t.get(), g2); };
        auto c2 = [&, cap = Tracked(2)](Tracked t) { cap.use(); cb++; return t.get(); };
        auto eh = [&, cap = Tracked(4)](const std::exception &) { cap.use(); errs++; };
        auto attach = [&](auto &&src, auto &&c) { return handler ? std::forward<decltype(src)>(src).then(std::move(c), std::move(eh)) : std::forward<decltype(src)>(src).then(std::move(c)); };
        if (named) {
            auto src = lazy(w, Tracked(w.v));
            switch (kind) {
            case 0: { auto t = attach(src, std::move(c0)); go(t, false); break; }
            case 1: { auto t = attach(src, std::move(c1)); go(t, true); break; }
            case 2: { auto t = attach(src, std::move(c2)); go(t, true); break; }
            }
        } else switch (kind) {
            case 0: { auto t = attach(lazy(w, Tracked(w.v)), std::move(c0)); go(t, false); break; }
            case 1: { auto t = attach(lazy(w, Tracked(w.v)), std::move(c1)); go(t, true); break; }
            case 2: { auto t = attach(lazy(w, Tracked(w.v)), std::move(c2)); go(t, true); break; }
        }
        vf::reach("done");
    }
    scope.finish();
}
// empty lazy tasks
static Probe probe(LazyTask<int32_t> &t, bool &r) { Tracked l(1); co_await t; r = true; }
static Probe probeV(LazyTask<> &t, bool &r) { Tracked l(1); co_await t; r = true; }
HARNESS(h_c05_empty) {
    Scope scope;
    {
        World w; bool r = false;
        if (vf::flag("void_task")) { LazyTask<> t; Probe p = probeV(t, r); vf::check(!r && !p.done(), "awaiting an empty lazy task suspends the awaiter for ever"); }
        else { LazyTask<int32_t> t; Probe p = probe(t, r); vf::check(!r && !p.done(), "awaiting an empty lazy task suspends the awaiter for ever"); }
        vf::reach("done");
    }
    scope.finish();
}
// deep chains of lazy tasks
static LazyTask<int32_t> deep(Gate &g, int n, int32_t v, int &started) {
    started++;
    Tracked local(v);
    if (n == 0) { co_await g; co_return v; }
    int32_t r = co_await deep(g, n - 1, v, started);
    vf::check(local.get() == v, "locals survive the wait");
    co_return r;
}
HARNESS(h_c05_deep) {
    static const int N = BOUND(1100, 1200);
    Scope scope;
    {
        Gate g; int started = 0; int32_t out = 0; unsigned kind = 0;
        const int32_t v = vf::i32("value");
        if (vf::flag("open")) g.open = true;
        auto t = deep(g, N, v, started);
        vf::check(started == 0, "a lazy task does not start before it is awaited");
        Probe p = take(t, out, kind);
        vf::check(started == N + 1, "awaiting starts the chain");
        g.fire();
        vf::check(kind == 1 && out == v, "the chain delivers the outcome");
        vf::reach("done");
    }
    scope.finish();
}
