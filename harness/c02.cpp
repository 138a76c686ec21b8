// C02: every awaiter continues exactly once, after the task finished, in order.
#include "common.h"
#include <qcorotask.h>
#include <optional>
using QCoro::Task;

static const int AW = BOUND(3, 4);
struct World {
    Gate g1, g2;
    bool finished = false;
    int32_t value = 0;
    std::optional<Task<int32_t>> task;
    std::optional<Task<>> chain[4];
    int resumed[9] = {}, started = 0, order = 0;
    bool waited[9] = {};
    int position[9] = {}, waitOrder[9] = {}, waits = 0;
};
static Task<int32_t> subject(World &w, bool susp1, bool susp2, bool thr) {
    if (susp1) co_await w.g1;
    if (susp2) co_await w.g2;
    w.finished = true;
    if (thr) throw BaseError(w.value);
    co_return w.value;
}
static void noteResumed(World &w, int i, int32_t v, bool thrown, bool thr) {
    vf::check(w.finished, "an awaiter continues only after the task's coroutine finished");
    vf::check(w.task ? w.task->isReady() : true, "the task is ready when its awaiter continues");
    w.resumed[i]++;
    vf::check(w.resumed[i] == 1, "an awaiter continues exactly once");
    w.position[i] = w.order++;
    vf::check(thrown == thr, "every awaiter gets the outcome");
    vf::check(v == w.value, "every awaiter gets the outcome");
}
static Task<> awaiter(World &w, int i, int react, bool thr);
static void start(World &w, int react, bool thr) {
    int i = w.started++;
    bool ready = w.task->isReady();
    w.waited[i] = !ready;
    if (!ready) w.waitOrder[i] = w.waits++;
    auto t = awaiter(w, i, react, thr);
    vf::check(w.resumed[i] == (ready ? 1 : 0), "awaiting a finished task continues at once, awaiting an unfinished one suspends");
    vf::check(t.isReady() == ready, "awaiting coroutine is ready when it ran to its end");
}
// react: 0 nothing, 1 drop the awaited handle when resumed, 2 start another awaiter when resumed
static Task<> awaiter(World &w, int i, int react, bool thr) {
    int32_t v = 0; bool thrown = false;
    try { v = co_await *w.task; } catch (const BaseError &e) { v = e.v; thrown = true; }
    noteResumed(w, i, v, thrown, thr);
    if (react == 1) w.task.reset();
    if (react == 2 && w.task) start(w, 0, thr);
}
HARNESS(h_c02_histories) {
    Scope scope;
    {
        World w;
        w.value = vf::i32("value");
        bool s1 = vf::flag("suspends_first"), s2 = vf::flag("suspends_second"), thr = vf::flag("throws");
        w.task.emplace(subject(w, s1, s2, thr));
        vf::check(w.task->isReady() == (!s1 && !s2), "isReady() is true exactly once the coroutine finished");
        int react[4]; int n = 0;
        for (int step = 0; step < BOUND(7, 9); step++) {
            unsigned op = vf::choice("op", 4);
            if (op == 0) {
                if (!w.task || n >= AW || w.started >= 4) vf::skip();
                int r = vf::choice("react", 3);
                react[n++] = r;
                start(w, r, thr);
            } else if (op == 1) {
                if (!w.g1.pending() && !w.g2.pending()) vf::skip();
                if (w.g1.pending()) { w.g1.fire(); } else w.g2.fire();
            } else if (op == 2) {
                if (!w.task) vf::skip();
                w.task.reset();
            } else break;
            if (w.task) vf::check(w.task->isReady() == w.finished, "isReady() is true exactly once the coroutine finished");
        }
        // let the task finish
        w.g1.fire(); w.g2.fire();
        vf::check(w.finished, "the coroutine runs to completion whatever happens to its handles");
        for (int i = 0; i < w.started; i++) vf::check(w.resumed[i] == 1, "every awaiter continues exactly once");
        for (int i = 0; i < w.started; i++) for (int j = 0; j < w.started; j++)
            if (w.waited[i] && w.waited[j] && w.waitOrder[i] < w.waitOrder[j]) vf::check(w.position[i] < w.position[j], "waiters continue in the order in which they began waiting");
        if (w.task) vf::check(w.task->isReady(), "a finished task stays ready");
        if (w.started >= 2) vf::reach("two awaiters");
        vf::log("resumed", w.order);
        w.task.reset();
    }
    scope.finish();
}

// awaiters that own the task, that await through further tasks, and a void task
static Task<> vsubject(Gate &g, bool &fin) { co_await g; fin = true; }
static Task<> owner(Task<> t, bool &fin, int &n) { co_await t; vf::check(fin, "an awaiter continues only after the task's coroutine finished"); n++; }
static Task<> nested(Task<> &t, bool &fin, int &n, int depth) {
    if (depth == 0) co_await t; else co_await nested(t, fin, n, depth - 1);
    vf::check(fin, "an awaiter continues only after the task's coroutine finished");
    n++;
}
HARNESS(h_c02_nested) {
    Scope scope;
    {
        Gate g; bool fin = false; int n = 0, m = 0;
        g.open = vf::flag("open");
        auto t = vsubject(g, fin);
        int d1 = vf::choice("depth1", 4), d2 = vf::choice("depth2", 4);
        auto a = nested(t, fin, n, d1);
        { auto b = nested(t, fin, n, d2); }
        vf::check(a.isReady() == g.open, "the outer task finishes with the inner one");
        bool own = vf::flag("own"); // the last awaiter takes the handle with it
        if (own) { auto o = owner(std::move(t), fin, m); }
        g.fire();
        vf::check(a.isReady(), "the outer task finishes with the inner one");
        vf::check(n == d1 + d2 + 2, "every awaiter continues exactly once");
        vf::check(m == (own ? 1 : 0), "every awaiter continues exactly once");
        vf::reach("done");
    }
    scope.finish();
}
// a crowd of awaiters, some of which leave other work behind
static Task<> one(Task<int32_t> &t, int i, int32_t v, bool thr, int &order) {
    int32_t r = 0; bool threw = false;
    try { r = co_await t; } catch (const BaseError &e) { r = e.v; threw = true; }
    vf::check(order == i, "awaiters continue in the order in which they began to wait");
    order++;
    vf::check(r == v && threw == thr, "every awaiter gets the outcome");
}
HARNESS(h_c02_crowd) {
    static const int N = BOUND(1100, 3000);
    Scope scope;
    {
        World w;
        w.value = vf::i32("value");
        const bool thr = vf::flag("throws");
        Task<int32_t> t = subject(w, true, false, thr);
        int order = 0;
        std::vector<Task<>> all;
        for (int i = 0; i < N; i++) { all.push_back(one(t, i, w.value, thr, order)); vf::check(order == 0 && !all[i].isReady(), "an awaiter of an unfinished task waits"); }
        w.g1.fire();
        vf::check(order == N, "every awaiter continues exactly once");
        for (auto &a : all) vf::check(a.isReady(), "every awaiter runs to its end");
        vf::reach("done");
    }
    scope.finish();
}
