// C17: QCoro::moveToThread()
#include "common.h"
#include "vqt.h"
#include <qcorothread.h>
#include <qcorotask.h>
using QCoro::Task;

static const unsigned THREADS = 3; // 0 is the main thread
struct World : vqt::Env {
    QThread *th[THREADS] = {};
    bool startHere[THREADS] = {}, startElsewhere[THREADS] = {}, stepping[THREADS] = {};
    World() {
        vqt::env = this;
        vqt::nestedThreads = true;
        th[0] = QThread::currentThread();
    }
    ~World() override {
        vqt::env = nullptr;
        vqt::nestedThreads = false;
        for (unsigned i = 1; i < THREADS; i++) if (th[i]) {
            th[i]->exit();
            while (vqt::threadCanStep(th[i])) vqt::threadStep(th[i]);
            delete th[i];
        }
    }
    // a thread that runs already, is started later by the main thread or by something else, or never, or that is over
    void add(unsigned i, bool now = false) {
        th[i] = new QThread;
        unsigned c = now ? 0 : vf::choice("thread_runs", 5);
        if (c == 0) { th[i]->start(); if (now || vf::flag("in_run")) vqt::threadStep(th[i]); }
        if (c == 4) { th[i]->start(); th[i]->exit(); while (vqt::threadCanStep(th[i])) vqt::threadStep(th[i]); } // over already
        startHere[i] = c == 1; startElsewhere[i] = c == 2;
    }
    bool running(unsigned i) { return i == 0 || vqt::threadStage(th[i]) == 2 || vqt::threadStage(th[i]) == 1; }
    unsigned acts() override { unsigned n = 0; for (unsigned i = 1; i < THREADS; i++) n += startHere[i]; return n; }
    void act(unsigned k) override {
        for (unsigned i = 1; i < THREADS; i++) if (startHere[i] && k-- == 0) { startHere[i] = false; th[i]->start(); return; }
    }
    unsigned asyncs() override {
        unsigned n = 0;
        for (unsigned i = 1; i < THREADS; i++) if (th[i]) n += startElsewhere[i] + (!stepping[i] && vqt::threadCanStep(th[i]));
        return n;
    }
    void async(unsigned k) override {
        for (unsigned i = 1; i < THREADS; i++) if (th[i]) {
            if (startElsewhere[i] && k-- == 0) { startElsewhere[i] = false; th[i]->start(); return; }
            if (!stepping[i] && vqt::threadCanStep(th[i]) && k-- == 0) {
                stepping[i] = true;
                vqt::threadStep(th[i]);
                stepping[i] = false;
                return;
            }
        }
    }
};
struct Hops {
    World &w;
    unsigned n;
    unsigned target[4];
    int at = 0; // hops completed
    bool done = false;
    vqt::ThreadData *data(unsigned i) { return i == 0 ? vqt::mainThread() : vqt::dataOf(w.th[i]); }
};
static Task<Tracked> hop(Hops &h, Tracked arg, int32_t v) {
    Tracked local(v);
    for (unsigned i = 0; i < h.n; i++) {
        vqt::ThreadData *before = i == 0 ? vqt::mainThread() : h.data(h.target[i - 1]);
        vf::check(vqt::current() == before, "the code before the await runs on the thread it was on");
        co_await QCoro::moveToThread(h.w.th[h.target[i]]);
        h.at++;
        vf::check(h.at == int(i) + 1, "each await of moveToThread() continues once");
        vf::check(vqt::current() == h.data(h.target[i]), "the coroutine continues on the requested thread");
        vf::check(QThread::currentThread() == h.w.th[h.target[i]], "QThread::currentThread() is the requested thread");
        vf::check(h.w.running(h.target[i]), "the coroutine continues only on a running thread");
    }
    vf::check(local.get() == v && arg.get() == v, "locals and arguments survive the moves");
    vf::check(!h.done, "the coroutine ends once");
    h.done = true;
    co_return Tracked(v);
}
static void drive(int max) {
    for (int i = 0; vqt::turn() || vqt::othersGoOn(); i++) if (i >= max) vf_bound_("event loop turns");
}
static bool reachable(Hops &h, unsigned k) { for (unsigned i = 0; i < k; i++) if (!h.w.running(h.target[i])) return false; return true; }
static void final(Hops &h) {
    unsigned k = 0;
    while (k < h.n && reachable(h, k + 1)) k++;
    vf::check(h.at == int(k), "the coroutine gets as far as the running threads let it");
    vf::check(h.done == (k == h.n), "the coroutine ends when all the threads run");
}
static void hops(unsigned threads, bool now, unsigned most) {
    Scope scope;
    {
        World w;
        for (unsigned i = 1; i <= threads; i++) w.add(i, now);
        Hops h{w, 1 + vf::choice("hops", most), {}};
        for (unsigned i = 0; i < h.n; i++) h.target[i] = vf::choice("target", threads + 1);
        int32_t v = vf::i32("value");
        {
            auto t = hop(h, Tracked(v), v);
            bool drop = vf::flag("dropped");
            if (drop) { auto gone = std::move(t); }
            drive(16);
            final(h);
            if (!drop) {
                vf::check(t.isReady() == h.done, "the task is ready when the coroutine ended");
                if (h.done) {
                    bool got = false;
                    auto p = [](Task<Tracked> &t, bool &got, int32_t v) -> Probe { Tracked r = co_await t; got = r.get() == v; }(t, got, v);
                    vf::check(got, "the result arrives unchanged");
                }
            }
        }
        vf::log("hops", h.at);
        vf::reach(h.done ? "done" : "waiting");
        if (!h.done) vf_end_();
    }
    scope.finish();
}
HARNESS(h_c17_one_thread) { hops(1, false, BOUND(2, 3)); }
HARNESS(h_c17_two_threads) { hops(2, false, 1); }
HARNESS(h_c17_running) { hops(2, true, BOUND(2, 3)); }
// two coroutines move at the same time
HARNESS(h_c17_two) {
    Scope scope;
    {
        World w;
        w.add(1);
        Hops a{w, 1 + vf::choice("hops_a", 2), {}}, b{w, 1, {}};
        for (unsigned i = 0; i < a.n; i++) a.target[i] = vf::choice("target_a", 2);
        for (unsigned i = 0; i < b.n; i++) b.target[i] = vf::choice("target_b", 2);
        int32_t v = vf::i32("value"), u = vf::i32("other_value");
        {
            auto s = hop(a, Tracked(v), v);
            auto t = hop(b, Tracked(u), u);
            drive(16);
            final(a); final(b);
            vf::check(s.isReady() == a.done && t.isReady() == b.done, "the tasks are ready when the coroutines ended");
        }
        vf::reach(a.done && b.done ? "done" : "waiting");
        if (!a.done || !b.done) vf_end_();
    }
    scope.finish();
}
// another coroutine awaits the one that moves, and takes its outcome where it ended
static Task<> outer(Hops &h, int32_t v, bool &over) {
    Tracked r = co_await hop(h, Tracked(v), v);
    vf::check(r.get() == v, "the awaiting coroutine receives the value");
    vf::check(h.done && (vqt::current() == h.data(h.target[h.n - 1]) || vqt::current() == vqt::mainThread()), "the awaiting coroutine continues where the awaited one ended, or never left");
    co_await QCoro::moveToThread(h.w.th[0]);
    vf::check(vqt::current() == vqt::mainThread(), "the awaiting coroutine moves back");
    over = true;
}
HARNESS(h_c17_nested) {
    Scope scope;
    {
        World w;
        w.add(1);
        Hops h{w, 1 + vf::choice("hops", 2), {}};
        for (unsigned i = 0; i < h.n; i++) h.target[i] = vf::choice("target", 2);
        int32_t v = vf::i32("value");
        bool over = false;
        { auto t = outer(h, v, over); drive(16); final(h); vf::check(over == h.done, "the outer coroutine ends too"); vf::check(t.isReady() == over, "the outer task is ready when it ended"); }
        vf::reach(over ? "done" : "waiting");
        if (!over) vf_end_();
    }
    scope.finish();
}
// many moves
static Task<> toAndFro(World &w, int n, int32_t v, int &at) {
    Tracked local(v);
    for (int i = 0; i < n; i++) {
        QThread *to = w.th[(i + 1) % 2];
        co_await QCoro::moveToThread(to);
        vf::check(QThread::currentThread() == to, "the coroutine continues on the requested thread");
        at++;
    }
    vf::check(local.get() == v, "locals survive the moves");
}
HARNESS(h_c17_many) {
    static const int N = BOUND(160, 600);
    Scope scope;
    {
        World w;
        w.th[1] = new QThread; w.th[1]->start(); vqt::threadStep(w.th[1]);
        w.stepping[1] = true; // runs only when the main thread has nothing to do: one schedule
        int at = 0;
        {
            auto t = toAndFro(w, N, vf::i32("value"), at);
            for (int i = 0; i < 4 * N && at < N; i++) { if (!vqt::turn()) vqt::threadStep(w.th[1]); }
            vf::check(at == N && t.isReady(), "each await of moveToThread() continues once");
        }
        w.stepping[1] = false;
        vf::reach("done");
    }
    scope.finish();
}
