// C12: timers and sleeping
#include "common.h"
#include "vqt.h"
#include <qcorotimer.h>
#include <qcorotask.h>
#include <ratio>
using QCoro::Task;
using std::chrono::milliseconds;

// --- waiting for a QTimer ---------------------------------------------------------
enum How { ByRef, ByPtr, ByWrapper, HowCount };
struct World : vqt::Env {
    QObject owner; QTimer *t = nullptr;
    int steps = 0; // things the environment may still do
    bool mayDestroy = false;
    // the reference: when the timer will next time out (-1: it will not)
    int64_t next = -1, interval = 0;
    bool single = false;
    int resumed[2] = {}; int n = 0;
    int64_t at[2] = {};
    ~World() override { vqt::env = nullptr; delete t; }
    unsigned acts() override { return t && steps > 0 ? 2 + (mayDestroy ? 1 : 0) : 0; }
    void act(unsigned i) override {
        steps--;
        switch (i) {
        case 0: t->stop(); next = -1; break;
        case 1: interval = vf::range("restart_interval", 0, 100000); t->start(int(interval)); next = vqt::now() + interval; break;
        case 2: delete t; t = nullptr; next = -1; break;
        }
    }
};
static Task<> wait(World &w, How how, int id) {
    switch (how) {
    case ByRef: co_await *w.t; break;
    case ByPtr: co_await w.t; break;
    default: co_await TEMPORARY(qCoro(w.t).waitForTimeout()); break;
    }
    w.resumed[id]++;
    w.at[id] = vqt::now();
    vf::check(w.resumed[id] == 1, "the waiter is resumed once");
}
static void setup(World &w) {
    w.t = new QTimer(vf::flag("owned") ? &w.owner : nullptr);
    w.interval = vf::range("interval", 0, 0x7fffffff);
    w.single = vf::flag("single_shot");
    w.t->setSingleShot(w.single);
    w.t->setInterval(int(w.interval));
    w.t->setTimerType(Qt::TimerType(vf::range32("type", 0, 2)));
    // a timer that has been waited for, is running, was stopped or never started
    switch (vf::choice("state", 4)) {
    case 0: break;
    case 1: w.t->start(); w.next = vqt::now() + w.interval; break;
    case 2: w.t->start(); w.t->stop(); break;
    case 3: w.t->start(); vqt::turn(); vf::check(vqt::now() == 1000 + w.interval, "the timer timed out"); if (!w.single) w.next = vqt::now() + w.interval; break;
    }
}
static int ticks;
HARNESS(h_c12_wait) {
    Scope scope; bool done;
    {
        World w; vqt::env = &w;
        setup(w);
        How how = How(vf::choice("how", HowCount));
        bool active = w.t->isActive();
        auto a = wait(w, how, 0);
        vf::check(active != a.isReady(), "waiting for an inactive timer ends at once, for an active one it does not");
        if (active) {
            bool two = vf::flag("second_waiter");
            std::optional<Task<>> b;
            if (two) b.emplace(wait(w, How(vf::choice("how2", HowCount)), 1));
            int64_t due = w.next;
            vqt::turn();
            if (how == ByWrapper || two) vqt::deliverAll();
            vf::check(w.resumed[0] == 1 && w.at[0] == due, "the waiter resumes at the next timeout");
            if (two) vf::check(w.resumed[1] == 1 && w.at[1] == due, "every waiter resumes at the next timeout");
            w.t->stop();
        }
        vqt::run(6);
        done = w.resumed[0] == 1;
        vf::check(vqt::connections(w.t) == 0, "no connection is left behind");
        vf::reach(active ? "active" : "inactive");
    }
    if (done) scope.finish();
}
// the timer is stopped, restarted or destroyed while it is waited for
HARNESS(h_c12_interference) {
    Scope scope; bool done;
    {
        World w; vqt::env = &w;
        w.mayDestroy = vf::flag("may_destroy");
        w.t = new QTimer;
        w.interval = vf::range("interval", 0, 100000);
        w.t->setSingleShot(vf::flag("single_shot"));
        w.t->start(int(w.interval)); w.next = vqt::now() + w.interval;
        int fired = 0; int64_t firedAt = 0;
        QObject::connect(w.t, &QTimer::timeout, w.t, [&] { if (!fired++) firedAt = vqt::now(); });
        w.steps = BOUND(2, 3);
        How how = How(vf::choice("how", HowCount));
        auto a = wait(w, how, 0);
        for (int i = 0; i < 8 && w.resumed[0] == 0 && vqt::turn(); i++) {
            if (w.resumed[0] == 0 && fired) { vqt::deliverAll(); if (how == ByWrapper || w.t) vf::check(w.resumed[0] == 1, "a timeout resumes the waiter"); }
        }
        w.steps = 0;
        vf::check(w.resumed[0] == (fired ? 1 : 0), "the waiter resumes exactly if the timer timed out");
        if (fired) vf::check(w.at[0] == firedAt, "the waiter resumes at the timeout");
        if (w.t) w.t->stop();
        vqt::run(6);
        done = w.resumed[0];
        vf::reach(done ? "fired" : w.t ? "stopped" : "destroyed");
    }
    if (done) scope.finish();
}
// timers that are gone before the wait starts
HARNESS(h_c12_gone) {
    Scope scope;
    {
        World w; vqt::env = &w;
        w.t = new QTimer;
        if (vf::flag("started")) w.t->start(10);
        auto wrapped = qCoro(w.t);
        delete w.t; w.t = nullptr;
        int n = 0;
        const bool null = vf::flag("null"); // no timer at all
        auto body = [](auto &wrapped, bool null, int &n) -> Task<> { if (null) { QTimer *none = nullptr; co_await none; } else co_await wrapped.waitForTimeout(); n++; };
        auto t = body(wrapped, null, n);
        vf::check(n == 1 && t.isReady(), "waiting for a destroyed timer ends at once");
        vf::reach("gone");
    }
    scope.finish();
}
// waiting again and again for a repeating timer
HARNESS(h_c12_repeated) {
    Scope scope;
    {
        World w; vqt::env = &w;
        QTimer t;
        int64_t iv = vf::range("interval", 1, 100000);
        t.start(int(iv));
        int n = 0; int64_t t0 = vqt::now();
        bool viaWrapper = vf::flag("wrapper");
        auto body = [&]() -> Task<> { for (int i = 0; i < 4; i++) { if (viaWrapper) co_await TEMPORARY(qCoro(t).waitForTimeout()); else co_await t; n++; vf::check(vqt::now() == t0 + iv * n, "each wait ends at the next timeout"); } };
        { auto task = body(); for (int i = 0; i < 12 && n < 4; i++) vqt::turn(); vf::check(n == 4 && task.isReady(), "every wait ends"); }
        t.stop();
        vf::reach("done");
    }
    scope.finish();
}
// --- sleeping -----------------------------------------------------------------------
// the time slept must be at least the duration, measured exactly
template<typename Rep, typename Period>
static void slept(int64_t ms, Rep count) {
    // ms/1000 >= count*num/den   <=>   ms*den >= count*num*1000
    using R = std::ratio_multiply<Period, std::ratio<1000>>;
    vf::check(int64_t(ms) * R::den >= int64_t(count) * R::num, "a sleep does not end early");
    vf::check(count <= 0 ? ms == 0 : int64_t(ms - 1) * R::den < int64_t(count) * R::num, "a sleep ends at the first moment it may");
}
static int64_t sleeps(Task<> t) {
    int64_t t0 = vqt::now();
    int turns = 0;
    while (!t.isReady() && turns < 6) { if (!vqt::turn()) break; turns++; }
    vf::check(t.isReady(), "the sleeper is resumed");
    vf::check(vqt::timers() == 0, "no timer is left behind");
    return vqt::now() - t0;
}
template<typename Rep, typename Period>
static void sleepOf(int64_t lo, int64_t hi) {
    Rep c = Rep(vf::range("count", lo, hi));
    slept<Rep, Period>(sleeps(QCoro::sleepFor(std::chrono::duration<Rep, Period>(c))), c);
}
HARNESS(h_c12_sleep_for) {
    Scope scope;
    {
        World w; vqt::env = &w;
        switch (vf::choice("unit", 8)) {
        case 0: sleepOf<int64_t, std::milli>(-1000000, 0x7fffffff); vf::reach("ms"); break;
        case 1: sleepOf<int64_t, std::ratio<1>>(-1000000, 2147483); vf::reach("s"); break;
        case 2: sleepOf<int64_t, std::ratio<60>>(-1000, 35791); vf::reach("min"); break;
        case 3: sleepOf<int32_t, std::ratio<3600>>(-1000, 596); vf::reach("h"); break;
        case 4: sleepOf<int64_t, std::micro>(-1000000, 2147483647000); vf::reach("us"); break;
        case 5: sleepOf<int64_t, std::nano>(-1000000, 1000000000000000); vf::reach("ns"); break;
        case 6: sleepOf<int32_t, std::ratio<1, 60>>(-1000, 1000000); vf::reach("frames"); break;
        case 7: sleepOf<int16_t, std::centi>(-1000, 30000); vf::reach("short"); break;
        }
    }
    scope.finish();
}
// sleeps longer than one QTimer can run
HARNESS(h_c12_long_sleep) {
    Scope scope;
    {
        World w; vqt::env = &w;
        switch (vf::choice("unit", 3)) {
        case 0: sleepOf<int64_t, std::milli>(0x7fffffff, 0x1ffffffff); break;
        case 1: sleepOf<int64_t, std::ratio<3600>>(500, 2000); break;
        case 2: sleepOf<int32_t, std::ratio<86400>>(20, 80); break;
        }
        vf::reach("done");
    }
    scope.finish();
}
// floating point durations: concrete samples (the engine has no symbolic floats)
HARNESS(h_c12_sleep_floating) {
    Scope scope;
    {
        World w; vqt::env = &w;
        static const struct { double s; int64_t ms; } c[] = {{0.25, 250}, {1.0, 1000}, {0.0005, 1}, {0.0, 0}, {-2.5, 0}, {1.2345, 1235}, {100000.0, 100000000}};
        auto &x = c[vf::choice("which", 7)];
        vf::check(sleeps(QCoro::sleepFor(std::chrono::duration<double>(x.s))) == x.ms, "a floating point sleep lasts that long");
        vf::reach("done");
    }
    scope.finish();
}
// several sleepers wake up in the order of their times
HARNESS(h_c12_two_sleepers) {
    Scope scope;
    {
        World w; vqt::env = &w;
        int64_t d[3], woke[3] = {}; int order[3], n = 0;
        auto body = [&](int i) -> Task<> { co_await QCoro::sleepFor(milliseconds(d[i])); woke[i]++; order[n++] = i; vf::check(vqt::now() == 1000 + d[i], "each sleeper wakes up at its own time"); };
        for (auto &x : d) x = vf::range("duration", 0, 100000);
        { auto a = body(0), b = body(1), c = body(2); vqt::run(10); }
        for (int i = 0; i < 3; i++) vf::check(woke[i] == 1, "each sleeper wakes up once");
        for (int i = 0; i + 1 < n; i++) vf::check(d[order[i]] <= d[order[i + 1]], "sleepers wake up in the order of their times");
        vf::reach("done");
    }
    scope.finish();
}
// a clock with an epoch and a sub-millisecond phase of its own
struct OddClock {
    using rep = int64_t; using period = std::nano; using duration = std::chrono::duration<rep, period>; using time_point = std::chrono::time_point<OddClock>;
    static constexpr bool is_steady = true;
    static inline int64_t offset = 0;
    static time_point now() noexcept { return time_point(duration(vqt::now() * 1000000 + offset)); }
};
template<typename Clock, typename Dur>
static void until(int64_t lo, int64_t hi) {
    using std::chrono::time_point; using std::chrono::duration_cast;
    Dur base = duration_cast<Dur>(Clock::now().time_since_epoch());
    int64_t off = vf::range("offset", lo, hi);
    time_point<Clock, Dur> when(base + Dur(off));
    bool past = when <= Clock::now();
    auto exact = when - Clock::now();
    int64_t ms = sleeps(QCoro::sleepUntil(when));
    vf::check(Clock::now() >= when, "a sleep until a time ends when the clock has reached it, not before");
    if (past) vf::check(ms == 0, "a sleep until a past time ends at once");
    else vf::check(milliseconds(ms - 1) < exact, "a sleep until a time ends at the first moment it may");
}
HARNESS(h_c12_sleep_until) {
    Scope scope;
    {
        World w; vqt::env = &w;
        using namespace std::chrono;
        switch (vf::choice("clock", 7)) {
        case 0: until<steady_clock, milliseconds>(-100000, 1000000); vf::reach("steady_ms"); break;
        case 1: until<steady_clock, nanoseconds>(-100000000, 1000000000); vf::reach("steady_ns"); break;
        case 2: until<system_clock, milliseconds>(-100000, 1000000); vf::reach("system_ms"); break;
        case 3: until<system_clock, seconds>(-1000, 1000000); vf::reach("system_s"); break;
        case 4: until<system_clock, nanoseconds>(-100000000, 1000000000); vf::reach("system_ns"); break;
        case 5: OddClock::offset = vf::range("phase", -999999999, 999999999); until<OddClock, nanoseconds>(-100000000, 1000000000); vf::reach("odd"); break;
        case 6: OddClock::offset = vf::range("phase", -999999999, 999999999); until<OddClock, milliseconds>(-100000, 1000000); vf::reach("odd_ms"); break;
        }
    }
    scope.finish();
}
// many waits, one after the other and at the same time
static Task<> again(QTimer *t, int n, int &got) { for (int i = 0; i < n; i++) { co_await t; got++; } }
static Task<> sleeps(int64_t ms, int n, int &got) { for (int i = 0; i < n; i++) { const int64_t t0 = vqt::now(); co_await QCoro::sleepFor(milliseconds(ms)); vf::check(vqt::now() - t0 >= ms, "a sleep lasts at least as long as asked"); got++; } }
HARNESS(h_c12_many) {
    static const int N = BOUND(160, 400);
    Scope scope;
    {
        QTimer *t = new QTimer;
        const int64_t ms = vf::range("interval", 1, 100000), t0 = vqt::now();
        int got = 0;
        const unsigned what = vf::choice("what", 3);
        if (what == 0) { t->start(int(ms)); auto c = again(t, N, got); for (int i = 0; i < N; i++) vqt::turn(); vf::check(got == N && c.isReady() && vqt::now() == t0 + N * ms, "every wait ends with the timeout that follows it"); }
        else if (what == 1) { t->start(int(ms)); std::vector<Task<>> all; for (int i = 0; i < N; i++) all.push_back(again(t, 1, got)); vqt::turn(); vqt::deliverAll(); vf::check(got == N && vqt::now() == t0 + ms, "one timeout ends every wait"); }
        else { auto c = sleeps(ms, N, got); for (int i = 0; i < 3 * N && !c.isReady(); i++) vqt::turn(); vf::check(got == N && vqt::now() == t0 + N * ms, "every sleep ends in time"); }
        t->stop();
        vf::check(vqt::connections(t) == 0 && vqt::timers() == 0, "nothing is left behind");
        delete t;
        vf::reach("done");
    }
    scope.finish();
}
