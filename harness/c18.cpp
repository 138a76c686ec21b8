// C18: futures
#include "common.h"
#include "vqt.h"
#include <QPromise>
#include <QException>
#include <qcorofuture.h>
#include <qcorotask.h>
#include <optional>
using QCoro::Task;

struct Problem : QException { // an exception as Qt wants them
    int32_t v;
    explicit Problem(int32_t x) : v(x) {}
    ~Problem() noexcept override {}
    void raise() const override { throw *this; }
    QException *clone() const override { return new Problem(*this); }
};
template<typename T> T make(int32_t v) { return T(v); }
static int32_t num(int32_t v) { return v; }
static int32_t num(const Tracked &t) { vf::check(!t.moved, "the result is not a moved-from object"); return t.get(); }
static int32_t num(const MoveOnly &t) { return t.get(); }

template<typename T>
struct World : vqt::Env {
    static constexpr bool isVoid = std::is_void_v<T>;
    std::optional<QPromise<T>> p{std::in_place};
    QFuture<T> f = p->future();
    bool elsewhere = false, canCancel = false, canThrow = false, canDrop = false, takes = false;
    bool started = false, cancelled = false, finished = false, threw = false; int32_t v = 0, n = 0, adds = 0;
    int pauses = 0; bool paused = false, stuck = false; // suspended by the consumer; the producer waits to be resumed
    int turn = 0;
    World() { vqt::env = this; }
    ~World() override { vqt::env = nullptr; }
    enum Act { Start, Add, Throw, Cancel, Finish, Drop, Pause, N };
    bool outcome() { return isVoid || n > 0 || threw; } // there is something to report
    bool can(int a) {
        if (!p || finished) return false;
        if (a == Pause) return paused || pauses > 0;
        if (stuck && a != Cancel) return false;
        switch (a) {
        case Start: return !started;
        case Add: return !isVoid && adds > 0;
        case Throw: return canThrow && !cancelled;
        case Cancel: return canCancel && outcome() && !takes && !cancelled;
        case Finish: return outcome();
        default: return canDrop && outcome() && !takes;
        }
    }
    unsigned count() { unsigned k = 0; for (int a = 0; a < N; a++) k += can(a); return k; }
    void pick(unsigned i) { for (int a = 0; a < N; a++) if (can(a) && i-- == 0) { perform(a); return; } }
    unsigned acts() override { return elsewhere ? 0 : count(); }
    void act(unsigned i) override { pick(i); }
    unsigned asyncs() override { return elsewhere ? count() : 0; }
    void async(unsigned i) override { pick(i); }
    void perform(int a) {
        switch (a) {
        case Start: started = true; paused = false; p->start(); break;
        case Add: if constexpr (!isVoid) {
            adds--;
            const int32_t x = vf::i32("result");
            if (!cancelled && !n++) v = x;
            p->addResult(make<T>(x));
            break;
        }
        case Throw: {
            canThrow = false;
            const int32_t x = vf::i32("error");
            v = x; threw = cancelled = true;
            if (vf::flag("qexception")) p->setException(Problem(x)); else p->setException(std::make_exception_ptr(PlainError{x}));
            break;
        }
        case Cancel: cancelled = true; paused = stuck = false; f.cancel(); break;
        case Pause:
            paused = !paused;
            if (!paused) { stuck = false; f.resume(); break; }
            pauses--; f.suspend();
            if (started && !cancelled && vf::flag("producer_notices")) { stuck = true; p->suspendIfRequested(); }
            break;
        case Finish: finished = true; p->finish(); break;
        default: finished = cancelled = true; p.reset();
        }
    }
};
template<typename T>
struct Wait {
    World<T> &w; int op = 0, resumed = 0; bool threw = false; int32_t v = 0;
};
template<typename T>
static Task<> await(Wait<T> &x) {
    World<T> &w = x.w; QFuture<T> &f = w.f;
    try {
        if constexpr (std::is_void_v<T>) {
            switch (x.op) {
            case 0: co_await f; break;
            case 1: co_await QFuture<T>(f); break;
            case 2: co_await TEMPORARY(qCoro(f).result()); break;
            default: co_await TEMPORARY(qCoro(QFuture<T>(f)).waitForFinished()); break;
            }
        } else if constexpr (std::is_same_v<T, MoveOnly>) {
            auto r = co_await TEMPORARY(qCoro(f).takeResult()); x.v = num(r);
        } else {
            switch (x.op) {
            case 0: { auto r = co_await f; x.v = num(r); break; }
            case 1: { auto r = co_await QFuture<T>(f); x.v = num(r); break; }
            case 2: { auto r = co_await TEMPORARY(qCoro(f).result()); x.v = num(r); break; }
            case 3: { auto r = co_await TEMPORARY(qCoro(f).waitForFinished()); x.v = num(r); break; }
            default: { auto r = co_await TEMPORARY(qCoro(QFuture<T>(f)).takeResult()); x.v = num(r); break; }
            }
        }
    } catch (const PlainError &e) { x.threw = true; x.v = e.v; }
    catch (const Problem &e) { x.threw = true; x.v = e.v; }
    vf::check(++x.resumed == 1, "the waiter resumes once");
    vf::check(w.finished, "the waiter resumes only when the future is finished");
    vf::check(vqt::current() == vqt::mainThread(), "the waiter resumes on its own thread");
    vf::check(x.threw == w.threw, "a stored exception is rethrown, and nothing else is thrown");
    if (x.threw || !std::is_void_v<T>) vf::check(x.v == w.v, x.threw ? "the exception is the stored one" : "the result is the future's first result");
}
template<typename T>
static void waits(unsigned waiters, int maxTurns, int pauses = 0) {
    Scope scope;
    {
        World<T> w;
        Wait<T> x[2] = {{w}, {w}};
        w.canCancel = w.canDrop = true; w.canThrow = waiters == 1 || World<T>::isVoid || BOUND(0, 1); w.adds = std::is_same_v<T, int32_t> ? 2 : BOUND(1, 2);
        w.takes = std::is_same_v<T, MoveOnly>;
        if ((w.pauses = pauses)) { w.canDrop = w.canThrow = false; w.canCancel = BOUND(0, 1); w.adds = 1; }
        if (!w.takes) for (unsigned i = 0; i < waiters; i++) x[i].op = vf::choice("op", World<T>::isVoid ? 4 : waiters > 1 ? BOUND(2, 4) : 5);
        if (x[0].op == 4) w.takes = true;
        for (unsigned before = vf::choice("steps_before", waiters > 1 ? BOUND(1, 4) : 4); before; before--) { if (!w.count()) break; w.pick(vf::choice("step", w.count())); }
        const bool done = w.finished;
        w.elsewhere = pauses && !World<T>::isVoid ? false : vf::flag("other_thread_produces");
        {
            Task<> t[2];
            for (unsigned i = 0; i < waiters; i++) {
                t[i] = await(x[i]);
                if (done) vf::check(x[i].resumed == 1, "the answer is immediate if the future is finished");
                else if (!w.finished) vf::check(!x[i].resumed, "the waiter waits for the future");
            }
            for (w.turn = 1; vqt::turn(); w.turn++) if (w.turn > maxTurns) vf_bound_("event loop turns");
            for (unsigned i = 0; i < waiters; i++) {
                if (w.finished) vf::check(x[i].resumed == 1, "the waiter resumes when the future is finished");
                vf::log("resumed", x[i].resumed); vf::log("value", uint32_t(x[i].v));
            }
            vf::reach(!w.finished ? "waiting" : w.threw ? done ? "at once: exception" : "later: exception" : w.cancelled ? "cancelled" : done ? "at once: result" : "later: result");
            if (!w.finished) vf_end_();
        }
    }
    scope.finish();
}
HARNESS(h_c18_paused) { waits<void>(1, 14, 1); }
HARNESS(h_c18_paused_int) { waits<int32_t>(1, 14, 1); }
HARNESS(h_c18_void) { waits<void>(1, 12); }
HARNESS(h_c18_int) { waits<int32_t>(1, 12); }
HARNESS(h_c18_tracked) { waits<Tracked>(1, 12); }
HARNESS(h_c18_moveonly) { waits<MoveOnly>(1, 12); }
HARNESS(h_c18_two_void) { waits<void>(2, 12); }
HARNESS(h_c18_two) { waits<Tracked>(2, 12); }
// many futures, one after the other; many waits for one
static Task<> again(QFuture<int32_t> *f, const int32_t *v, int n, int &got) { for (int i = 0; i < n; i++) { vf::check(co_await f[i] == v[i], "the result is the future's first result"); got++; } }
static Task<> once(QFuture<int32_t> f, int32_t v, int &got) { vf::check(co_await f == v, "the result is the future's first result"); got++; }
HARNESS(h_c18_many) {
    static const int N = BOUND(100, 300);
    Scope scope;
    {
        int32_t v[N]; for (int i = 0; i < N; i++) v[i] = vf::i32("result");
        int got = 0;
        std::vector<QPromise<int32_t>> p(N); std::vector<QFuture<int32_t>> f;
        for (int i = 0; i < N; i++) { p[i].start(); f.push_back(p[i].future()); }
        if (vf::flag("one_future")) {
            std::vector<Task<>> all;
            for (int i = 0; i < N; i++) all.push_back(once(f[0], v[0], got));
            p[0].addResult(v[0]); p[0].finish(); vqt::run(10);
            vf::check(got == N, "one future ends every wait for it");
            for (int i = 1; i < N; i++) p[i].finish();
        } else {
            auto t = again(f.data(), v, N, got);
            const bool backwards = vf::flag("backwards");
            for (int i = 0; i < N; i++) { const int k = backwards ? N - 1 - i : i; p[k].addResult(v[k]); p[k].finish(); vqt::run(10); if (!backwards) vf::check(got == i + 1, "every wait ends with its future"); }
            vf::check(got == N && t.isReady(), "every wait ends with its future");
        }
        vf::check(vqt::timers() == 0, "nothing is left behind");
        vf::reach("done");
    }
    scope.finish();
}
