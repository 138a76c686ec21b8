// C10: awaiting a single emission
#include "common.h"
#include "vqt.h"
#include "sender.h"
#include <qcorosignal.h>
#include <qcorotask.h>
#include <QThread>
using QCoro::Task;
using std::chrono::milliseconds;

static bool samePayload(int v, const std::optional<std::tuple<>> &) { return true; }
enum { SNone, SOne, STwo, SPriv0, SPriv1, SPriv2, SText, SCount };
// One wait for a signal, with an environment that emits, lets time pass and destroys the source.
struct World : vqt::Env {
    Sender *s = nullptr;
    QThread *other = nullptr; // the source lives in (and emits from) another thread
    int kind = 0, left = 0, emissions = 0;
    int32_t first = 0; int32_t pre = 0;
    int firstTurn = -1, turn = 0;
    int64_t t0 = 0;
    int64_t timeout = -1; bool timed = false;
    bool canDestroy = false, destroyed = false, started = false;
    int resumed = 0;
    bool got = false; int32_t value = 0;
    int64_t second = 0;
    void *thread = nullptr;
    World() { vqt::clockRuns = true; }
    ~World() override { vqt::env = nullptr; delete s; }
    void doEmit(int32_t v) {
        switch (kind) {
        case SNone: s->emitVoid(); break;
        case SOne: s->emitOne(v); break;
        case STwo: s->emitTwo(v, QString(QLatin1String("xyz"))); break;
        case SPriv0: s->emitPriv0(); break;
        case SPriv1: s->emitPriv1(v); break;
        case SPriv2: s->emitPriv2(v, qlonglong(v) * 3); break;
        case SText: { QChar c[2] = {QChar(ushort(v)), QChar(u'b')}; s->emitText(QString(c, 2)); break; }
        }
    }
    void emitNext() {
        left--;
        int32_t v = vf::i32("emitted");
        
        if (emissions++ == 0) { first = v; firstTurn = turn; }
        doEmit(v);
    }
    unsigned acts() override { return !other && s ? (left > 0) + canDestroy : 0; }
    void act(unsigned i) override {
        if (left > 0 && i == 0) emitNext();
        else { delete s; s = nullptr; destroyed = true; canDestroy = false; }
    }
    unsigned asyncs() override { return started && other && s && left > 0 ? 1 : 0; }
    void async(unsigned) override { vqt::InThread in(vqt::dataOf(other)); emitNext(); }
    void resume(bool has) {
        resumed++;
        got = has; vqt::onTime(t0, timed ? timeout : -1);
        vf::check(resumed == 1, "the waiter is resumed once");
        vf::check(vqt::current() == thread, "the waiter resumes on its own thread");
        if (!has) {
            vf::check(timed && timeout >= 0, "a wait without timeout never ends empty");
            vf::check(vqt::now() - t0 >= timeout, "the wait does not time out early");
            vf::check(firstTurn < 0 || firstTurn == turn, "an emission that was delivered before the timeout is the result");
        } else vf::check(emissions > 0, "the wait ends only on an emission");
    }
};
template<typename T>
static void payload(World &w, const T &v) {
    if constexpr (std::is_same_v<T, int>) vf::check(v == w.first, "the result is the first emission's argument");
    else if constexpr (std::is_same_v<T, QString>) { vf::check(v.size() == 2 && v.at(0) == QChar(ushort(w.first)) && v.at(1) == QChar(u'b'), "the result is the first emission's argument"); }
    else if constexpr (std::tuple_size_v<T> == 2) {
        vf::check(std::get<0>(v) == w.first, "the result is the first emission's argument");
        if constexpr (std::is_same_v<std::tuple_element_t<1, T>, QString>) vf::check(std::get<1>(v).size() == 3 && std::get<1>(v).at(2) == QChar(u'z'), "the result is the first emission's argument");
        else vf::check(std::get<1>(v) == qlonglong(w.first) * 3, "the result is the first emission's argument");
    }
}
template<typename Sig>
static Task<> wait(World &w, Sig sig) {
    w.t0 = vqt::now(); w.thread = vqt::current();
    if (w.timed) {
        auto r = co_await qCoro(w.s, std::move(sig), milliseconds(w.timeout));
        w.resume(r.has_value());
        if (r) payload(w, *r);
    } else {
        auto r = co_await qCoro(w.s, std::move(sig));
        w.resume(true);
        payload(w, r);
    }
}
static Task<> start(World &w) {
    switch (w.kind) {
    case SNone: return wait(w, &Sender::none);
    case SOne: return wait(w, &Sender::one);
    case STwo: return wait(w, &Sender::two);
    case SPriv0: return wait(w, &Sender::priv0);
    case SPriv1: return wait(w, &Sender::priv1);
    case SPriv2: return wait(w, &Sender::priv2);
    }
    return wait(w, &Sender::text);
}
static void drive(World &w, int turns) {
    for (w.turn = 1; vqt::turn(); w.turn++) if (w.turn > turns) vf_bound_("event loop turns");
    if (w.emissions > 0 || (w.timed && w.timeout >= 0)) vf::check(w.resumed == 1, "the waiter is resumed once the signal was emitted or the timeout elapsed");
    else vf::check(w.resumed == 0, "without an emission or a timeout the waiter stays suspended");
    if (w.resumed) {
        vf::check(vqt::timers() == 0, "no timer is left behind");
        if (w.s) vf::check(vqt::connections(w.s) == 0, "no connection is left behind");
    }
    vf::log("resumed", w.resumed); vf::log("got", w.got);
    vf::reach(w.resumed ? w.got ? "value" : "timeout" : w.destroyed ? "destroyed" : "silent");
}
static void setTimeout(World &w) {
    w.timed = vf::flag("timed");
    if (w.timed) w.timeout = vf::range("timeout", -3, 0x7fffffff);
}
// every signature, no timeout or any timeout, up to 2 emissions, source destroyed at any point
HARNESS(h_c10_signatures) {
    Scope scope; bool resumed;
    {
        World w; vqt::env = &w;
        w.s = new Sender;
        w.kind = vf::choice("signal", SCount);
        setTimeout(w);
        w.left = 2;
        { auto t = start(w); vf::check(!t.isReady() && w.resumed == 0, "the wait does not end before an emission"); drive(w, 8); }
        resumed = w.resumed;
    }
    if (resumed) scope.finish();
}
HARNESS(h_c10_destroyed_source) {
    Scope scope; bool resumed;
    {
        World w; vqt::env = &w;
        w.s = new Sender;
        w.kind = vf::flag("private") ? SPriv1 : SOne;
        setTimeout(w);
        w.left = BOUND(2, 3);
        w.canDestroy = true;
        if (vf::flag("emit_before_the_wait")) { w.doEmit(7); }
        { auto t = start(w); w.started = true; drive(w, 10); }
        resumed = w.resumed;
    }
    if (resumed) scope.finish();
}
// the awaiting coroutine drops everything while it waits
HARNESS(h_c10_dropped_waiter) {
    Scope scope;
    {
        World w; vqt::env = &w;
        w.s = new Sender;
        w.kind = SOne;
        setTimeout(w);
        w.left = 2;
        auto body = [](World &w) -> Probe {
            w.t0 = vqt::now(); w.thread = vqt::current();
            auto r = co_await QCoro::detail::QCoroSignal(w.s, &Sender::one, milliseconds(w.timeout));
            w.resume(r.has_value());
            if (r) payload(w, *r);
        };
        {
            Probe p = body(w);
            unsigned n = vf::choice("turns_before", 4);
            for (w.turn = 1; w.turn <= int(n); w.turn++) if (!vqt::turn()) break;
            if (vf::flag("source_goes_first")) { delete w.s; w.s = nullptr; }
        }
        int before = w.resumed;
        vf::reach(before ? "finished" : "dropped");
        w.turn = 100;
        vqt::run(8);
        vf::check(w.resumed == before, "nothing of a dropped wait is called later");
        vf::check(vqt::timers() == 0 && (!w.s || vqt::connections(w.s) == 0), "nothing is left behind by a dropped wait");
    }
    scope.finish();
}
// the source lives in another thread and emits from there at any moment
HARNESS(h_c10_other_thread) {
    Scope scope; bool resumed;
    {
        World w; vqt::env = &w;
        QThread th;
        w.s = new Sender;
        w.s->moveToThread(&th);
        w.other = &th;
        w.kind = vf::flag("private") ? SPriv0 : SOne;
        setTimeout(w);
        w.left = 2;
        { auto t = start(w); w.started = true; drive(w, 8); }
        resumed = w.resumed;
        { vqt::InThread in(vqt::dataOf(&th)); delete w.s; w.s = nullptr; }
    }
    if (resumed) scope.finish();
}
// two waits on the same signal and a wait that starts from the resumption of another one
static Task<> many(World &w, int n, int &count, int32_t *seen) {
    for (int i = 0; i < n; i++) { int v = co_await qCoro(w.s, &Sender::one); seen[count] = v; count++; }
}
HARNESS(h_c10_two_waiters) {
    Scope scope; bool all;
    {
        World w; vqt::env = &w;
        w.s = new Sender; w.kind = SOne;
        int32_t v[3]; int n[2] = {}; int32_t seen[2][4];
        int rounds = 2;
        { auto a = many(w, rounds, n[0], seen[0]); auto b = many(w, 1, n[1], seen[1]); }
        int k = vf::choice("emissions", 4);
        int got = 0; // what the first waiter must have seen: emissions it was waiting for
        bool waiting = true; int32_t expect[2];
        for (int i = 0; i < k; i++) {
            v[i] = vf::i32("emitted");
            w.s->emitOne(v[i]);
            if (waiting && got < rounds) { expect[got++] = v[i]; waiting = false; }
            if (vf::flag("deliver")) { vqt::deliverAll(); waiting = true; }
        }
        vqt::settle();
        vf::check(n[0] == got, "each wait takes the first emission after it started");
        for (int i = 0; i < got; i++) vf::check(seen[0][i] == expect[i], "each wait takes the first emission after it started");
        vf::check(n[1] == (k > 0), "every waiter is resumed");
        if (k) vf::check(seen[1][0] == v[0], "every waiter gets the emission");
        all = n[0] == rounds && n[1] == 1;
        vf::reach(all ? "all" : "some");
    }
    if (all) scope.finish();
}
// many waits, one after the other and at the same time
static Task<> again(Sender *s, const int32_t *v, int n, int &got) {
    for (int i = 0; i < n; i++) {
        const int x = co_await qCoro(s, &Sender::one);
        vf::check(x == v[i], "the result is the first emission's argument");
        got++;
    }
}
static Task<> onceMore(Sender *s, int32_t v, bool timed, int &got) {
    if (timed) { const auto r = co_await qCoro(s, &Sender::one, milliseconds(1000000)); vf::check(r && *r == v, "the result is the first emission's argument"); }
    else vf::check(co_await qCoro(s, &Sender::one) == v, "the result is the first emission's argument");
    got++;
}
HARNESS(h_c10_many) {
    static const int N = BOUND(300, 1100);
    Scope scope;
    {
        Sender *s = new Sender;
        int32_t v[N]; for (int i = 0; i < N; i++) v[i] = vf::i32("emitted");
        int got = 0;
        {
            auto t = again(s, v, N, got);
            for (int i = 0; i < N; i++) { s->emitOne(v[i]); vqt::settle(); vf::check(got == i + 1, "every wait ends with the emission that follows it"); }
            vf::check(t.isReady(), "every wait ends");
            got = 0;
            std::vector<Task<>> all;
            for (int i = 0; i < N; i++) all.push_back(onceMore(s, v[0], i & 1, got));
            s->emitOne(v[0]);
            vqt::settle();
            vf::check(got == N, "one emission ends every wait for the signal");
        }
        vf::check(vqt::timers() == 0 && vqt::connections(s) == 0, "nothing is left behind");
        delete s;
        vf::reach("done");
    }
    scope.finish();
}
