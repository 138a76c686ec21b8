// C11: the signal listener
#include "common.h"
#include "vqt.h"
#include "sender.h"
#include <qcorosignal.h>
#include <qcorotask.h>
using QCoro::Task;
using std::chrono::milliseconds;

struct World : vqt::Env {
    Sender *s = nullptr;
    int kind = 0; // 0 int, 1 (int, QString), 2 private int, 3 void
    int left = 0, n = 0, idx = 0;
    int32_t v[6]; int at[6];
    int turn = 0;
    int64_t timeout = -1, waitStart = 0;
    bool canDestroy = false, destroyed = false; int goneTurn = -1;
    bool waiting = false, busy = false, ended = false, over = false;
    int busyChoices = 0, breakAt = -1;
    Gate gate, after;
    ~World() override { vqt::env = nullptr; delete s; }
    void emitNext() {
        left--;
        v[n] = vf::i32("emitted"); at[n] = turn;
        int32_t x = v[n++];
        switch (kind) {
        case 0: s->emitOne(x); break;
        case 1: s->emitTwo(x, QString(QLatin1String("q"))); break;
        case 2: s->emitPriv1(x); break;
        case 3: s->emitVoid(); break;
        }
    }
    unsigned acts() override { return (s && left > 0) + (gate.pending() || after.pending()) + (s && canDestroy); }
    void act(unsigned i) override {
        if (s && left > 0) { if (i == 0) { emitNext(); return; } i--; }
        if (gate.pending() || after.pending()) { if (i == 0) { gate.pulse(); after.pulse(); return; } i--; }
        delete s; s = nullptr; destroyed = true; goneTurn = turn;
    }
    void wait() { vf::check(!waiting && !busy && !ended, "the consumer waits on the listener"); waiting = true; waitStart = vqt::now(); }
    void resume() { vf::check(waiting, "the consumer is resumed only while it waits on the listener"); waiting = false; vqt::onTime(waitStart, timeout); }
    void got(int32_t x, bool hasValue = true) {
        vf::check(idx < n, "only emissions are yielded");
        if (hasValue) vf::check(x == v[idx], "the emissions are yielded in order");
        idx++;
    }
    void end() {
        ended = true;
        if (destroyed) { for (int i = idx; i < n; i++) vf::check(at[i] == goneTurn, "emissions that were delivered are yielded also when the source is gone"); return; }
        vf::check(timeout >= 0, "a listener without timeout does not end");
        vf::check(vqt::now() - waitStart >= timeout, "a listener does not time out early");
        for (int i = idx; i < n; i++) vf::check(at[i] == turn, "no emission that was delivered is lost");
    }
};
template<typename T> static int32_t num(const T &t) {
    if constexpr (std::is_same_v<T, int>) return t;
    else { if constexpr (std::tuple_size_v<T> == 2) { vf::check(std::get<1>(t).size() == 1 && std::get<1>(t).at(0) == QChar(u'q'), "every argument is yielded"); return std::get<0>(t); } else return 0; }
}
template<typename Coro, typename Gen>
static Coro consume(World &w, Gen gen) {
    int count = 0;
    if (w.busyChoices && vf::flag("busy_first")) { w.busyChoices--; w.busy = true; co_await w.gate; w.busy = false; }
    w.wait();
    auto it = co_await gen.begin();
    w.resume();
    while (it != gen.end()) {
        w.got(num(*it), w.kind != 3);
        if (w.kind != 3) vf::log("got", uint32_t(num(*it)));
        if (++count == w.breakAt) { w.over = true; break; }
        if (w.busyChoices && vf::flag("busy")) { w.busyChoices--; w.busy = true; co_await w.gate; vf::check(w.busy, "the consumer is not resumed by the listener while it waits elsewhere"); w.busy = false; }
        w.wait();
        co_await ++it;
        w.resume();
    }
    if (!w.over) w.end();
    // the generator stays around for a while
    w.busy = true;
    co_await w.after;
    vf::check(w.busy, "nothing resumes a consumer that waits elsewhere"); w.busy = false;
    vf::reach(w.over ? "left" : "ended");
}
template<typename Coro>
static Coro start(World &w) {
    switch (w.kind) {
    case 0: return consume<Coro>(w, w.timeout == -1 ? qCoroSignalListener(w.s, &Sender::one) : qCoroSignalListener(w.s, &Sender::one, milliseconds(w.timeout)));
    case 1: return consume<Coro>(w, qCoroSignalListener(w.s, &Sender::two, milliseconds(w.timeout)));
    case 2: return consume<Coro>(w, qCoroSignalListener(w.s, &Sender::priv1, milliseconds(w.timeout)));
    }
    return consume<Coro>(w, qCoroSignalListener(w.s, &Sender::none, milliseconds(w.timeout)));
}
static bool finished(World &w, bool taskReady) {
    if (!taskReady) {
        // it must be waiting for an emission that can no longer come
        vf::check(w.waiting && w.timeout < 0, "a listener with a timeout ends");
        if (!w.destroyed) vf::check(w.idx == w.n, "every emission is yielded");
        vf::reach("silent");
    }
    return taskReady;
}
static bool drive(World &w, Task<> &t, int turns) {
    for (w.turn = 1; vqt::turn(); w.turn++) if (w.turn > turns) vf_bound_("event loop turns");
    return finished(w, t.isReady());
}
// no timeout: every emission, whatever the consumer does in between
HARNESS(h_c11_every_emission) {
    Scope scope; bool done;
    {
        World w; vqt::env = &w;
        w.s = new Sender;
        w.kind = vf::choice("signal", 4);
        w.left = BOUND(3, 4); w.busyChoices = BOUND(2, 3);
        unsigned b = vf::choice("break_after", 3);
        if (b) w.breakAt = b;
        auto t = start<Task<>>(w);
        done = drive(w, t, 20);
    }
    if (done) scope.finish();
}
HARNESS(h_c11_timeout) {
    Scope scope; bool done;
    {
        World w; vqt::env = &w;
        w.s = new Sender;
        w.kind = vf::flag("private") ? 2 : 0;
        w.left = BOUND(2, 3); w.busyChoices = BOUND(1, 2);
        w.timeout = vf::range("timeout", 0, 0x7fffffff);
        auto t = start<Task<>>(w);
        done = drive(w, t, 20);
    }
    if (done) scope.finish();
}
HARNESS(h_c11_destroyed_source) {
    Scope scope; bool done;
    {
        World w; vqt::env = &w;
        w.s = new Sender;
        w.left = 2; w.busyChoices = 1; w.canDestroy = true;
        if (vf::flag("timed")) w.timeout = vf::range("timeout", 0, 0x7fffffff);
        auto t = start<Task<>>(w);
        done = drive(w, t, 20);
    }
    if (done) scope.finish();
}
// the consumer is destroyed, and the generator with it, while waiting or busy or at the end
HARNESS(h_c11_dropped) {
    Scope scope;
    {
        World w; vqt::env = &w;
        w.s = new Sender;
        w.left = 3; w.busyChoices = 1;
        if (vf::flag("timed")) w.timeout = vf::range("timeout", 0, 0x7fffffff);
        {
            Probe p = start<Probe>(w);
            int n = vf::choice("turns_before", 5);
            for (w.turn = 1; w.turn <= n; w.turn++) if (!vqt::turn()) break;
            w.gate.waiting.clear(); w.after.waiting.clear();
        }
        vf::reach(w.ended ? "dropped_after_the_end" : w.waiting ? "dropped_waiting" : "dropped_busy");
        int got = w.idx;
        vqt::run(20);
        vf::check(w.idx == got, "nothing of a dropped listener runs later");
        vf::check(vqt::timers() == 0 && vqt::connections(w.s) == 0, "nothing is left behind by a dropped listener");
    }
    scope.finish();
}
// a generator that is never iterated, moved or abandoned in between
HARNESS(h_c11_unused) {
    Scope scope;
    {
        World w; vqt::env = &w;
        w.s = new Sender;
        w.left = 2;
        if (vf::flag("timed")) w.timeout = vf::range("timeout", 0, 0x7fffffff);
        {
            auto g = qCoroSignalListener(w.s, &Sender::one, milliseconds(w.timeout));
            if (vf::flag("turn_first")) vqt::turn();
            auto h = std::move(g);
            if (vf::flag("turn_second")) vqt::turn();
            if (vf::flag("use")) {
                int n0 = w.n;
                auto t = [](World &w, auto &h) -> Task<> { auto it = co_await h.begin(); if (it != h.end()) w.got(*it); else vf::check(w.timeout >= 0, "a listener without timeout does not end"); }(w, h);
                if (n0 && vqt::posted() == 0) vf::check(t.isReady() && w.idx == 1, "an emission that was delivered before is yielded at once");
                vqt::run(10);
                if (w.n) vf::reach("used");
            } else vf::reach("unused");
        }
        vqt::run(10);
    }
    scope.finish();
}
// bursts of emissions while the consumer is busy or waits
static Task<> burst(Sender *s, Gate &g, const int32_t *v, int n, int often, bool timed, int &got) {
    auto gen = timed ? qCoroSignalListener(s, &Sender::one, milliseconds(1000)) : qCoroSignalListener(s, &Sender::one);
    int k = 0;
    QCORO_FOREACH(const auto &x, gen) {
        vf::check(got < n, "only emissions are yielded");
        vf::check(x == v[got], "the emissions are yielded in order");
        got++;
        if (often && ++k % often == 0) co_await g;
        if (!timed && got == n) break;
    }
    vf::check(got == n, "every emission is yielded");
}
HARNESS(h_c11_burst) {
    static const int N = BOUND(1100, 4200);
    Scope scope;
    {
        Sender *s = new Sender;
        int32_t v[N]; for (int i = 0; i < N; i++) v[i] = vf::i32("emitted");
        int got = 0; Gate g;
        static const int oftens[] = {0, 1, 90};
        const int often = oftens[vf::choice("consumer_busy", 3)];
        static const int groups[] = {1, 40, N};
        const int group = groups[vf::choice("group", 3)];
        const bool delivers = vf::flag("delivered_between"), timed = vf::flag("timed");
        if (timed && often) vf::skip(); // the time that passes then is another matter
        {
            auto t = burst(s, g, v, N, often, timed, got);
            for (int i = 0; i < N; i++) { s->emitOne(v[i]); if (delivers && (i + 1) % group == 0) vqt::settle(); }
            vqt::settle();
            while (g.pending()) { g.pulse(); vqt::settle(); }
            vf::check(got == N, "every emission is yielded");
            vqt::run(10);
            vf::check(t.isReady(), "the consumer comes to its end");
        }
        vf::check(vqt::timers() == 0 && vqt::connections(s) == 0, "nothing is left behind");
        delete s;
        vf::reach("done");
    }
    scope.finish();
}
