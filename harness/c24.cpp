// C24: QWebSocket
#include "common.h"
#include "vqt_ws.h"
#include <qcorowebsocket.h>
#include <qcorotask.h>
using QCoro::Task;
using std::chrono::milliseconds;
using St = QAbstractSocket::SocketState;

struct Socket : QWebSocket { ~Socket() override {} };
struct World : vqt::Env {
    Socket *s = nullptr;
    int turn = 0;
    // opening
    bool canConnect = false, canFail = false, canEnd = false, canDestroy = false, plainEnd = false;
    int connectTurn = -1, failTurn = -1, endTurn = -1, goneTurn = -1, firstTurn = -1; int first = 0; // first: 1 connected, 2 failed or ended, 3 pong
    // ping
    int pongs = 0, pongTurn = -1; int64_t elapsed = 0;
    // streams
    int kind = 0, items = 0, others = 0, n = 0, idx = 0; uint8_t v[6]; bool last[6]; int at[6], emptyAt = -1;
    Gate gate, after;
    bool waiting = false, busy = false, over = false, ended = false; int busyChoices = 0, breakAt = -1; int64_t waitStart = 0, timeout = -1;
    World() { vqt::env = this; vqt::clockRuns = true; s = new Socket; }
    ~World() override { vqt::env = nullptr; delete s; }
    St state() { return vqt::ws(s).state; }
    enum Act { Connect, Fail, End, Closing, Destroy, Pong, Item, Other, Go, N };
    bool can(int a) {
        if (a == Go) return gate.pending() || after.pending();
        if (!s) return false;
        switch (a) {
        case Connect: return canConnect && state() == QAbstractSocket::ConnectingState;
        case Fail: return canFail && state() == QAbstractSocket::ConnectingState;
        case End: return canEnd && state() != QAbstractSocket::UnconnectedState;
        case Closing: return canEnd && !plainEnd && state() == QAbstractSocket::ConnectedState;
        case Destroy: return canDestroy;
        case Pong: return pongs > 0 && state() == QAbstractSocket::ConnectedState;
        case Item: return items > 0 && state() == QAbstractSocket::ConnectedState;
        default: return others > 0 && state() == QAbstractSocket::ConnectedState;
        }
    }
    unsigned acts() override { unsigned k = 0; for (int a = 0; a < N; a++) k += can(a); return k; }
    void act(unsigned i) override { for (int a = 0; a < N; a++) if (can(a) && i-- == 0) { perform(a); return; } }
    void is(int what) { if (!first) { first = what; firstTurn = turn; } }
    void item(int k, uint8_t x, bool l, bool none = false) {
        const QString t = none ? QString() : QString(1, QChar(ushort(x))); const QByteArray b = none ? QByteArray() : QByteArray(1, char(x));
        switch (k) {
        case 0: vqt::emitSignal(s, &QWebSocket::binaryFrameReceived, b, l); break;
        case 1: vqt::emitSignal(s, &QWebSocket::binaryMessageReceived, b); break;
        case 2: vqt::emitSignal(s, &QWebSocket::textFrameReceived, t, l); break;
        default: vqt::emitSignal(s, &QWebSocket::textMessageReceived, t); break;
        }
    }
    void perform(int a) {
        switch (a) {
        case Connect: canConnect = false; connectTurn = turn; is(1); vqt::wsConnected(s); break;
        case Fail: failTurn = turn; is(2); vqt::wsFailed(s); break;
        case End: if (endTurn < 0) endTurn = turn; is(2); if (vf::flag("by_close")) s->close(); else s->abort(); break;
        case Closing: if (endTurn < 0) endTurn = turn; is(2); vqt::wsClosing(s); break;
        case Destroy: if (goneTurn < 0) goneTurn = turn; if (state() == QAbstractSocket::ConnectedState) { is(2); if (endTurn < 0) endTurn = turn; } delete s; s = nullptr; break;
        case Pong: {
            pongs--; const int64_t e = vf::range("elapsed", 0, int64_t(1) << 40); quint64 q = quint64(e);
            if (!first) elapsed = e;
            if (pongTurn < 0) pongTurn = turn;
            is(3);
            vqt::emitSignal(s, &QWebSocket::pong, q, QByteArray("p"));
            break;
        }
        case Item: items--; v[n] = vf::u8("byte"); last[n] = kind % 2 == 0 && vf::u8("last") & 1; at[n] = turn; n++; item(kind, v[n - 1], last[n - 1], n - 1 == emptyAt); break;
        case Other: others--; item((kind + 1 + int(vf::choice("other", 3))) % 4, 7, true); break;
        case Go: gate.pulse(); after.pulse(); break;
        }
    }
};
struct Wait {
    World &w; bool timed = false, request = false, connected = false; int64_t timeout = -1;
    int resumed = 0, turn = -1; bool result = false; int64_t t0 = 0, t1 = 0, elapsed = -1;
    bool timeUp() const { return timeout >= 0 && t1 - t0 >= timeout; }
    void done() { t1 = vqt::now(); turn = w.turn; vqt::onTime(t0, timeout); vf::check(++resumed == 1, "the waiter resumes once"); }
};
static bool settle(World &w, Wait &x, bool wantFirst, int maxTurns) { // runs until nothing happens; judges the resumption
    bool judged = x.resumed;
    for (w.turn = 1; vqt::turn(); w.turn++) {
        if (w.turn > maxTurns) vf_bound_("event loop turns");
        if (judged || !x.resumed) continue;
        judged = true;
        if (x.result) vf::check(wantFirst ? w.first == 1 : w.first == 3, "success only if what was waited for happened first");
        else {
            vf::check(x.timeUp() || w.first == 2 || w.goneTurn >= 0, "no success only at the timeout, or when the socket failed or ended");
            if (w.first == (wantFirst ? 1 : 3) && w.goneTurn < 0) vf::check(w.firstTurn >= x.turn - 1, "what happened in time is reported");
        }
    }
    if (w.first) vf::check(x.resumed == 1, "the waiter resumes when the socket succeeded, failed or ended");
    if (x.timeout >= 0) vf::check(x.resumed == 1, "the waiter resumes at the timeout at the latest");
    vf::log("resumed", x.resumed); vf::log("result", x.result);
    return x.resumed == 1;
}
static void clean(World &w) {
    vf::check(vqt::timers() == 0, "no timer is left behind");
    if (w.s) vf::check(vqt::connections(w.s) == 0, "no connection is left behind");
}
// --- open() --------------------------------------------------------------------------
static Task<> opening(Wait &x, quint32 id, quint32 rest) {
    QWebSocket *s = x.w.s; QWebSocket &r = *s; const milliseconds ms(x.timeout);
    x.t0 = vqt::now();
    if (x.request) x.result = x.timed ? co_await TEMPORARY(qCoro(s).open(vqt::request(id, rest), ms)) : co_await TEMPORARY(qCoro(r).open(vqt::request(id, rest)));
    else x.result = x.timed ? co_await TEMPORARY(qCoro(r).open(vqt::url(id), ms)) : co_await TEMPORARY(qCoro(s).open(vqt::url(id)));
    x.done();
}
static void opens(bool harm, int maxTurns) {
    Scope scope;
    {
        World w; Wait x{w};
        auto &m = vqt::ws(w.s);
        static const St states[] = {QAbstractSocket::UnconnectedState, QAbstractSocket::ConnectingState, QAbstractSocket::ConnectedState, QAbstractSocket::ClosingState};
        const St before = states[vf::choice("state", 4)];
        m.state = before;
        m.opening = vqt::Ws::Opening(vf::choice("opening", 3));
        x.request = vf::flag("request"); x.timed = vf::flag("timed");
        if (x.timed) x.timeout = vf::range("timeout", -2, 0x7fffffff);
        w.canConnect = w.canFail = true; w.canEnd = harm; w.canDestroy = harm;
        const quint32 id = vf::range("url", 1, 0x7fffffff), rest = x.request ? quint32(vf::i32("headers")) : 0;
        if (before != QAbstractSocket::ConnectedState && m.opening != vqt::Ws::Starts) { w.is(2); w.canConnect = w.canFail = w.canEnd = w.canDestroy = false; }
        {
            auto t = opening(x, id, rest);
            if (before == QAbstractSocket::ConnectedState) vf::check(x.resumed == 1 && x.result && m.opens == 0, "connected: the answer is true at once");
            else {
                vf::check(m.opens == 1 && m.url == vqt::url(id) && m.rest == rest, "the socket is opened once, with the given URL or request");
                if (m.opening == vqt::Ws::Starts) vf::check(!x.resumed, "the waiter waits for the connection");
            }
            const bool atOnce = x.resumed;
            if (atOnce && before != QAbstractSocket::ConnectedState) vf::check(!x.result, "not connected: no success");
            const bool done = settle(w, x, true, maxTurns);
            vf::reach(atOnce ? x.result ? "at once: true" : "at once: false" : !done ? "waiting" : x.result ? "later: true" : "later: false");
            if (!done) vf_end_();
        }
        clean(w);
    }
    scope.finish();
}
HARNESS(h_c24_open) { opens(false, 12); }
HARNESS(h_c24_open_harm) { opens(true, 12); }
// --- ping() --------------------------------------------------------------------------
static Task<> pinging(Wait &x, QByteArray payload) {
    QWebSocket *s = x.w.s; QWebSocket &r = *s;
    x.t0 = vqt::now();
    const auto e = x.timed ? co_await TEMPORARY(qCoro(s).ping(payload, milliseconds(x.timeout))) : co_await TEMPORARY(qCoro(r).ping(payload));
    x.result = e.has_value();
    if (e) x.elapsed = e->count();
    x.done();
    if (x.result && x.connected) vf::check(x.elapsed == x.w.elapsed, "the elapsed time is the one of the answer");
}
static void pings(bool harm, int maxTurns) {
    Scope scope;
    {
        World w; Wait x{w};
        auto &m = vqt::ws(w.s);
        static const St states[] = {QAbstractSocket::UnconnectedState, QAbstractSocket::ConnectingState, QAbstractSocket::ConnectedState, QAbstractSocket::ClosingState};
        const St before = states[vf::choice("state", 4)];
        m.state = before; x.connected = before == QAbstractSocket::ConnectedState;
        x.timed = vf::flag("timed");
        if (x.timed) x.timeout = vf::range("timeout", -2, 0x7fffffff);
        w.pongs = BOUND(2, 3); w.canEnd = true; w.canDestroy = harm; w.kind = 1; w.others = 1;
        const uint8_t b = vf::u8("payload");
        {
            auto t = pinging(x, QByteArray(130, char(b)));
            if (!x.connected) vf::check(x.resumed == 1 && !x.result && m.pings == 0, "not connected: the answer is empty at once");
            else {
                vf::check(m.pings == 1 && m.payload.size() == 130 && uint8_t(m.payload.at(0)) == b && uint8_t(m.payload.at(129)) == b, "one ping with the given payload is sent");
                vf::check(!x.resumed, "the waiter waits for the answer");
            }
            const bool atOnce = x.resumed;
            const bool done = atOnce || settle(w, x, false, maxTurns);
            vf::reach(atOnce ? "at once" : !done ? "waiting" : x.result ? "answer" : "none");
            if (!done) vf_end_();
        }
        clean(w);
    }
    scope.finish();
}
HARNESS(h_c24_ping) { pings(false, 12); }
HARNESS(h_c24_ping_harm) { pings(true, 12); }
// --- frames and messages ---------------------------------------------------------------
static void judge(World &w, uint8_t x, bool last, int size) {
    vf::check(w.idx < w.n, "only what was received is yielded");
    vf::check(w.idx == w.emptyAt ? !size : size == 1 && x == w.v[w.idx], "frames and messages are yielded in order, intact");
    vf::check(last == w.last[w.idx], "the mark of the last frame is intact");
    w.idx++;
}
static void got(World &w, const QByteArray &b, bool last = false) { judge(w, b.size() ? uint8_t(b.at(0)) : 0, last, int(b.size())); }
static void got(World &w, const QString &s, bool last = false) { judge(w, s.size() ? uint8_t(s.at(0).unicode()) : 0, last, int(s.size())); }
template<typename T> static void got(World &w, const std::tuple<T, bool> &t) { got(w, std::get<0>(t), std::get<1>(t)); }
template<typename Coro, typename Gen>
static Coro consume(World &w, Gen gen) {
    int count = 0;
    auto wait = [&w] { vf::check(!w.waiting && !w.busy && !w.ended, "the consumer waits on the stream"); w.waiting = true; w.waitStart = vqt::now(); };
    auto resume = [&w] { vf::check(w.waiting, "the consumer is resumed only while it waits on the stream"); w.waiting = false; vqt::onTime(w.waitStart, w.timeout); };
    if (w.busyChoices && vf::flag("busy_first")) { w.busyChoices--; w.busy = true; co_await w.gate; w.busy = false; }
    wait();
    auto it = co_await gen.begin();
    resume();
    while (it != gen.end()) {
        got(w, *it);
        if (++count == w.breakAt) { w.over = true; break; }
        if (w.busyChoices && vf::flag("busy")) { w.busyChoices--; w.busy = true; co_await w.gate; vf::check(w.busy, "the consumer is not resumed by the stream while it waits elsewhere"); w.busy = false; }
        wait();
        co_await ++it;
        resume();
    }
    if (!w.over) {
        w.ended = true;
        vf::check(w.endTurn >= 0 || w.timeout >= 0 && vqt::now() - w.waitStart >= w.timeout, "a stream ends when the socket disconnects or at its timeout");
        if (w.endTurn < 0) for (int i = w.idx; i < w.n; i++) vf::check(w.at[i] == w.turn, "nothing that was received is lost");
        else if (w.timeout < 0 || vqt::now() - w.waitStart < w.timeout) vf::check(w.idx == w.n, "everything received before the end is yielded");
    }
    w.busy = true;
    co_await w.after;
    vf::check(w.busy, "nothing resumes a consumer that waits elsewhere"); w.busy = false;
    vf::reach(w.over ? "left" : w.endTurn >= 0 ? "disconnected" : "timeout");
}
template<typename Coro> static Coro start(World &w) {
    QWebSocket *s = w.s; QWebSocket &r = *s; const milliseconds ms(w.timeout);
    const bool timed = w.timeout >= 0;
    switch (w.kind) {
    case 0: return consume<Coro>(w, timed ? qCoro(s).binaryFrames(ms) : qCoro(r).binaryFrames());
    case 1: return consume<Coro>(w, timed ? qCoro(s).binaryMessages(ms) : qCoro(r).binaryMessages());
    case 2: return consume<Coro>(w, timed ? qCoro(r).textFrames(ms) : qCoro(s).textFrames());
    }
    return consume<Coro>(w, timed ? qCoro(r).textMessages(ms) : qCoro(s).textMessages());
}
static void streams(bool timed, bool harm, int items, int busy, int maxTurns) {
    Scope scope; bool done;
    {
        World w;
        vqt::ws(w.s).state = QAbstractSocket::ConnectedState;
        w.kind = vf::choice("kind", 4);
        w.items = items; w.others = !harm; w.plainEnd = harm; w.busyChoices = busy; w.canEnd = !timed || harm; w.canDestroy = harm;
        if (timed) w.timeout = vf::range("timeout", 0, 0x7fffffff);
        if (const unsigned b = vf::choice("break_after", 3)) w.breakAt = b;
        if (BOUND(w.kind % 3 == 0 && w.breakAt < 0, true)) w.emptyAt = int(vf::choice("empty_item", 2)) - 1;
        {
            auto t = start<Task<>>(w);
            for (w.turn = 1; vqt::turn(); w.turn++) if (w.turn > maxTurns) vf_bound_("event loop turns");
            done = t.isReady();
            if (!done) {
                vf::check(w.waiting && !timed && w.endTurn < 0, "a stream ends when the socket disconnects or at its timeout");
                vf::check(w.idx == w.n, "everything that was received is yielded");
                vf::reach("silent");
                vf_end_();
            }
        }
        clean(w);
    }
    scope.finish();
}
HARNESS(h_c24_stream) { streams(false, false, BOUND(2, 3), 1, 16); }
HARNESS(h_c24_stream_timeout) { streams(true, false, BOUND(2, 3), 1, 16); }
HARNESS(h_c24_stream_harm) { streams(vf::flag("timed"), true, BOUND(1, 2), 1, 16); }
// the consumer is destroyed, and the stream with it, while waiting or busy or at the end
HARNESS(h_c24_stream_dropped) {
    Scope scope;
    {
        World w;
        vqt::ws(w.s).state = QAbstractSocket::ConnectedState;
        w.kind = vf::choice("kind", 4);
        w.items = 2; w.busyChoices = 1; w.canEnd = true;
        if (vf::flag("timed")) w.timeout = vf::range("timeout", 0, 0x7fffffff);
        {
            Probe p = start<Probe>(w);
            const int n = vf::choice("turns_before", 5);
            for (w.turn = 1; w.turn <= n; w.turn++) if (!vqt::turn()) break;
            w.gate.waiting.clear(); w.after.waiting.clear();
        }
        vf::reach(w.ended ? "dropped at the end" : w.waiting ? "dropped waiting" : "dropped busy");
        const int idx = w.idx;
        vqt::run(20);
        vf::check(w.idx == idx, "nothing of a dropped stream runs later");
        clean(w);
    }
    scope.finish();
}
// many messages while the consumer is busy or waits
static Task<> burst(QWebSocket *s, Gate &g, const uint8_t *v, int n, int often, int &got) {
    auto gen = qCoro(s).binaryMessages();
    QCORO_FOREACH(const auto &x, gen) {
        vf::check(got < n && x.size() == 1 && uint8_t(x.at(0)) == v[got], "frames and messages are yielded in order, intact");
        got++;
        if (often && got % often == 0) co_await g;
    }
}
HARNESS(h_c24_burst) {
    static const int N = BOUND(1100, 4200);
    Scope scope;
    {
        Socket *s = new Socket; vqt::ws(s).state = QAbstractSocket::ConnectedState;
        uint8_t v[N]; for (int i = 0; i < N; i++) v[i] = vf::u8("byte");
        int got = 0; Gate g;
        static const int oftens[] = {0, 1, 90};
        const int often = oftens[vf::choice("consumer_busy", 3)];
        const bool delivers = vf::flag("delivered_between"), ends = vf::flag("ends_before_it_is_read");
        {
            auto t = burst(s, g, v, N, often, got);
            for (int i = 0; i < N; i++) { vqt::emitSignal(s, &QWebSocket::binaryMessageReceived, QByteArray(1, char(v[i]))); if (delivers) vqt::settle(); }
            if (ends) s->abort();
            vqt::settle();
            while (g.pending()) { g.pulse(); vqt::settle(); }
            vf::check(got == N, "everything that was received is yielded");
            if (!ends) { vf::check(!t.isReady(), "a stream ends when the socket disconnects"); s->abort(); vqt::settle(); }
            vf::check(t.isReady(), "a stream ends when the socket disconnects");
        }
        vf::check(vqt::timers() == 0 && vqt::connections(s) == 0, "nothing is left behind");
        delete s;
        vf::reach("done");
    }
    scope.finish();
}
