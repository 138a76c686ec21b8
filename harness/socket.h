// What C20 and C21 share: the waits of a socket, for any kind of socket (S).
#pragma once
#include "common.h"
#include "vqt_net.h"
#include <qcorotask.h>
using QCoro::Task;
using std::chrono::milliseconds;
using vqt::Io;

template<typename S> struct World : vqt::Env {
    typedef typename S::Socket Socket;
    Socket *s = nullptr;
    bool canAttempt = false, canFail = true, canEnd = false, canClosing = false, canDestroy = false, canClose = false;
    bool stuck = false; // a connection that is being closed never gets over
    int attempts = 0, arrivals = 0, flushes = 0;
    uint8_t bytes[8]; unsigned arrived = 0; int64_t flushed = 0;
    int turn = 0, connectedTurn = -1, failedTurn = -1, endTurn = -1, closeTurn = -1, goneTurn = -1, dataTurn = -1, flushTurn = -1;
    World() { vqt::env = this; vqt::clockRuns = true; s = new Socket; }
    ~World() override { vqt::env = nullptr; delete s; }
    static void first(int &t, int turn) { if (t < 0) t = turn; }
    enum Act { Attempt, Progress, Connect, Fail, Closing, EndByPeer, End, Data, Flush, Close, Destroy, N };
    bool can(int a) {
        if (!s) return false;
        switch (a) {
        case Attempt: return S::unconnected(s) && attempts > 0;
        case Progress: return S::looking(s);
        case Connect: return S::connecting(s);
        case Fail: return (S::connecting(s) || S::looking(s)) && canFail;
        case Closing: return S::connected(s) && canClosing;
        case EndByPeer: return S::connected(s) && canEnd;
        case End: return (S::closing(s) && !stuck) || (S::connected(s) && canEnd);
        case Data: return S::connected(s) && arrivals > 0;
        case Flush: return S::connected(s) && flushes > 0 && vqt::io(s).toWrite > 0;
        case Close: return canClose && s->isOpen();
        default: return canDestroy;
        }
    }
    unsigned acts() override { unsigned n = 0; for (int a = 0; a < N; a++) n += can(a); return n; }
    void act(unsigned i) override {
        for (int a = 0; a < N; a++) if (can(a) && i-- == 0) { perform(a); return; }
    }
    void attempt() { S::attempt(s); }
    void connectIt() { first(connectedTurn, turn); S::connect(s); }
    void fail() { first(failedTurn, turn); S::fail(s); }
    void data(bool notify = true) {
        unsigned n = 1 + vf::choice("chunk", 2); uint8_t c[2];
        for (unsigned i = 0; i < n; i++) bytes[arrived + i] = c[i] = vf::u8("byte");
        arrived += n;
        if (notify) first(dataTurn, turn);
        vqt::arrive(s, c, n);
    }
    void perform(int a) {
        switch (a) {
        case Attempt: attempts--; attempt(); break;
        case Progress: S::progress(s); break;
        case Connect: connectIt(); break;
        case Fail: fail(); break;
        case Closing: first(closeTurn, turn); S::close(s); break;
        case EndByPeer: first(endTurn, turn); S::end(s, true); break;
        case End: first(endTurn, turn); S::end(s, false); break;
        case Data: arrivals--; data(); break;
        case Flush: {
            int64_t all = vqt::io(s).toWrite, n = all;
            if (--flushes) { n = vf::range("flushed", 1, 1 << 30); vf::assume(n <= all); }
            flushed += n; first(flushTurn, turn);
            vqt::flush(s, n);
            break;
        }
        case Close:
            canClose = false; first(closeTurn, turn);
            if (S::connected(s) || S::closing(s)) first(endTurn, turn);
            else if (!S::unconnected(s)) first(failedTurn, turn);
            s->close();
            break;
        default: first(goneTurn, turn); delete s; s = nullptr;
        }
    }
};
template<typename S> struct Wait {
    World<S> &w; unsigned op = 0; bool timed = false; int64_t timeout = 30000;
    int resumed = 0, turn = -1; bool result = false; int64_t t0 = 0, t1 = 0;
    QByteArray got; qint64 written = -1;
    bool timeUp() const { return timeout >= 0 && t1 - t0 >= timeout; }
    void done() { turn = w.turn; t1 = vqt::now(); vqt::onTime(t0, timeout); vf::check(++resumed == 1, "the waiter resumes once"); }
};
template<typename S> static Task<> connection(Wait<S> &x) {
    auto *s = x.w.s; auto &r = *s;
    const milliseconds ms(x.timeout);
    x.t0 = vqt::now();
    const bool asInt = x.timed && vf::flag("int_overload");
    if (x.op == 0) {
        if (asInt) x.result = co_await TEMPORARY(qCoro(r).waitForConnected(int(x.timeout)));
        else x.result = x.timed ? co_await TEMPORARY(qCoro(s).waitForConnected(ms)) : co_await TEMPORARY(qCoro(r).waitForConnected());
    } else {
        if (asInt) x.result = co_await TEMPORARY(qCoro(s).waitForDisconnected(int(x.timeout)));
        else x.result = x.timed ? co_await TEMPORARY(qCoro(r).waitForDisconnected(ms)) : co_await TEMPORARY(qCoro(s).waitForDisconnected());
    }
    x.done();
}
template<typename S> static void waits(int op, bool harm, int maxTurns) {
    Scope scope;
    {
        World<S> w;
        Wait<S> x{w};
        x.op = op; x.timed = vf::flag("timed");
        if (x.timed) x.timeout = vf::range("timeout", -2, 0x7fffffff);
        // the state at the call
        const unsigned before = vf::choice("state", 6); // unconnected, looking up, connecting, connected, closing, over
        if (before >= 1) w.attempt();
        if (before >= 2) { if (S::looking(w.s)) S::progress(w.s); }
        else if (before && !S::looking(w.s)) vf::skip();
        if (before >= 3) S::connect(w.s);
        if (before == 4) S::close(w.s);
        if (before == 5) S::end(w.s, vf::flag("by_peer"));
        w.attempts = before == 0 || before == 5 || !harm ? vf::choice("attempts", 2) : 0;
        w.canEnd = op || vf::flag("can_end"); w.canClosing = w.canEnd;
        w.canDestroy = harm; w.canClose = harm;
        {
            auto t = connection(x);
            const bool on = before == 3, off = before == 0 || before == 5;
            if (op == 0) vf::check(on ? x.resumed == 1 && x.result : !x.resumed, "waitForConnected(): a connected socket answers true at once, any other is waited for");
            else vf::check(off ? x.resumed == 1 && !x.result : !x.resumed, "waitForDisconnected(): an unconnected socket answers false at once, any other is waited for");
            const bool atOnce = x.resumed;
            bool judged = atOnce;
            const bool wasOn = before == 3 || before == 4;
            for (w.turn = 1; vqt::turn(); w.turn++) {
                if (w.turn > maxTurns) vf_bound_("event loop turns");
                if (judged || !x.resumed) continue;
                judged = true;
                const int good = op ? w.endTurn : w.connectedTurn;
                const int bad = op ? w.failedTurn : w.failedTurn < 0 ? w.endTurn : w.endTurn < 0 || w.failedTurn < w.endTurn ? w.failedTurn : w.endTurn;
                if (x.result) vf::check(good >= 0, "true only when the state is reached");
                else {
                    vf::check(x.timeUp() || bad >= 0, "false only after the timeout or a failure");
                    if (good >= 0 && (bad < 0 || good < bad)) vf::check(good >= x.turn - 1, "a wait does not fail when the state is reached in time");
                }
                if (x.timed && x.timeUp() && good < 0 && bad < 0) vf::check(!x.result, "false at the timeout");
            }
            const bool there = op ? w.endTurn >= 0 : w.connectedTurn >= 0;
            if (!atOnce && w.goneTurn < 0 && (there || w.failedTurn >= 0)) vf::check(x.resumed == 1, "the waiter resumes when the state is reached or the attempt failed");
            if (x.timeout >= 0) vf::check(x.resumed == 1, "the waiter resumes at the timeout at the latest");
            (void)wasOn;
            vf::log("resumed", x.resumed); vf::log("result", x.result);
            vf::reach(atOnce ? x.result ? "at once: true" : "at once: false" : !x.resumed ? "waiting" : x.result ? "later: true" : "later: false");
            if (!x.resumed) vf_end_();
        }
        vf::check(vqt::timers() == 0, "no timer is left behind");
        if (w.s) vf::check(vqt::connections(w.s) == 0, "no connection is left behind");
    }
    scope.finish();
}
// connectToHost()/connectToServer()
template<typename S> static void connects(bool harm, int maxTurns) {
    Scope scope;
    {
        World<S> w;
        Wait<S> x{w};
        x.timed = vf::flag("timed");
        if (x.timed) x.timeout = vf::range("timeout", -2, 0x7fffffff);
        const bool running = !harm && vf::flag("already_connected");
        if (running) { w.attempt(); if (S::looking(w.s)) S::progress(w.s); S::connect(w.s); }
        const auto how = vqt::Attempt(vf::choice("attempt", 3));
        S::plan(w.s, how);
        w.canEnd = vf::flag("can_end"); w.canDestroy = harm; w.canClose = harm;
        {
            typename S::Request req;
            const int connects = S::connects(w.s);
            auto t = req.start(x);
            vf::check(S::connects(w.s) == connects + (running ? 0 : 1), "the attempt is made once");
            if (!running) req.verify(w.s);
            if (running || how == vqt::SucceedsAtOnce) vf::check(x.resumed == 1 && x.result, "connected: the answer is immediate");
            else if (how == vqt::FailsAtOnce) vf::check(x.resumed == 1 && !x.result, "failed: the answer is immediate");
            else vf::check(!x.resumed, "the connection is waited for");
            const bool atOnce = x.resumed;
            bool judged = atOnce;
            for (w.turn = 1; vqt::turn(); w.turn++) {
                if (w.turn > maxTurns) vf_bound_("event loop turns");
                if (judged || !x.resumed) continue;
                judged = true;
                if (x.result) vf::check(w.connectedTurn >= 0, "true only when connected");
                else {
                    vf::check(x.timeUp() || w.failedTurn >= 0, "false only after the timeout or a failure");
                    if (w.connectedTurn >= 0) vf::check(w.connectedTurn >= x.turn - 1, "no failure when the connection is established in time");
                }
            }
            if (!atOnce && w.goneTurn < 0 && (w.connectedTurn >= 0 || w.failedTurn >= 0)) vf::check(x.resumed == 1, "the waiter resumes when the attempt is over");
            if (x.timeout >= 0) vf::check(x.resumed == 1, "the waiter resumes at the timeout at the latest");
            vf::log("resumed", x.resumed); vf::log("result", x.result);
            vf::reach(atOnce ? x.result ? "at once: true" : "at once: false" : !x.resumed ? "waiting" : x.result ? "later: true" : "later: false");
            if (!x.resumed) vf_end_();
        }
        vf::check(vqt::timers() == 0, "no timer is left behind");
        if (w.s) vf::check(vqt::connections(w.s) == 0, "no connection is left behind");
    }
    scope.finish();
}
// reads end with the connection
template<typename S> static Task<> reading(Wait<S> &x, int64_t max) {
    auto *s = x.w.s; auto &r = *s;
    const milliseconds ms(x.timeout);
    x.t0 = vqt::now();
    switch (x.op) {
    case 0: x.result = x.timed ? co_await TEMPORARY(qCoro(s).waitForReadyRead(ms)) : co_await TEMPORARY(qCoro(r).waitForReadyRead(-1)); break;
    case 1: x.got = x.timed ? co_await TEMPORARY(qCoro(r).readAll(ms)) : co_await TEMPORARY(qCoro(s).readAll()); break;
    case 2: x.got = x.timed ? co_await TEMPORARY(qCoro(s).read(max, ms)) : co_await TEMPORARY(qCoro(r).read(max)); break;
    default: x.got = x.timed ? co_await TEMPORARY(qCoro(r).readLine(max, ms)) : max == 0 ? co_await TEMPORARY(qCoro(s).readLine()) : co_await TEMPORARY(qCoro(s).readLine(max)); break;
    }
    x.done();
    if (x.op) {
        x.result = !x.got.isEmpty();
        if (!x.w.s) { vf::check(!x.result, "a socket that is gone has no data"); co_return; }
        const unsigned n = unsigned(x.got.size()), rest = vqt::io(x.w.s).nin;
        if (x.result) {
            vf::check(n + rest == x.w.arrived || x.w.closeTurn >= 0, "data is neither lost nor duplicated");
            for (unsigned i = 0; i < n; i++) vf::check(uint8_t(x.got.at(i)) == x.w.bytes[i], "the data is the socket's data");
        } else if (x.w.s->isOpen() && !x.timeUp() && (x.op == 1 || max > 0)) vf::check(rest == 0, "a read is empty only if there was nothing to read");
    } else if (x.result) vf::check(x.w.arrived > 0, "true only if data arrived");
}
template<typename S> static void reads(bool harm, int maxTurns) {
    Scope scope;
    {
        World<S> w;
        Wait<S> x{w};
        x.timed = vf::flag("timed"); x.op = vf::choice("op", 4); x.timeout = -1;
        if (x.timed) x.timeout = vf::range("timeout", -2, 0x7fffffff);
        const int64_t max = x.op >= 2 ? vf::i64("max_size") : 0;
        const unsigned before = vf::choice("state", 5); // never connected, connecting, connected, closing, over
        if (before) { w.attempt(); if (S::looking(w.s)) S::progress(w.s); }
        if (before >= 2) {
            S::connect(w.s);
            if (vf::flag("data_before")) w.data(false);
        }
        if (before == 3) S::close(w.s);
        if (before == 4) S::end(w.s, true);
        const bool have = vqt::io(w.s).nin;
        w.stuck = !x.timed && vf::flag("closing_lasts");
        w.arrivals = before == 2 ? BOUND(1, 2) : 0; w.canEnd = true; w.canClosing = true; w.canDestroy = harm; w.canClose = harm;
        {
            auto t = reading(x, max);
            const bool wait = before == 2 && !have;
            vf::check(x.resumed == (wait ? 0 : 1), "only a connected socket without data is waited for");
            if (!wait && x.op < 2) vf::check(x.result == have, "data at hand is read at once; otherwise there is none");
            const bool atOnce = x.resumed;
            bool judged = atOnce;
            for (w.turn = 1; vqt::turn(); w.turn++) {
                if (w.turn > maxTurns) vf_bound_("event loop turns");
                if (judged || !x.resumed) continue;
                judged = true;
                const int end = w.endTurn < 0 ? w.closeTurn : w.closeTurn < 0 || w.endTurn < w.closeTurn ? w.endTurn : w.closeTurn;
                vf::check(w.dataTurn >= 0 || end >= 0 || x.timeUp(), "a read completes when data arrives, the connection ends or at its timeout");
                if (!x.result && x.op < 2) {
                    vf::check(end >= 0 || x.timeUp() || w.goneTurn >= 0, "no data: only when the connection ended, or at the timeout");
                    if (w.dataTurn >= 0 && x.op == 0 && (end < 0 || w.dataTurn < end)) vf::check(w.dataTurn >= x.turn - 1, "data that arrived in time is noticed");
                }
                if (x.op == 0 && end >= 0 && w.dataTurn < 0) vf::check(!x.result, "no data: the answer is false");
            }
            if (!atOnce && w.goneTurn < 0 && (w.dataTurn >= 0 || w.endTurn >= 0 || w.closeTurn >= 0)) vf::check(x.resumed == 1, "a read completes when data arrived or the connection ended");
            if (x.timeout >= 0) vf::check(x.resumed == 1, "a read completes at the timeout at the latest");
            vf::log("resumed", x.resumed); vf::log("result", x.result);
            vf::reach(atOnce ? x.result ? "at once: data" : "at once: none" : !x.resumed ? "waiting" : x.result ? "later: data" : "later: none");
            if (!x.resumed) vf_end_();
        }
        vf::check(vqt::timers() == 0, "no timer is left behind");
        if (w.s) vf::check(vqt::connections(w.s) == 0, "no connection is left behind");
    }
    scope.finish();
}
// writes end with the connection
static const char payload[] = "payload";
template<typename S> static Task<> writing(Wait<S> &x, int64_t size) {
    QByteArray b = QByteArray::fromRawData(payload, size);
    x.t0 = vqt::now();
    if (x.op == 0) x.written = vf::flag("by_reference") ? co_await qCoro(*x.w.s).write(b) : co_await qCoro(x.w.s).write(b);
    else {
        const auto r = x.timed ? co_await TEMPORARY(qCoro(x.w.s).waitForBytesWritten(milliseconds(x.timeout))) : co_await TEMPORARY(qCoro(*x.w.s).waitForBytesWritten(-1));
        x.result = r.has_value();
        x.written = r.value_or(-1);
    }
    x.done();
}
template<typename S> static void writes(bool harm, int maxTurns) {
    Scope scope;
    {
        World<S> w;
        Wait<S> x{w};
        x.op = vf::choice("op", 2); x.timeout = -1;
        x.timed = x.op && vf::flag("timed");
        if (x.timed) x.timeout = vf::range("timeout", -2, 0x7fffffff);
        const int64_t size = x.op ? 0 : vf::range("size", 0, 1 << 30);
        const unsigned before = vf::choice("state", 3); // never connected, connected, over
        if (before) { w.attempt(); if (S::looking(w.s)) S::progress(w.s); S::connect(w.s); }
        if (before == 2) { S::end(w.s, true); if (vf::flag("closed")) w.s->close(); }
        const int64_t pending = before == 1 ? vf::range("pending", 0, 1 << 30) : 0;
        vqt::io(w.s).toWrite = pending;
        w.stuck = harm && vf::flag("closing_lasts");
        w.flushes = BOUND(2, 3); w.canEnd = true; w.canClosing = harm; w.canDestroy = harm; w.canClose = harm;
        {
            auto t = writing(x, size);
            const bool wait = before == 1 && (x.op ? pending > 0 : size > 0);
            if (before == 1) vf::check(x.resumed == (wait ? 0 : 1), "a connected socket with something to write is waited for");
            else if (x.op) vf::check(x.resumed == 1 && x.written <= 0, "nothing is pending");
            const bool atOnce = x.resumed;
            bool judged = atOnce;
            for (w.turn = 1; vqt::turn(); w.turn++) {
                if (w.turn > maxTurns) vf_bound_("event loop turns");
                if (judged || !x.resumed) continue;
                judged = true;
                const bool over = w.endTurn >= 0 || w.closeTurn >= 0 || w.goneTurn >= 0;
                if (x.op == 0) {
                    int64_t mine = w.flushed - pending;
                    if (mine < 0) mine = 0;
                    vf::check(x.written >= 0 && x.written <= size && x.written <= mine, "only what left the socket is confirmed");
                    if (!over) vf::check(x.written == size, "everything is confirmed while the connection lasts");
                } else {
                    vf::check(w.flushTurn >= 0 || over || x.timeUp(), "the wait completes when data is written, the connection ends or at the timeout");
                    if (!x.result) vf::check(over || x.timeUp(), "empty only after the timeout");
                    if (x.written > 0) vf::check(w.flushed >= x.written, "only what left the socket is reported");
                    if (x.written == 0) vf::check(over, "0 is no answer while data is pending");
                }
            }
            if (before == 1 && w.goneTurn < 0) {
                if (w.endTurn >= 0 || w.closeTurn >= 0) vf::check(x.resumed == 1, "the write completes when the connection ended");
                if (x.op == 0 ? w.flushed >= pending + size : w.flushed > 0) vf::check(x.resumed == 1, "the write completes when everything is written");
            }
            if (x.op && x.timeout >= 0) vf::check(x.resumed == 1, "the wait completes at the timeout at the latest");
            vf::log("resumed", x.resumed); vf::log("written", x.written);
            vf::reach(atOnce ? "at once" : !x.resumed ? "waiting" : x.written > 0 ? "written" : "not written");
            if (!x.resumed) vf_end_();
        }
        vf::check(vqt::timers() == 0, "no timer is left behind");
        if (w.s) vf::check(vqt::connections(w.s) == 0, "no connection is left behind");
    }
    scope.finish();
}
