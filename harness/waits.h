// What C28 and C29 share: waits of every kind, on objects in every situation in which there is something to wait for.
#pragma once
#include "common.h"
#include "vqt_ws.h"
#include "sender.h"
#include <memory>
#include <optional>
#include <qcoroabstractsocket.h>
#include <qcoroiodevice.h>
#include <qcorolocalsocket.h>
#include <qcoronetworkreply.h>
#include <qcoroprocess.h>
#include <qcorosignal.h>
#include <qcorotask.h>
#include <qcorotcpserver.h>
#include <qcorowebsocket.h>
#include <qcorowebsocketserver.h>
using QCoro::Task;
using std::chrono::milliseconds;

// (The wrapper that qCoro() returns is gone when the wait waits, as it is for every task that is stored or continued with then().)
enum Effect { None, Good, Bad, Either }; // what an event means to a wait (Either: it is over, with any answer)
enum Answer { Waits, No, Yes, Any };  // what a wait that begins now answers at once (Any: something)
// An object and what can be waited for; events are numbered per situation.
struct Situation {
    int left[4] = {1, 1, 1, 1}; // how often each event may still happen
    virtual ~Situation() {}
    virtual QObject *object() = 0;
    virtual void destroy() = 0;
    virtual int ops() = 0;
    virtual Task<bool> wait(int op, milliseconds ms) = 0; // ms < 0: without a timeout
    virtual bool timeable(int) { return true; }
    virtual Answer answer(int) { return Waits; }
    virtual int events() = 0;
    virtual bool can(int) { return true; }
    virtual void happen(int e) = 0;
    virtual Effect effect(int op, int e) = 0; // (before it happens)
};
template<typename T> struct Owns : Situation {
    T *o = nullptr;
    ~Owns() override { destroy(); }
    QObject *object() override { return o; }
    void destroy() override { vqt::Mine m; T *p = o; o = nullptr; delete p; }
};

// signals
struct Signals : Owns<Sender> {
    Signals() { o = new Sender; }
    int ops() override { return 3; }
    static Task<bool> one(Sender *s, milliseconds ms) { if (ms.count() < 0) { co_await qCoro(s, &Sender::one); co_return true; } co_return (co_await qCoro(s, &Sender::one, ms)).has_value(); }
    static Task<bool> none(Sender *s, milliseconds ms) { if (ms.count() < 0) { co_await qCoro(s, &Sender::none); co_return true; } co_return (co_await qCoro(s, &Sender::none, ms)).has_value(); }
    static Task<bool> stream(Sender *s, milliseconds ms) {
        auto g = ms.count() < 0 ? qCoroSignalListener(s, &Sender::one) : qCoroSignalListener(s, &Sender::one, ms);
        auto it = co_await g.begin();
        co_return it != g.end();
    }
    Task<bool> wait(int op, milliseconds ms) override { return op == 0 ? one(o, ms) : op == 1 ? none(o, ms) : stream(o, ms); }
    int events() override { return 2; }
    void happen(int e) override { if (e) o->emitVoid(); else o->emitOne(5); }
    Effect effect(int op, int e) override { return (op == 1) == (e == 1) ? Good : None; }
};
// devices
struct Device : QIODevice {
    ~Device() override {}
    bool isSequential() const override { return true; }
    qint64 readData(char *, qint64) override { return -1; }
    qint64 writeData(const char *, qint64) override { return -1; }
    void start() { QIODevice::open(ReadWrite); }
};
template<typename D> static Task<bool> readable(D *d, milliseconds ms) { return ms.count() < 0 ? qCoro(d).waitForReadyRead(-1) : qCoro(d).waitForReadyRead(ms); }
static Task<bool> positive(Task<std::optional<qint64>> t) { co_return (co_await std::move(t)).value_or(-1) > 0; }
template<typename D> static Task<bool> written(D *d, milliseconds ms) { return positive(ms.count() < 0 ? qCoro(d).waitForBytesWritten(-1) : qCoro(d).waitForBytesWritten(ms)); }
static void oneByte(QIODevice *d) { static const uint8_t b = 'b'; vqt::arrive(d, &b, 1); }
struct Devices : Owns<Device> {
    Devices() { o = new Device; o->start(); vqt::io(o).toWrite = 2; }
    int ops() override { return 3; }
    static Task<bool> all(QIODevice *d) { co_return !(co_await d).isEmpty(); }
    Task<bool> wait(int op, milliseconds ms) override { return op == 2 ? all(o) : op ? written<QIODevice>(o, ms) : readable<QIODevice>(o, ms); }
    bool timeable(int op) override { return op != 2; }
    Answer answer(int op) override { return !o->isOpen() ? No : op == 1 ? vqt::io(o).toWrite ? Waits : No : vqt::io(o).nin ? Yes : Waits; }
    int events() override { return 3; }
    bool can(int e) override { return o->isOpen() && (e != 1 || vqt::io(o).toWrite); }
    void happen(int e) override { if (e == 0) oneByte(o); else if (e == 1) vqt::flush(o, 1); else o->close(); }
    Effect effect(int op, int e) override { return op == 2 ? e == 1 ? None : Either : e == 2 ? Bad : e == op ? Good : None; } // (the other waiter may take the data first)
};
// processes
struct Processes : Owns<QProcess> {
    bool running;
    Processes(bool r) : running(r) { o = new QProcess; o->start(QIODevice::ReadWrite); if (r) { vqt::processStarted(o); left[0] = 0; } vqt::io(o).toWrite = 2; }
    int ops() override { return running ? 3 : 2; }
    static Task<bool> started(QProcess *p, milliseconds ms) { return qCoro(p).waitForStarted(ms); }
    static Task<bool> finished(QProcess *p, milliseconds ms) { return qCoro(p).waitForFinished(ms); }
    int op(int i) { return running ? i + 1 : i; } // started, finished, readable, written
    Task<bool> wait(int i, milliseconds ms) override {
        switch (op(i)) { case 0: return started(o, ms); case 1: return finished(o, ms); case 2: return readable<QProcess>(o, ms); }
        return written<QProcess>(o, ms);
    }
    QProcess::ProcessState state() { return vqt::proc(o).state; }
    Answer answer(int i) override {
        switch (op(i)) {
        case 0: return state() == QProcess::Running ? Yes : state() == QProcess::NotRunning ? No : Waits;
        case 1: return state() == QProcess::NotRunning ? No : Waits;
        case 2: return vqt::io(o).nin ? Yes : Waits;
        }
        return vqt::io(o).toWrite ? Waits : No;
    }
    int events() override { return 4; } // started, over, data, flushed
    bool can(int e) override {
        switch (e) { case 0: return state() == QProcess::Starting; case 1: return state() != QProcess::NotRunning; case 2: return state() == QProcess::Running; }
        return state() == QProcess::Running && vqt::io(o).toWrite;
    }
    void happen(int e) override {
        switch (e) {
        case 0: vqt::processStarted(o); break;
        case 1: if (state() == QProcess::Running) vqt::processFinished(o, 0, false); else vqt::processFailed(o); break;
        case 2: oneByte(o); break;
        default: vqt::flush(o, 1);
        }
    }
    Effect effect(int i, int e) override {
        const int k = op(i);
        if (e == 1 && k <= 1) return k == 1 && state() == QProcess::Running ? Good : Bad;
        return e == k ? Good : None;
    }
};
// sockets
template<typename S> static Task<bool> connected(S *s, milliseconds ms) { return qCoro(s).waitForConnected(ms); }
template<typename S> static Task<bool> disconnected(S *s, milliseconds ms) { return qCoro(s).waitForDisconnected(ms); }
template<typename K> struct Sockets : Owns<typename K::Socket> {
    typedef typename K::Base Base; typedef Owns<typename K::Socket> Own; using Own::o; using Situation::left;
    bool on;
    Sockets(bool c) : on(c) { o = new typename K::Socket; K::attempt(o); if (c) { K::connect(o); left[0] = 0; vqt::io(o).toWrite = 2; } }
    int ops() override { return on ? 3 : 2; }
    int op(int i) { return on ? i + 1 : i; } // connected, disconnected, readable, written
    Task<bool> wait(int i, milliseconds ms) override {
        switch (op(i)) { case 0: return connected<Base>(o, ms); case 1: return disconnected<Base>(o, ms); case 2: return readable<Base>(o, ms); }
        return written<Base>(o, ms);
    }
    Answer answer(int i) override {
        switch (op(i)) {
        case 0: return K::connected(o) ? Yes : Waits;
        case 1: return K::unconnected(o) ? No : Waits;
        case 2: return vqt::io(o).nin ? Yes : K::connected(o) ? Waits : No;
        }
        return vqt::io(o).toWrite && K::connected(o) ? Waits : No;
    }
    int events() override { return 4; } // connected, over, data, flushed
    bool can(int e) override { return e == 0 ? !K::unconnected(o) && !K::connected(o) : e == 1 ? !K::unconnected(o) : K::connected(o) && (e == 2 || vqt::io(o).toWrite); }
    void happen(int e) override {
        switch (e) {
        case 0: K::connect(o); break;
        case 1: if (K::connected(o)) K::end(o, true); else K::fail(o); break;
        case 2: oneByte(o); break;
        default: vqt::flush(o, 1);
        }
    }
    Effect effect(int i, int e) override {
        const int k = op(i);
        if (e == 1) return k == 1 && K::connected(o) ? Good : Bad;
        return e == k ? Good : None;
    }
};
struct TcpKind {
    typedef QAbstractSocket A; typedef QTcpSocket Base;
    struct Socket : QTcpSocket { ~Socket() override {} };
    static void attempt(Socket *s) { s->QAbstractSocket::connectToHost(QString(), 1, QIODevice::ReadWrite); if (vqt::sock(s).state == A::HostLookupState) vqt::socketState(s, A::ConnectingState); }
    static bool unconnected(Socket *s) { return vqt::sock(s).state == A::UnconnectedState; }
    static bool connected(Socket *s) { return vqt::sock(s).state == A::ConnectedState; }
    static void connect(Socket *s) { vqt::socketConnected(s); }
    static void fail(Socket *s) { vqt::socketFailed(s, A::ConnectionRefusedError); }
    static void end(Socket *s, bool byPeer) { vqt::socketDisconnected(s, byPeer); }
};
struct LocalKind {
    typedef QLocalSocket L; typedef QLocalSocket Base;
    struct Socket : QLocalSocket { ~Socket() override {} };
    static void attempt(Socket *s) { s->QLocalSocket::connectToServer(QIODevice::ReadWrite); }
    static bool unconnected(Socket *s) { return vqt::local(s).state == L::UnconnectedState; }
    static bool connected(Socket *s) { return vqt::local(s).state == L::ConnectedState; }
    static void connect(Socket *s) { vqt::localConnected(s); }
    static void fail(Socket *s) { vqt::localFailed(s); }
    static void end(Socket *s, bool byPeer) { vqt::localDisconnected(s, byPeer); }
};
// replies
struct Reply : QNetworkReply {
    ~Reply() override {}
    void abort() override {}
    qint64 readData(char *, qint64) override { return -1; }
    void start() { QIODevice::open(ReadOnly); }
};
struct Replies : Owns<Reply> {
    Replies() { o = new Reply; o->start(); }
    int ops() override { return 3; }
    static Task<bool> reply(Replies *t, QNetworkReply *r) { QNetworkReply *same = co_await r; vf::check(same == t->o, "co_await gives the reply"); co_return true; }
    static Task<bool> finished(QNetworkReply *r, milliseconds ms) { return ms.count() < 0 ? qCoro(r).waitForFinished() : qCoro(r).waitForFinished(ms); }
    Task<bool> wait(int op, milliseconds ms) override { return op == 0 ? reply(this, o) : op == 1 ? finished(o, ms) : readable<QNetworkReply>(o, ms); }
    bool timeable(int op) override { return op != 0; }
    bool over() { return vqt::replyIsFinished(o); }
    Answer answer(int op) override { return op == 2 ? vqt::io(o).nin ? Yes : over() ? Any : Waits : over() ? Yes : Waits; }
    int events() override { return 2; }
    bool can(int) override { return !over(); }
    void happen(int e) override { if (e) vqt::replyFinished(o); else oneByte(o); }
    Effect effect(int op, int e) override { return e && op == 2 ? Either : e || op == 2 ? Good : None; }
};
// servers
struct TcpServer : QTcpServer { ~TcpServer() override {} };
struct TcpServers : Owns<TcpServer> {
    TcpServers() { o = new TcpServer; vqt::server(o).listening = true; }
    int ops() override { return 1; }
    static Task<bool> got(Task<QTcpSocket *> t) { std::unique_ptr<QTcpSocket> c(co_await std::move(t)); co_return bool(c); }
    Task<bool> wait(int, milliseconds ms) override { return got(qCoro(o).waitForNewConnection(ms)); }
    Answer answer(int) override { return vqt::server(o).n ? Yes : Waits; }
    int events() override { return 1; }
    void happen(int) override { auto c = new TcpKind::Socket; c->setParent(o); vqt::newConnection(o, c); }
    Effect effect(int, int) override { return Good; }
};
struct WebSocket : QWebSocket { ~WebSocket() override {} };
struct WsServer : QWebSocketServer { WsServer() : QWebSocketServer(QString(), NonSecureMode) {} ~WsServer() override {} };
struct WsServers : Owns<WsServer> {
    WsServers() { o = new WsServer; vqt::wsServer(o).listening = true; }
    int ops() override { return 1; }
    static Task<bool> got(Task<QWebSocket *> t) { std::unique_ptr<QWebSocket> c(co_await std::move(t)); co_return bool(c); }
    Task<bool> wait(int, milliseconds ms) override { return got(qCoro(o).nextPendingConnection(ms)); }
    Answer answer(int) override { return vqt::wsServer(o).n ? Yes : Waits; }
    int events() override { return 1; }
    void happen(int) override { auto c = new WebSocket; c->setParent(o); vqt::wsNewConnection(o, c); }
    Effect effect(int, int) override { return Good; }
};
// web sockets
struct WebSockets : Owns<WebSocket> {
    WebSockets() { o = new WebSocket; vqt::ws(o).state = QAbstractSocket::ConnectedState; }
    int ops() override { return 3; }
    static Task<bool> got(Task<std::optional<milliseconds>> t) { co_return (co_await std::move(t)).has_value(); }
    template<typename G> static Task<bool> first(G g) { auto it = co_await g.begin(); co_return it != g.end(); }
    Task<bool> wait(int op, milliseconds ms) override {
        const bool timed = ms.count() >= 0;
        return op == 0 ? got(timed ? qCoro(o).ping("p", ms) : qCoro(o).ping("p")) : op == 1 ? first(timed ? qCoro(o).binaryMessages(ms) : qCoro(o).binaryMessages()) : first(timed ? qCoro(o).textFrames(ms) : qCoro(o).textFrames());
    }
    bool on() { return vqt::ws(o).state == QAbstractSocket::ConnectedState; }
    Answer answer(int op) override { if (op && !on()) vf_end_(); return on() ? Waits : No; } // (streams begin on connected sockets)
    int events() override { return 4; }
    bool can(int) override { return on(); }
    void happen(int e) override {
        switch (e) {
        case 0: { quint64 t = 3; vqt::emitSignal(o, &QWebSocket::pong, t, QByteArray("p")); break; }
        case 1: vqt::emitSignal(o, &QWebSocket::binaryMessageReceived, QByteArray("m")); break;
        case 2: { bool last = true; vqt::emitSignal(o, &QWebSocket::textFrameReceived, QString(1, QChar(u'f')), last); break; }
        default: o->abort();
        }
    }
    Effect effect(int op, int e) override { return e == 3 ? Bad : e == op ? Good : None; }
};
static const int SITUATIONS = 12;
static std::unique_ptr<Situation> situation(unsigned k) {
    switch (k) {
    case 0: return std::make_unique<Signals>();
    case 1: return std::make_unique<Devices>();
    case 2: return std::make_unique<Processes>(false);
    case 3: return std::make_unique<Processes>(true);
    case 4: return std::make_unique<Sockets<TcpKind>>(false);
    case 5: return std::make_unique<Sockets<TcpKind>>(true);
    case 6: return std::make_unique<Sockets<LocalKind>>(false);
    case 7: return std::make_unique<Sockets<LocalKind>>(true);
    case 8: return std::make_unique<Replies>();
    case 9: return std::make_unique<WebSockets>();
    case 10: return std::make_unique<TcpServers>();
    }
    return std::make_unique<WsServers>();
}
struct World;
// one wait and what it has to answer
struct Waiter {
    World &w; int op = 0; bool timed = false; int64_t timeout = -1;
    bool begun = false, immediate = false, result = false; Answer expected = Waits; int resumed = 0, turn = -1; int64_t t0 = 0, t1 = 0;
    Effect first = None; int firstTurn = -1; // the first event that matters
    bool waiting() const { return begun && !resumed; }
    bool timeUp() const { return timed && t1 - t0 >= timeout; }
    void choose();
    Task<bool> begin();
    void done(bool answer);
};
struct World : vqt::Env {
    std::unique_ptr<Situation> s;
    Waiter *waiters[2]; int n = 0, turn = 0, happenings = 0;
    explicit World(unsigned k) : s(situation(k)) { vqt::env = this; vqt::clockRuns = true; }
    ~World() override { vqt::env = nullptr; }
    bool can(int e) { return s->left[e] > 0 && s->can(e); }
    unsigned acts() override {
        unsigned k = 0;
        if (s->object() && happenings > 0) for (int e = 0; e < s->events(); e++) k += can(e);
        return k;
    }
    void act(unsigned i) override { for (int e = 0; e < s->events(); e++) if (can(e) && i-- == 0) { happen(e); return; } }
    void destroy() { for (int i = 0; i < n; i++) if (waiters[i]->waiting() && waiters[i]->first == None) waiters[i]->first = Either; s->destroy(); }
    void happen(int e) {
        s->left[e]--; happenings--;
        for (int i = 0; i < n; i++) {
            Waiter &x = *waiters[i];
            const Effect f = x.waiting() && x.first == None ? s->effect(x.op, e) : None;
            if (f != None) { x.first = f; x.firstTurn = turn; }
        }
        s->happen(e);
    }
};
inline void Waiter::choose() {
    op = int(vf::choice("op", w.s->ops()));
    timed = w.s->timeable(op) && vf::flag("timed");
    if (timed) timeout = vf::range("timeout", 0, 0x7fffffff);
}
inline Task<bool> Waiter::begin() {
    w.waiters[w.n++] = this;
    const Answer a = w.s->answer(op);
    t0 = vqt::now();
    auto t = w.s->wait(op, milliseconds(timeout));
    begun = true; immediate = t.isReady();
    vf::check(immediate == (a != Waits), "the answer is immediate exactly if there is nothing to wait for");
    expected = a;
    return t;
}
inline void Waiter::done(bool answer) {
    t1 = vqt::now(); turn = w.turn; result = answer;
    vf::check(++resumed == 1, "the waiter resumes once");
    vqt::onTime(t0, timeout);
    if (immediate) { vf::check(expected == Any || result == (expected == Yes), "the immediate answer is the object's state"); return; }
    if (first == Either) return;
    if (result) vf::check(first == Good, "success only if what was waited for happened first");
    else {
        vf::check(first == Bad || timeUp(), "no success only at the wait's own timeout, or when what is waited for has become impossible");
        if (first == Good) vf::check(firstTurn >= turn - 1, "what happened in time is reported");
    }
}
