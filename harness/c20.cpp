// C20: TCP/UDP sockets
#include "socket.h"
#include <qcoroabstractsocket.h>
struct Tcp {
    struct Socket : QTcpSocket { ~Socket() override {} };
    typedef QAbstractSocket A;
    static bool is(Socket *s, A::SocketState st) { return vqt::sock(s).state == st; }
    static bool unconnected(Socket *s) { return is(s, A::UnconnectedState); }
    static bool looking(Socket *s) { return is(s, A::HostLookupState); }
    static bool connecting(Socket *s) { return is(s, A::ConnectingState); }
    static bool connected(Socket *s) { return is(s, A::ConnectedState); }
    static bool closing(Socket *s) { return is(s, A::ClosingState); }
    static void attempt(Socket *s) { s->QAbstractSocket::connectToHost(QString(), 1, QIODevice::ReadWrite); }
    static void progress(Socket *s) { vqt::socketState(s, A::ConnectingState); }
    static void connect(Socket *s) { vqt::socketConnected(s); }
    static void fail(Socket *s) { vqt::socketFailed(s, A::ConnectionRefusedError); }
    static void close(Socket *s) { vqt::socketClosing(s); }
    static void end(Socket *s, bool byPeer) { vqt::socketDisconnected(s, byPeer); }
    static void plan(Socket *s, vqt::Attempt a) { vqt::sock(s).attempt = a; }
    static int connects(Socket *s) { return vqt::sock(s).connects; }
    struct Request {
        bool byName; QString name; QHostAddress address; quint16 port; QIODevice::OpenMode mode; A::NetworkLayerProtocol protocol; bool defaults;
        Request() : address(quint32(vf::i32("address"))) {
            byName = vf::flag("by_name"); name = vqt::text("host");
            port = quint16(vf::range32("port", 0, 65535)); defaults = vf::flag("defaults");
            mode = QIODevice::OpenMode(QFlag(defaults ? 3 : 1 + vf::choice("mode", 3)));
            if (!defaults) mode |= QIODevice::OpenMode(QFlag(vf::range32("flags", 0, 15) << 4)); // Text, Unbuffered ...
            protocol = A::NetworkLayerProtocol(defaults || !byName ? 2 : vf::i32("protocol"));
        }
        Task<> start(Wait<Tcp> &x) { if (defaults) x.timed = false, x.timeout = 30000; return go(*this, x); }
        static Task<> go(Request &q, Wait<Tcp> &x) {
            Socket *s = x.w.s; const milliseconds ms(x.timed ? x.timeout : x.timeout = 30000);
            x.t0 = vqt::now();
            if (q.byName) x.result = q.defaults ? co_await qCoro(s).connectToHost(q.name, q.port) : co_await qCoro(*s).connectToHost(q.name, q.port, q.mode, q.protocol, ms);
            else x.result = q.defaults ? co_await qCoro(*s).connectToHost(q.address, q.port) : co_await qCoro(s).connectToHost(q.address, q.port, q.mode, ms);
            x.done();
        }
        void verify(Socket *s) {
            auto &k = vqt::sock(s);
            if (byName) vf::check(k.host == name && k.protocol == protocol, "host and protocol reach the socket");
            else vf::check(k.address == address, "the address reaches the socket");
            vf::check(k.port == port && k.mode == mode, "port and mode reach the socket");
        }
    };
};
HARNESS(h_c20_connected) { waits<Tcp>(0, false, 12); }
HARNESS(h_c20_disconnected) { waits<Tcp>(1, false, 12); }
HARNESS(h_c20_connected_harm) { waits<Tcp>(0, true, 12); }
HARNESS(h_c20_disconnected_harm) { waits<Tcp>(1, true, 12); }
HARNESS(h_c20_connect) { vqt::textSize = vf::flag("empty_texts") ? 0 : 80; connects<Tcp>(false, 12); }
HARNESS(h_c20_connect_harm) { connects<Tcp>(true, 12); }
HARNESS(h_c20_reads) { reads<Tcp>(false, 12); }
HARNESS(h_c20_reads_harm) { reads<Tcp>(true, 12); }
HARNESS(h_c20_writes) { writes<Tcp>(false, 14); }
HARNESS(h_c20_writes_harm) { writes<Tcp>(true, 14); }
// many connections, one after the other
static Task<> cycles(QTcpSocket *s, int n, int &got) {
    for (int i = 0; i < n; i++) {
        vf::check(co_await qCoro(s).connectToHost(QString(), 1), "true when connected");
        vf::check(co_await qCoro(s).waitForDisconnected(), "true when disconnected");
        got++;
    }
}
HARNESS(h_c20_many) {
    static const int N = BOUND(120, 300);
    Scope scope;
    {
        auto *s = new Tcp::Socket; int got = 0;
        {
            auto t = cycles(s, N, got);
            for (int i = 0; i < N; i++) { if (Tcp::looking(s)) Tcp::progress(s); vqt::socketConnected(s); vqt::settle(); vqt::socketDisconnected(s, i & 1); vqt::settle(); vf::check(got == i + 1, "every connection and its end are noticed"); }
            vf::check(t.isReady(), "every wait ends");
        }
        vf::check(vqt::timers() == 0 && vqt::connections(s) == 0, "nothing is left behind");
        delete s;
        vf::reach("done");
    }
    scope.finish();
}
