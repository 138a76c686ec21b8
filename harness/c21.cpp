// C21: local sockets
#include "socket.h"
#include <qcorolocalsocket.h>
struct Loc {
    struct Socket : QLocalSocket { ~Socket() override {} };
    typedef QLocalSocket L;
    static bool is(Socket *s, L::LocalSocketState st) { return vqt::local(s).state == st; }
    static bool unconnected(Socket *s) { return is(s, L::UnconnectedState); }
    static bool looking(Socket *) { return false; }
    static bool connecting(Socket *s) { return is(s, L::ConnectingState); }
    static bool connected(Socket *s) { return is(s, L::ConnectedState); }
    static bool closing(Socket *s) { return is(s, L::ClosingState); }
    static void attempt(Socket *s) { s->QLocalSocket::connectToServer(QIODevice::ReadWrite); }
    static void progress(Socket *) {}
    static void connect(Socket *s) { vqt::localConnected(s); }
    static void fail(Socket *s) { vqt::localFailed(s); }
    static void close(Socket *s) { vqt::localClosing(s); }
    static void end(Socket *s, bool byPeer) { vqt::localDisconnected(s, byPeer); }
    static void plan(Socket *s, vqt::Attempt a) { vqt::local(s).attempt = a; }
    static int connects(Socket *s) { return vqt::local(s).connects; }
    struct Request {
        bool byName, defaults; QString name; QIODevice::OpenMode mode;
        Request() {
            byName = vf::flag("by_name"); name = vqt::text("server");
            defaults = vf::flag("defaults");
            mode = QIODevice::OpenMode(QFlag(defaults ? 3 : 1 + vf::choice("mode", 3)));
            if (!defaults) mode |= QIODevice::OpenMode(QFlag(vf::range32("flags", 0, 15) << 4)); // Text, Unbuffered ...
        }
        Task<> start(Wait<Loc> &x) {
            if (!byName && S_unconnected(x)) x.w.s->setServerName(name);
            if (defaults) x.timed = false;
            if (!x.timed) x.timeout = 30000;
            return go(*this, x);
        }
        static bool S_unconnected(Wait<Loc> &x) { return unconnected(x.w.s); }
        static Task<> go(Request &q, Wait<Loc> &x) {
            Socket *s = x.w.s; const milliseconds ms(x.timeout);
            x.t0 = vqt::now();
            if (q.byName) x.result = q.defaults ? co_await qCoro(s).connectToServer(q.name) : co_await qCoro(*s).connectToServer(q.name, q.mode, ms);
            else x.result = q.defaults ? co_await qCoro(*s).connectToServer() : co_await qCoro(s).connectToServer(q.mode, ms);
            x.done();
        }
        void verify(Socket *s) {
            auto &k = vqt::local(s);
            vf::check(k.name == name, "the server name reaches the socket");
            vf::check(k.mode == mode, "the mode reaches the socket");
        }
    };
};
HARNESS(h_c21_connected) { waits<Loc>(0, false, 12); }
HARNESS(h_c21_disconnected) { waits<Loc>(1, false, 12); }
HARNESS(h_c21_connected_harm) { waits<Loc>(0, true, 12); }
HARNESS(h_c21_disconnected_harm) { waits<Loc>(1, true, 12); }
HARNESS(h_c21_connect) { vqt::textSize = vf::flag("empty_texts") ? 0 : 80; connects<Loc>(false, 12); }
HARNESS(h_c21_connect_harm) { connects<Loc>(true, 12); }
HARNESS(h_c21_reads) { reads<Loc>(false, 12); }
HARNESS(h_c21_reads_harm) { reads<Loc>(true, 12); }
HARNESS(h_c21_writes) { writes<Loc>(false, 14); }
HARNESS(h_c21_writes_harm) { writes<Loc>(true, 14); }
