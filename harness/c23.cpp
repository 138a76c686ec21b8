// C23: QTcpServer::waitForNewConnection()
#include "common.h"
#include "vqt_net.h"
#include <qcorotcpserver.h>
#include <qcorotask.h>
using QCoro::Task;
using std::chrono::milliseconds;

struct Server : QTcpServer { Server() { setMaxPendingConnections(vf::range32("limit", 0, 1 << 20)); } ~Server() override {} };
struct Conn : QTcpSocket { ~Conn() override {} };
static const int MAXC = 5, MAXW = 2;
struct World : vqt::Env {
    Server *s = nullptr;
    Conn *conns[MAXC]; int arrived = 0, taken = 0; bool closedDown = false;
    int arrivals = 0; bool othersTook = false, canTake = false, canClose = false, canDestroy = false, canListen = false;
    int turn = 0, closeTurn = -1, goneTurn = -1, arriveTurn[MAXC];
    bool handed[MAXC] = {};
    World() { vqt::env = this; vqt::clockRuns = true; s = new Server; }
    ~World() override { vqt::env = nullptr; delete s; for (int i = 0; i < arrived; i++) if (handed[i]) delete conns[i]; }
    enum Act { Arrive, Take, Close, Listen, Destroy, N };
    bool can(int a) {
        if (!s) return false;
        auto &x = vqt::server(s);
        switch (a) {
        case Arrive: return x.listening && arrivals > 0;
        case Take: return canTake && x.n > 0;
        case Close: return canClose && x.listening;
        case Listen: return canListen && !x.listening;
        default: return canDestroy;
        }
    }
    unsigned acts() override { unsigned n = 0; for (int a = 0; a < N; a++) n += can(a); return n; }
    void act(unsigned i) override { for (int a = 0; a < N; a++) if (can(a) && i-- == 0) { perform(a); return; } }
    void arrive() { arriveTurn[arrived] = turn; Conn *c = conns[arrived++] = new Conn; vqt::newConnection(s, c); }
    void handedOut(QTcpSocket *c) { // every connection goes to one taker, in the order of arrival
        int i = 0;
        while (i < arrived && conns[i] != c) i++;
        vf::check(i < arrived, "what is handed out is a connection of the server");
        vf::check(!handed[i], "a connection is handed out once");
        for (int k = 0; k < i; k++) vf::check(handed[k] || closedDown, "connections are handed out in the order of arrival");
        handed[i] = true; taken++;
    }
    void perform(int a) {
        switch (a) {
        case Arrive: arrivals--; arrive(); break;
        case Take: canTake = false; othersTook = true; handedOut(s->nextPendingConnection()); break;
        case Close: canClose = false; if (closeTurn < 0) closeTurn = turn; closedDown = true; s->close(); break;
        case Listen: canListen = false; vqt::server(s).listening = true; break;
        default: if (goneTurn < 0) goneTurn = turn; closedDown = true; delete s; s = nullptr;
        }
    }
};
struct Wait {
    World &w; int64_t timeout = 30000; bool timed = false; int resumed = 0, turn = -1; QTcpSocket *result = nullptr; int64_t t0 = 0, t1 = 0;
    bool timeUp() const { return timeout >= 0 && t1 - t0 >= timeout; }
};
static Task<> wait(Wait &x) {
    Server *s = x.w.s; Server &r = *s;
    x.t0 = vqt::now();
    if (!x.timed) x.result = co_await TEMPORARY(qCoro(s).waitForNewConnection());
    else if (vf::flag("int_overload")) x.result = co_await TEMPORARY(qCoro(r).waitForNewConnection(int(x.timeout)));
    else x.result = co_await TEMPORARY(qCoro(s).waitForNewConnection(milliseconds(x.timeout)));
    x.t1 = vqt::now(); x.turn = x.w.turn; vqt::onTime(x.t0, x.timeout);
    vf::check(++x.resumed == 1, "the waiter resumes once");
    if (x.result) x.w.handedOut(x.result);
    else if (x.w.s && vqt::server(x.w.s).listening && !x.timeUp() && x.w.closeTurn < 0) vf::check(false, "null only if the server does not listen, or at the timeout");
}
static bool othersTook(World &w) { return w.othersTook; }
static void waits(int waiters, bool harm, int maxTurns) {
    Scope scope;
    {
        World w;
        Wait x[MAXW] = {{w}, {w}};
        for (int i = 0; i < waiters; i++) if ((x[i].timed = vf::flag("timed"))) { x[i].timeout = vf::range("timeout", -2, 0x7fffffff); }
        const bool listening = vf::flag("listening");
        vqt::server(w.s).listening = listening;
        const int pending = listening ? int(vf::choice("pending", 3)) : 0;
        for (int i = 0; i < pending; i++) w.arrive();
        w.arrivals = waiters == 2 && harm ? BOUND(1, 2) : BOUND(2, 3); w.canTake = vf::flag("others_take");
        w.canClose = harm; w.canDestroy = harm; w.canListen = !listening || harm;
        {
            Task<> t[MAXW];
            for (int i = 0; i < waiters; i++) {
                t[i] = wait(x[i]);
                if (!listening) vf::check(x[i].resumed == 1 && !x[i].result, "not listening: the answer is null at once");
                else if (pending > i) vf::check(x[i].resumed == 1 && x[i].result == w.conns[i], "a pending connection is handed out at once");
                else vf::check(!x[i].resumed, "no connection yet: the waiter waits");
            }
            bool judged[MAXW] = {x[0].resumed == 1, x[1].resumed == 1};
            const bool atOnce = judged[0];
            for (w.turn = 1; vqt::turn(); w.turn++) {
                if (w.turn > maxTurns) vf_bound_("event loop turns");
                for (int i = 0; i < waiters; i++) if (!judged[i] && x[i].resumed) {
                    judged[i] = true;
                    if (!x[i].result) vf::check(x[i].timeUp() || w.closeTurn >= 0 || w.goneTurn >= 0, "null only after the timeout or when the server is closed");
                    if (!x[i].result && w.closeTurn < 0 && w.goneTurn < 0 && waiters == 1 && !othersTook(w)) {
                        for (int k = pending; k < w.arrived; k++) vf::check(w.arriveTurn[k] >= x[i].turn - 1, "a connection that came in time is handed out");
                    }
                }
            }
            for (int i = 0; i < waiters; i++) {
                if (w.s && vqt::server(w.s).n > 0 && w.closeTurn < 0) vf::check(x[i].resumed == 1, "nobody waits while a connection is pending");
                if (x[i].timeout >= 0) vf::check(x[i].resumed == 1, "the waiter resumes at the timeout at the latest");
                vf::log("resumed", x[i].resumed); vf::log("result", x[i].result != nullptr);
            }
            if (w.s && w.closeTurn < 0) vf::check(w.taken + vqt::server(w.s).n == w.arrived, "no connection is dropped");
            vf::reach(atOnce ? x[0].result ? "at once: connection" : "at once: null" : !x[0].resumed ? "waiting" : x[0].result ? "later: connection" : "later: null");
            for (int i = 0; i < waiters; i++) if (!x[i].resumed) vf_end_();
        }
        vf::check(vqt::timers() == 0, "no timer is left behind");
        if (w.s) vf::check(vqt::connections(w.s) == 0, "no connection is left behind");
    }
    scope.finish();
}
HARNESS(h_c23_one) { waits(1, false, 12); }
HARNESS(h_c23_one_harm) { waits(1, true, 14); }
HARNESS(h_c23_two) { waits(2, false, 14); }
HARNESS(h_c23_two_harm) { waits(2, true, 16); }
// many connections
static Task<> acceptAll(Server *s, Conn **c, int n, int &got) { for (int i = 0; i < n; i++) { QTcpSocket *x = co_await TEMPORARY(qCoro(s).waitForNewConnection(milliseconds(1000))); vf::check(x == c[i], "connections are handed out in the order of arrival"); got++; } }
HARNESS(h_c23_many) {
    static const int N = BOUND(40, 60);
    Scope scope;
    {
        Server *s = new Server; vqt::server(s).listening = true;
        Conn *c[N]; int got = 0;
        for (auto &x : c) x = new Conn;
        const int before = int(vf::choice("pending_before", 3)) * N / 2;
        {
            for (int i = 0; i < before; i++) vqt::newConnection(s, c[i]);
            auto t = acceptAll(s, c, N, got);
            vf::check(got == before, "pending connections are handed out at once");
            const bool single = vf::flag("one_by_one");
            for (int i = before; i < N; i++) { vqt::newConnection(s, c[i]); if (single) { vqt::settle(); vf::check(got == i + 1, "a connection is handed out when it arrives"); } }
            vqt::settle();
            vf::check(got == N && t.isReady(), "every connection is handed out");
        }
        vf::check(vqt::timers() == 0 && vqt::connections(s) == 0, "nothing is left behind");
        delete s; vqt::settle();
        for (auto x : c) delete x;
        vf::reach("done");
    }
    scope.finish();
}
