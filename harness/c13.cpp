// C13: reading from a device
#include "common.h"
#include "vqt_io.h"
#include <qcoroiodevice.h>
#include <qcorotask.h>
using QCoro::Task;
using std::chrono::milliseconds;

struct Device : QIODevice {
    bool closes; // the destructor closes it, as QFile's does
    explicit Device(bool c = false) : closes(c) {}
    ~Device() override { if (closes) close(); }
    qint64 readData(char *, qint64) override { return -1; }
    qint64 writeData(const char *, qint64) override { return -1; }
};
// A device of any kind: sequential or not, within a transaction or not, opened in any further mode.
static void openDevice(Device *d, QIODevice::OpenMode m) {
    unsigned more = vf::u8("more_flags");
    more &= QIODevice::ReadWrite | QIODevice::Append | QIODevice::Truncate | QIODevice::Text | QIODevice::Unbuffered;
    if (m == QIODevice::WriteOnly) more &= ~unsigned(QIODevice::ReadOnly);
    d->open(QIODevice::OpenMode(int(unsigned(m) | more)));
    vqt::Io &io = vqt::io(d);
    io.sequential = vf::u8("sequential") & 1; io.transaction = vf::u8("transaction") & 1;
}
static const unsigned MAXB = 6;
struct World : vqt::Env {
    Device *dev = nullptr;
    uint8_t bytes[MAXB]; unsigned arrived = 0;   // everything that ever arrived
    unsigned left = 0;                           // arrivals to come
    bool canClose = false, canDestroy = false, canSteal = false;
    bool closed = false;
    int turn = 0, readyTurn = -1, closeTurn = -1; // first arrival / close after the call
    World() { vqt::env = this; vqt::clockRuns = true; }
    ~World() override { vqt::env = nullptr; delete dev; }
    unsigned acts() override { return dev ? (left && !closed) + (canClose && !closed) + canDestroy + (canSteal && !closed && vqt::io(dev).nin) : 0; }
    void data(bool notify = true) {
        left--;
        unsigned n = 1 + vf::choice("chunk", 2);
        uint8_t c[2];
        for (unsigned i = 0; i < n; i++) bytes[arrived + i] = c[i] = vf::u8("byte");
        arrived += n;
        if (readyTurn < 0 && notify) readyTurn = turn;
        vqt::arrive(dev, c, n);
    }
    void close() { if (closeTurn < 0) closeTurn = turn; closed = true; dev->close(); }
    void act(unsigned i) override {
        if (left && !closed && i-- == 0) { data(); return; }
        if (canClose && !closed && i-- == 0) { close(); return; }
        if (canDestroy && i-- == 0) { if (dev->closes && !closed && closeTurn < 0) closeTurn = turn; delete dev; dev = nullptr; return; }
        canSteal = false;
        dev->readAll(); // somebody else takes the data
    }
};
enum Op { ReadyRead, ReadyReadInt, ReadAll, Read, ReadLine, AwaitPtr, AwaitRef, OPS };
struct Wait {
    World &w; Op op; bool timed = false; int64_t timeout = -1, max = 0;
    int resumed = 0, resumedTurn = -1; bool truth = false; int64_t t0 = 0, t1 = 0;
};
// what a read with these parameters gives from the bytes at hand
static unsigned expected(Wait &x, const uint8_t *p, unsigned n) {
    if (x.op == ReadAll || x.op == AwaitPtr || x.op == AwaitRef) return n;
    if (x.max < 0) return 0;
    unsigned k = 0;
    while (k < n && (x.op == ReadLine && x.max == 0 ? true : k < x.max)) if (p[k++] == '\n' && x.op == ReadLine) break;
    return k;
}
static Task<> wait(Wait &x) {
    World &w = x.w;
    x.t0 = vqt::now();
    QByteArray got; bool data = true;
    milliseconds ms(x.timeout);
    switch (x.op) {
    case ReadyRead: data = false; x.truth = co_await TEMPORARY(qCoro(w.dev).waitForReadyRead(ms)); break;
    case ReadyReadInt: data = false; x.truth = co_await TEMPORARY(qCoro(*w.dev).waitForReadyRead(int(x.timeout))); break;
    case ReadAll: got = x.timed ? co_await TEMPORARY(qCoro(w.dev).readAll(ms)) : co_await TEMPORARY(qCoro(w.dev).readAll()); break;
    case Read: got = x.timed ? co_await TEMPORARY(qCoro(*w.dev).read(x.max, ms)) : co_await TEMPORARY(qCoro(*w.dev).read(x.max)); break;
    case ReadLine: got = x.timed ? co_await TEMPORARY(qCoro(w.dev).readLine(x.max, ms)) : x.max == 0 ? co_await TEMPORARY(qCoro(w.dev).readLine()) : co_await TEMPORARY(qCoro(w.dev).readLine(x.max)); break;
    case AwaitPtr: { Device *d = w.dev; got = co_await d; break; }
    default: { Device &d = *w.dev; got = co_await d; break; }
    }
    x.resumed++; x.resumedTurn = w.turn; x.t1 = vqt::now(); vqt::onTime(x.t0, x.timeout);
    vf::check(x.resumed == 1, "a read completes once");
    if (!data) {
        if (x.truth) vf::check(w.readyTurn >= 0 || (w.dev && vqt::io(w.dev).nin), "waitForReadyRead() is true only if data arrived");
        co_return;
    }
    x.truth = !got.isEmpty();
    // The bytes handed out are the next ones of the device: what was taken and what is left make up what arrived.
    if (x.truth) {
        vf::check(w.dev && !w.closed, "data comes from an open device");
        unsigned rest = vqt::io(w.dev).nin, n = unsigned(got.size());
        vf::check(n + rest <= w.arrived, "no more bytes than arrived");
        unsigned from = w.arrived - rest - n;
        if (w.canSteal) vf::check(from == 0, "the data starts with the next byte");
        for (unsigned i = 0; i < n; i++) vf::check(uint8_t(got.at(i)) == w.bytes[from + i], "the data is the device's data");
        for (unsigned i = 0; i < rest; i++) vf::check(vqt::io(w.dev).in[i] == w.bytes[from + n + i], "what was not asked for stays in the device");
        vf::check(expected(x, w.bytes + from, n + rest) == n, "as much is read as was asked for");
    } else if (w.dev && !w.closed && (vqt::io(w.dev).mode & QIODevice::ReadOnly)) {
        uint8_t *p = vqt::io(w.dev).in;
        bool timeUp = x.timed && x.timeout >= 0 && x.t1 - x.t0 >= x.timeout;
        if (!timeUp) vf::check(expected(x, p, vqt::io(w.dev).nin) == 0, "a read is empty only if there was nothing to read");
    }
    vf::log("size", got.size());
}
static void reads(bool timed, bool harm, int maxTurns, unsigned chunks) {
    Scope scope;
    {
        World w;
        w.dev = new Device(harm && vf::flag("destructor_closes"));
        Wait x{w, Op(vf::choice("op", timed ? AwaitPtr : OPS))};
        x.timed = timed;
        if (timed) x.timeout = vf::range("timeout", -2, 0x7fffffff);
        if (x.op == Read || x.op == ReadLine) x.max = vf::i64("max_size");
        // the device at the call: closed, write-only, readable
        unsigned mode = vf::choice("mode", 3);
        if (mode) openDevice(w.dev, mode == 1 ? QIODevice::WriteOnly : QIODevice::ReadOnly);
        if (!mode) w.closed = true;
        w.left = mode == 2 ? chunks : 0;
        if (mode == 2 && vf::flag("data_before")) w.data(false);
        const bool have = vqt::io(w.dev).nin != 0;
        w.canClose = harm && mode; w.canDestroy = harm; w.canSteal = harm && mode == 2;
        if (!harm && !timed && mode == 2 && x.op >= AwaitPtr) w.canClose = true;
        {
            auto t = wait(x);
            if (mode != 2) vf::check(x.resumed == 1 && !x.truth, "a device that is not readable: the answer is immediate and negative");
            else if (have) vf::check(x.resumed == 1, "data at hand: the answer is immediate");
            else vf::check(x.resumed == 0, "no data: the read waits");
            if (have && x.op <= ReadyReadInt) vf::check(x.truth, "waitForReadyRead() is true when there is data");
            const bool atOnce = x.resumed;
            bool judged = atOnce;
            for (w.turn = 1; vqt::turn(); w.turn++) {
                if (w.turn > maxTurns) vf_bound_("event loop turns");
                if (!judged && x.resumed) {
                    judged = true;
                    bool timeUp = x.timed && x.timeout >= 0 && x.t1 - x.t0 >= x.timeout;
                    bool ready = w.readyTurn >= 0 && w.readyTurn < w.turn, closed = w.closeTurn >= 0;
                    vf::check(w.readyTurn >= 0 || closed || timeUp, "a waiting read completes when data arrives, at close or at its timeout, not before");
                    if (x.op <= ReadyReadInt) {
                        if (!x.truth) vf::check(timeUp || closed, "waitForReadyRead() is false only after its timeout or at close");
                        if (ready && (!closed || w.readyTurn < w.closeTurn) && w.readyTurn < x.resumedTurn - 1) vf::check(x.truth, "waitForReadyRead() is true when data arrived in time");
                        if (closed && w.readyTurn < 0) vf::check(!x.truth, "waitForReadyRead() is false when the device is closed");
                    }
                }
            }
            bool event = w.readyTurn >= 0 || w.closeTurn >= 0;
            if (event) vf::check(x.resumed == 1, "a read completes when data arrived or the device was closed, also if it is destroyed right afterwards");
            if (x.timed && x.timeout >= 0 && x.op < AwaitPtr) vf::check(x.resumed == 1, "a read completes at its timeout at the latest");
            vf::log("resumed", x.resumed); vf::log("truth", x.truth);
            vf::reach(atOnce ? x.truth ? "at once: data" : "at once: none" : !x.resumed ? "waiting" : x.truth ? "later: data" : "later: none");
            if (!x.resumed) vf_end_();
        }
        vf::check(vqt::timers() == 0, "no timer is left behind");
        if (w.dev) vf::check(vqt::connections(w.dev) == 0, "no connection is left behind");
    }
    scope.finish();
}
HARNESS(h_c13_untimed) { reads(false, false, 10, BOUND(2, 3)); }
HARNESS(h_c13_timed) { reads(true, false, 10, BOUND(2, 3)); }
HARNESS(h_c13_untimed_harm) { reads(false, true, 12, BOUND(1, 2)); }
HARNESS(h_c13_timed_harm) { reads(true, true, 12, BOUND(1, 2)); }
// many reads, one after the other; many waits at the same time
static Task<> again(Device *d, const uint8_t *b, int n, bool timed, int &got) {
    for (int i = 0; i < n; i++) {
        QByteArray a = timed ? co_await TEMPORARY(qCoro(d).read(1, milliseconds(1000))) : i & 1 ? co_await TEMPORARY(qCoro(d).read(1)) : co_await TEMPORARY(qCoro(*d).readAll());
        vf::check(a.size() == 1 && uint8_t(a.at(0)) == b[i], "data is neither lost nor duplicated");
        got++;
    }
}
static Task<> ready(Device *d, int &got) { const bool r = co_await TEMPORARY(qCoro(d).waitForReadyRead(milliseconds(1000))); vf::check(r, "true when data arrived"); got++; }
HARNESS(h_c13_many) {
    static const int N = BOUND(160, 400);
    Scope scope;
    {
        Device *d = new Device;
        d->open(QIODevice::ReadOnly);
        vqt::io(d).maxPolls = 10 * N; // for N operations
        uint8_t b[N]; for (int i = 0; i < N; i++) b[i] = vf::u8("byte");
        int got = 0;
        {
            auto t = again(d, b, N, vf::flag("timed"), got);
            for (int i = 0; i < N; i++) { vqt::arrive(d, b + i, 1); vqt::settle(); vf::check(got == i + 1, "a read completes when data arrives"); }
            vf::check(t.isReady(), "every read completes");
            got = 0;
            std::vector<Task<>> all;
            for (int i = 0; i < N; i++) all.push_back(ready(d, got));
            vqt::arrive(d, b, 1);
            vqt::settle();
            vf::check(got == N, "one arrival ends every wait for data");
        }
        vf::check(vqt::timers() == 0 && vqt::connections(d) == 0, "nothing is left behind");
        delete d;
        vf::reach("done");
    }
    scope.finish();
}
// any amount of data at once
static Task<> bulk(Device *d, unsigned op, bool timed, int64_t max, int64_t &got) {
    const milliseconds ms(1000);
    switch (op) {
    case 0: got = (timed ? co_await TEMPORARY(qCoro(d).readAll(ms)) : co_await TEMPORARY(qCoro(*d).readAll())).size(); break;
    case 1: got = (timed ? co_await TEMPORARY(qCoro(*d).read(max, ms)) : co_await TEMPORARY(qCoro(d).read(max))).size(); break;
    case 2: got = (timed ? co_await TEMPORARY(qCoro(d).readLine(max, ms)) : co_await TEMPORARY(qCoro(*d).readLine(max))).size(); break;
    default: got = (co_await d).size();
    }
}
HARNESS(h_c13_bulk) {
    Scope scope;
    {
        Device *d = new Device;
        openDevice(d, QIODevice::ReadOnly);
        const int64_t n = vf::range("amount", 1, int64_t(1) << 40), max = vf::range("max_size", 1, int64_t(1) << 40);
        const unsigned op = vf::choice("op", 4); const bool timed = vf::flag("timed"), before = vf::flag("before");
        int64_t got = -1;
        {
            if (before) vqt::arriveBulk(d, n);
            auto t = bulk(d, op, timed, max, got);
            if (!before) { vf::check(got == -1, "no data: the read waits"); vqt::arriveBulk(d, n); vqt::settle(); }
            const int64_t want = op % 3 == 0 || max > n ? n : max;
            vf::check(t.isReady() && got == want, "as much is read as was asked for");
            vf::check(vqt::io(d).bulk == n - want, "what was not asked for stays in the device");
        }
        vf::check(vqt::timers() == 0 && vqt::connections(d) == 0, "nothing is left behind");
        delete d;
        vf::reach(before ? "before" : "later");
    }
    scope.finish();
}
