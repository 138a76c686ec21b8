// C14: writing to a device
#include "common.h"
#include "vqt_io.h"
#include <qcoroiodevice.h>
#include <qcorotask.h>
using QCoro::Task;
using std::chrono::milliseconds;
using vqt::Io;

struct Device : QIODevice {
    bool closes;
    explicit Device(bool c = false) : closes(c) {}
    ~Device() override { if (closes) close(); }
    qint64 readData(char *, qint64) override { return -1; }
    qint64 writeData(const char *, qint64) override { return -1; }
};
static const int64_t BIG = int64_t(1) << 40;
static int64_t taken; static const char *offered; static int64_t offeredSize;
static int64_t takeSome(QIODevice *d, int64_t n) {
    // what a device may answer: an error, or any part of it
    int64_t r = vf::range("accepted", -1, BIG);
    vf::assume(r <= n);
    taken = r; offered = vqt::io(d).lastData; offeredSize = vqt::io(d).lastSize;
    return r;
}
struct World : vqt::Env {
    Device *dev = nullptr;
    int flushes = 0; bool canClose = false, canDestroy = false, canOthers = false;
    bool closed = false;
    int64_t flushed = 0, first = 0; // reported in all; by the first report
    int turn = 0, flushTurn = -1, closeTurn = -1;
    World() { vqt::env = this; vqt::clockRuns = true; }
    ~World() override { vqt::env = nullptr; delete dev; }
    bool dirty() { return dev && !closed && flushes && vqt::io(dev).toWrite > 0; }
    unsigned acts() override {
        unsigned n = 0;
        if (!dev) return 0;
        if (dirty()) n++;
        if (!closed) n += canClose + canOthers;
        return n + canDestroy;
    }
    void act(unsigned i) override {
        if (dirty() && i-- == 0) {
            int64_t all = vqt::io(dev).toWrite, n = all;
            if (--flushes) { n = vf::range("flushed", 1, BIG); vf::assume(n <= all); } // the last one writes whatever is left
            reported(n);
            vqt::flush(dev, n);
            return;
        }
        if (canClose && !closed && i-- == 0) { close(); dev->close(); return; }
        if (canOthers && !closed && i-- == 0) { canOthers = false; vqt::io(dev).toWrite += vf::range("more", 1, BIG); return; } // somebody else writes
        if (dev->closes) close();
        delete dev; dev = nullptr; canDestroy = false;
    }
    void close() { if (closeTurn < 0) closeTurn = turn; closed = true; }
    void reported(int64_t n) { flushed += n; if (flushTurn < 0) flushTurn = turn, first = n; }
};
static int64_t takePart(QIODevice *, int64_t all) { // leaves the device within write()
    const int64_t n = vf::range("part", 0, BIG); vf::assume(n <= all);
    if (n > 0) static_cast<World *>(vqt::env)->reported(n);
    return n;
}
struct Write {
    World &w;
    int resumed = 0; int64_t result = -1, size = 0, pending = 0, accepted = 0, before = 0;
    // how many of this write's bytes were reported written so far
    int64_t confirmed() const {
        int64_t n = w.flushed - before - pending;
        return n < 0 ? 0 : n < accepted ? n : accepted;
    }
};
static const char data[8] = "payload";
static Task<> write(Write &x, bool ref) {
    World &w = x.w;
    QByteArray buffer = QByteArray::fromRawData(data, x.size);
    x.before = w.flushed; x.pending = vqt::io(w.dev).toWrite;
    if (ref) x.result = co_await qCoro(*w.dev).write(buffer);
    else x.result = co_await qCoro(w.dev).write(buffer);
    vf::check(++x.resumed == 1, "a write completes once");
}
static void start(Write &x, Task<> &t) {
    Io &io = vqt::io(x.w.dev);
    const int writes = io.writes;
    const bool writable = io.mode & QIODevice::WriteOnly;
    offered = nullptr;
    t = write(x, vf::flag("by_reference"));
    vf::check(io.writes == writes + 1, "the buffer is handed to the device once");
    if (writable) vf::check(offered == data && offeredSize == x.size, "the whole buffer is handed to the device");
    x.accepted = writable && taken > 0 ? taken : 0;
    const bool buffers = io.writing == Io::Buffered || io.writing == Io::Partly;
    if (x.resumed) {
        if (x.accepted && buffers) vf::check(x.confirmed() == x.accepted, "a write waits until its data is written");
        vf::check(x.result == x.accepted, "what was accepted and is written is confirmed at once");
    } else {
        vf::check(x.accepted && buffers, "there is nothing to wait for");
        vf::check(x.confirmed() < x.accepted, "there is nothing to wait for");
    }
}
static void judge(Write &x, bool &judged) {
    World &w = x.w;
    if (x.resumed && !judged) {
        judged = true;
        vf::check(x.result >= 0 && x.result <= x.accepted, "no more is confirmed than was accepted");
        if (w.closeTurn < 0 && w.dev) vf::check(x.result == x.accepted, "fewer bytes are confirmed only if the device was closed");
        vf::check(x.result <= x.confirmed(), "only what the device reported is confirmed");
        if (x.result != x.accepted) vf::check(x.result == x.confirmed(), "everything the device reported is confirmed");
    }
}
static void writes(unsigned count, bool harm, unsigned flushes, int maxTurns) {
    Scope scope;
    {
        World w;
        w.dev = new Device(harm && vf::flag("destructor_closes"));
        Io &io = vqt::io(w.dev);
        io.accept = takeSome;
        io.writing = decltype(io.writing)(vf::choice("writing", 4)); io.part = takePart;
        const bool writable = vf::flag("writable");
        unsigned more = vf::u8("more_flags") & (QIODevice::ReadOnly | QIODevice::Append | QIODevice::Truncate | QIODevice::Text | QIODevice::Unbuffered);
        w.dev->open(QIODevice::OpenMode(int(writable ? unsigned(QIODevice::WriteOnly) | more : unsigned(QIODevice::ReadOnly))));
        io.sequential = vf::u8("sequential") & 1; io.transaction = vf::u8("transaction") & 1;
        if (writable && (io.writing == Io::Buffered || io.writing == Io::Partly) && vf::flag("pending_before")) io.toWrite = vf::range("pending", 1, BIG);
        w.flushes = flushes; w.canClose = harm; w.canDestroy = harm; w.canOthers = !harm && (io.writing == Io::Buffered || io.writing == Io::Partly);
        Write x{w}, y{w};
        x.size = vf::range("size", 0, BIG); y.size = vf::range("size2", 0, BIG);
        {
            Task<> t, u;
            start(x, t);
            if (count > 1) start(y, u);
            bool jx = x.resumed, jy = y.resumed;
            for (w.turn = 1; vqt::turn(); w.turn++) {
                if (w.turn > maxTurns) vf_bound_("event loop turns");
                judge(x, jx); if (count > 1) judge(y, jy);
            }
            for (Write *p : {&x, &y}) {
                if (p == &y && count < 2) break;
                if (w.dev && (w.closeTurn >= 0 || p->confirmed() == p->accepted)) vf::check(p->resumed == 1, "a write completes when everything is written or the device was closed");
                if (w.closeTurn >= 0) vf::check(p->resumed == 1, "a write completes when the device is closed by its destruction");
                vf::log("resumed", p->resumed); vf::log("result", p->result);
            }
            vf::reach(!x.resumed ? "waiting" : x.result == x.accepted ? x.accepted ? "all written" : "nothing accepted" : "cut short");
            if (!x.resumed || (count > 1 && !y.resumed)) vf_end_();
        }
        vf::check(vqt::timers() == 0, "no timer is left behind");
        if (w.dev) vf::check(vqt::connections(w.dev) == 0, "no connection is left behind");
    }
    scope.finish();
}
HARNESS(h_c14_write) { writes(1, false, BOUND(3, 4), 14); }
HARNESS(h_c14_write_harm) { writes(1, true, BOUND(2, 3), 14); }
HARNESS(h_c14_two_writes) { writes(2, false, BOUND(2, 3), 14); }
HARNESS(h_c14_two_writes_harm) { writes(2, true, BOUND(1, 2), 14); }

// waitForBytesWritten()
struct Wait { World &w; bool timed; int64_t timeout; int resumed = 0, turn = -1; std::optional<qint64> result; int64_t t0 = 0, t1 = 0; };
static Task<> waitFor(Wait &x) {
    x.t0 = vqt::now();
    if (vf::flag("int_overload")) x.result = co_await qCoro(x.w.dev).waitForBytesWritten(int(x.timeout));
    else x.result = co_await qCoro(*x.w.dev).waitForBytesWritten(milliseconds(x.timeout));
    x.t1 = vqt::now(); x.turn = x.w.turn; vqt::onTime(x.t0, x.timeout);
    vf::check(++x.resumed == 1, "a wait completes once");
}
static void waits(bool harm, unsigned flushes, int maxTurns) {
    Scope scope;
    {
        World w;
        w.dev = new Device(harm && vf::flag("destructor_closes"));
        Io &io = vqt::io(w.dev);
        const unsigned mode = vf::choice("mode", 3);
        if (mode) {
            const unsigned more = vf::u8("more_flags") & (QIODevice::ReadOnly | QIODevice::Append | QIODevice::Truncate | QIODevice::Text | QIODevice::Unbuffered);
            w.dev->open(QIODevice::OpenMode(int(mode == 1 ? unsigned(QIODevice::ReadOnly) : unsigned(QIODevice::WriteOnly) | more)));
            vqt::io(w.dev).sequential = vf::u8("sequential") & 1; vqt::io(w.dev).transaction = vf::u8("transaction") & 1;
        }
        else w.closed = true;
        if (mode == 2) io.toWrite = vf::range("pending", 0, BIG);
        w.flushes = mode == 2 ? flushes : 0; w.canClose = w.canDestroy = harm; w.canOthers = false;
        const bool wait = io.toWrite > 0;
        Wait x{w, true, vf::range("timeout", -2, 0x7fffffff)};
        {
            auto t = waitFor(x);
            if (!wait) {
                vf::check(x.resumed == 1, "nothing to wait for: the answer is immediate");
                if (mode != 2) vf::check(!x.result.has_value(), "a device that cannot be written to has no answer");
                else vf::check(x.result.has_value() && *x.result == 0, "nothing pending: 0");
            } else
                vf::check(!x.resumed, "the wait lasts until something is written");
            bool judged = x.resumed;
            for (w.turn = 1; vqt::turn(); w.turn++) {
                if (w.turn > maxTurns) vf_bound_("event loop turns");
                if (!judged && x.resumed) {
                    judged = true;
                    const bool timeUp = x.timeout >= 0 && x.t1 - x.t0 >= x.timeout, closed = w.closeTurn >= 0, flushed = w.flushTurn >= 0;
                    vf::check(flushed || closed || timeUp, "the wait completes when data is written, at close or at its timeout, not before");
                    if (!x.result.has_value()) vf::check(timeUp || closed, "the result is empty only after the timeout");
                    else if (*x.result) vf::check(flushed && *x.result == w.first, "the result is what the device reported first");
                    else vf::check(closed, "0 is no answer to a wait for pending data");
                    if (flushed && (!closed || w.flushTurn < w.closeTurn) && w.flushTurn < x.turn - 1) vf::check(x.result.has_value() && *x.result == w.first, "data written in time is reported");
                    if (timeUp && !flushed && !closed) vf::check(!x.result.has_value(), "the result is empty after the timeout");
                }
            }
            if ((w.flushTurn >= 0 && w.dev) || w.closeTurn >= 0 || x.timeout >= 0) vf::check(x.resumed == 1, "the wait completes");
            vf::log("resumed", x.resumed); vf::log("value", x.result.value_or(-7));
            vf::reach(!wait ? "at once" : !x.resumed ? "waiting" : !x.result.has_value() ? "timeout" : *x.result ? "written" : "closed");
            if (!x.resumed) vf_end_();
        }
        vf::check(vqt::timers() == 0, "no timer is left behind");
        if (w.dev) vf::check(vqt::connections(w.dev) == 0, "no connection is left behind");
    }
    scope.finish();
}
HARNESS(h_c14_wait) { waits(false, 2, 10); }
HARNESS(h_c14_wait_harm) { waits(true, 2, 12); }

// The task of write() is kept and its wrapper, a temporary, is gone when the write needs more than one chunk.
static Task<qint64> begin(QIODevice *d, const QByteArray &b) { return qCoro(d).write(b); }
HARNESS(h_c14_temporary) {
    Scope scope;
    World w;
    w.dev = new Device;
    Io &io = vqt::io(w.dev);
    io.accept = takeSome;
    w.dev->open(QIODevice::WriteOnly);
    w.flushes = 2;
    {
        auto t = begin(w.dev, QByteArray::fromRawData(data, vf::range("size", 0, BIG)));
        while (vqt::turn()) {}
        vf::check(t.isReady(), "the write completes");
    }
    vf::reach("done");
}
// a write that leaves the device in many parts, and many writes at once
static int64_t takeAll(QIODevice *, int64_t n) { return n; }
static Task<> again(Device *d, int64_t size, int &done) { QByteArray b = QByteArray::fromRawData(data, size); const int64_t r = co_await qCoro(d).write(b); vf::check(r == size, "everything is confirmed"); done++; }
HARNESS(h_c14_many) {
    static const int N = BOUND(60, 240);
    Scope scope;
    {
        Device *d = new Device;
        d->open(QIODevice::WriteOnly);
        Io &io = vqt::io(d); io.accept = takeAll; io.writing = Io::Buffered;
        const int64_t part = vf::range("part", 1, 1 << 20);
        int done = 0;
        {
            const bool lots = vf::flag("many_writes");
            std::vector<Task<>> all;
            io.maxPolls = 10 * N; // for N operations
            for (int i = 0; i < (lots ? N : 1); i++) all.push_back(again(d, lots ? part : part * N, done));
            for (int i = 0; i < N; i++) {
                vf::check(done == (lots ? i : 0), "a write completes when all of it is written, not before");
                vqt::flush(d, part); vqt::settle();
            }
            vf::check(done == (lots ? N : 1), "a write completes when everything is written");
        }
        vf::check(vqt::timers() == 0 && vqt::connections(d) == 0, "nothing is left behind");
        delete d;
        vf::reach("done");
    }
    scope.finish();
}
