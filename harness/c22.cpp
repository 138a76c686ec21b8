// C22: network replies
#include "common.h"
#include "vqt_net.h"
#include <qcoronetworkreply.h>
#include <qcorotask.h>
using QCoro::Task;
using std::chrono::milliseconds;

struct Reply : QNetworkReply {
    bool closes;
    explicit Reply(bool c = false) : closes(c) { setOperation(QNetworkAccessManager::Operation(vf::range32("operation", 1, 6))); }
    ~Reply() override { if (closes) close(); }
    void abort() override {}
    qint64 readData(char *, qint64) override { return -1; }
    void start(OpenMode m) { QIODevice::open(m); }
};
struct World : vqt::Env {
    Reply *r = nullptr;
    uint8_t bytes[8]; unsigned arrived = 0; int arrivals = 0, flushes = 0; int64_t flushed = 0;
    bool canFail = false, canClose = false, canDestroy = false;
    int turn = 0, dataTurn = -1, failTurn = -1, finishTurn = -1, closeTurn = -1, goneTurn = -1, flushTurn = -1;
    World() { vqt::env = this; vqt::clockRuns = true; }
    ~World() override { vqt::env = nullptr; delete r; }
    bool finished() { return vqt::replyIsFinished(r); }
    enum Act { Data, Flush, Fail, Finish, Close, Destroy, N };
    bool can(int a) {
        if (!r) return false;
        switch (a) {
        case Data: return arrivals > 0 && !finished() && failTurn < 0 && r->isOpen();
        case Flush: return flushes > 0 && !finished() && vqt::io(r).toWrite > 0;
        case Fail: return canFail && !finished();
        case Finish: return !finished();
        case Close: return canClose && r->isOpen();
        default: return canDestroy;
        }
    }
    unsigned acts() override { unsigned n = 0; for (int a = 0; a < N; a++) n += can(a); return n; }
    void act(unsigned i) override { for (int a = 0; a < N; a++) if (can(a) && i-- == 0) { perform(a); return; } }
    void data(bool notify = true) {
        arrivals--;
        unsigned n = 1 + vf::choice("chunk", 2); uint8_t c[2];
        for (unsigned i = 0; i < n; i++) bytes[arrived + i] = c[i] = vf::u8("byte");
        arrived += n;
        if (notify && dataTurn < 0) dataTurn = turn;
        vqt::arrive(r, c, n);
    }
    void fail() { canFail = false; failTurn = turn; failed(); }
    void failed() { vqt::replyFailed(r, QNetworkReply::NetworkError(vf::range32("error", 1, 499))); }
    void finish() { finishTurn = turn; vqt::replyFinished(r); }
    void perform(int a) {
        switch (a) {
        case Data: data(); break;
        case Flush: {
            int64_t all = vqt::io(r).toWrite, n = all;
            if (--flushes) { n = vf::range("flushed", 1, 1 << 30); vf::assume(n <= all); }
            flushed += n; if (flushTurn < 0) flushTurn = turn;
            vqt::flush(r, n);
            break;
        }
        case Fail: fail(); break;
        case Finish: finish(); break;
        case Close: canClose = false; closeTurn = turn; r->close(); break;
        default: goneTurn = turn; if (r->closes && r->isOpen() && closeTurn < 0) closeTurn = turn; delete r; r = nullptr;
        }
    }
};
struct Wait {
    World &w; int op = 0; bool timed = false; int64_t timeout = -1, max = 0;
    int resumed = 0, turn = -1; bool result = false; int64_t t0 = 0, t1 = 0; int64_t written = -1;
    QNetworkReply *who = nullptr; QByteArray got;
    bool timeUp() const { return timeout >= 0 && t1 - t0 >= timeout; }
    void done() { t1 = vqt::now(); turn = w.turn; vqt::onTime(t0, timeout); vf::check(++resumed == 1, "the waiter resumes once"); }
};
// --- co_await reply, waitForFinished() -----------------------------------------------
static Task<> finishing(Wait &x) {
    Reply *r = x.w.r; QNetworkReply *nr = r; Reply &rr = *r;
    x.t0 = vqt::now();
    switch (x.op) {
    case 0: x.who = co_await nr; x.result = true; break;
    case 1: co_await nr; if (x.w.r) x.who = co_await nr; x.result = true; break;
    case 2: x.result = co_await TEMPORARY(qCoro(r).waitForFinished()); break;
    default: x.result = co_await TEMPORARY(qCoro(rr).waitForFinished(milliseconds(x.timeout))); break;
    }
    x.done();
    if (x.op <= 1) vf::check(x.who == x.w.r, "co_await gives the reply");
    if (x.result && x.w.r) vf::check(x.w.finished(), "the reply is finished");
}
static void finishes(bool harm, int maxTurns) {
    Scope scope;
    {
        World w;
        w.r = new Reply(harm && vf::flag("destructor_closes"));
        if (vf::flag("open")) w.r->start(QIODevice::ReadOnly);
        Wait x{w};
        x.op = vf::choice("op", 4); x.timed = x.op == 3;
        if (x.timed) x.timeout = vf::range("timeout", -2, 0x7fffffff);
        w.arrivals = 1; w.canFail = true; w.canClose = true; w.canDestroy = harm;
        const unsigned before = vf::choice("before", 3); // running, failed, finished
        if (before == 1) { w.canFail = false; w.failed(); }
        if (before == 2) vqt::replyFinished(w.r);
        {
            auto t = finishing(x);
            vf::check(x.resumed == (before == 2), "the answer is immediate exactly if the reply has finished");
            if (before == 2) vf::check(x.result, "the reply has finished");
            const bool atOnce = x.resumed;
            bool judged = atOnce;
            for (w.turn = 1; vqt::turn(); w.turn++) {
                if (w.turn > maxTurns) vf_bound_("event loop turns");
                if (judged || !x.resumed) continue;
                judged = true;
                if (x.result) vf::check(w.finishTurn >= 0, "the waiter resumes with success only after the reply finished");
                else {
                    vf::check(x.timeUp(), "false only after the timeout");
                    if (w.finishTurn >= 0) vf::check(w.finishTurn >= x.turn - 1, "no failure when the reply finishes in time");
                }
            }
            if (w.finishTurn >= 0 && w.goneTurn < 0) vf::check(x.resumed == 1, "the waiter resumes when the reply has finished");
            if (x.timeout >= 0) vf::check(x.resumed == 1, "the waiter resumes at the timeout at the latest");
            vf::log("resumed", x.resumed); vf::log("result", x.result);
            vf::reach(atOnce ? "at once" : !x.resumed ? "waiting" : x.result ? "later: true" : "later: false");
            if (!x.resumed) vf_end_();
        }
        vf::check(vqt::timers() == 0, "no timer is left behind");
        if (w.r) vf::check(vqt::connections(w.r) == 0, "no connection is left behind");
    }
    scope.finish();
}
// --- reads ---------------------------------------------------------------------------
static Task<> reading(Wait &x) {
    Reply *r = x.w.r; Reply &rr = *r; const milliseconds ms(x.timeout);
    x.t0 = vqt::now();
    switch (x.op) {
    case 0: x.result = x.timed ? co_await TEMPORARY(qCoro(r).waitForReadyRead(ms)) : co_await TEMPORARY(qCoro(rr).waitForReadyRead(-1)); break;
    case 1: x.got = x.timed ? co_await TEMPORARY(qCoro(rr).readAll(ms)) : co_await TEMPORARY(qCoro(r).readAll()); break;
    case 2: x.got = x.timed ? co_await TEMPORARY(qCoro(r).read(x.max, ms)) : co_await TEMPORARY(qCoro(rr).read(x.max)); break;
    default: x.got = x.timed ? co_await TEMPORARY(qCoro(rr).readLine(x.max, ms)) : co_await TEMPORARY(qCoro(r).readLine(x.max)); break;
    }
    x.done();
    if (!x.op) co_return;
    x.result = !x.got.isEmpty();
    if (!x.w.r) { vf::check(!x.result, "a reply that is gone has no data"); co_return; }
    const unsigned n = unsigned(x.got.size()), rest = vqt::io(x.w.r).nin;
    if (x.result) {
        vf::check(n + rest == x.w.arrived, "data is neither lost nor duplicated");
        for (unsigned i = 0; i < n; i++) vf::check(uint8_t(x.got.at(i)) == x.w.bytes[i], "the data is the reply's data");
        if (x.op == 2) vf::check(int64_t(n) <= x.max, "no more than asked for");
        if (x.op == 1) vf::check(rest == 0, "readAll() takes all");
    } else if (x.w.r->isReadable() && !x.timeUp() && (x.op == 1 || x.max > 0)) vf::check(rest == 0, "a read is empty only if there was nothing to read");
}
static void reads(bool harm, int maxTurns) {
    Scope scope;
    {
        World w;
        w.r = new Reply(harm && vf::flag("destructor_closes"));
        const bool open = vf::flag("open");
        if (open) w.r->start(vf::flag("read_write") ? QIODevice::ReadWrite : QIODevice::ReadOnly);
        Wait x{w};
        x.op = vf::choice("op", 4); x.timed = vf::flag("timed");
        if (x.timed) x.timeout = vf::range("timeout", -2, 0x7fffffff);
        if (x.op >= 2) x.max = vf::i64("max_size");
        w.arrivals = open ? BOUND(2, 3) : 0;
        const bool have = open && vf::flag("data_before");
        if (have) w.data(false);
        const unsigned before = vf::choice("before", 3); // running, failed, finished
        w.canFail = before == 0; w.canClose = harm; w.canDestroy = harm;
        if (before == 1) w.failed();
        if (before == 2) vqt::replyFinished(w.r);
        {
            auto t = reading(x);
            const bool wait = open && !have && before != 2;
            vf::check(x.resumed == (wait ? 0 : 1), "a read waits only for an unfinished reply without data");
            if (!wait && have && x.op < 2) vf::check(x.result, "data at hand is read at once");
            if (!open) vf::check(!x.result, "a closed reply has no data");
            const bool atOnce = x.resumed;
            bool judged = atOnce;
            for (w.turn = 1; vqt::turn(); w.turn++) {
                if (w.turn > maxTurns) vf_bound_("event loop turns");
                if (judged || !x.resumed) continue;
                judged = true;
                const bool over = w.failTurn >= 0 || w.finishTurn >= 0 || w.closeTurn >= 0 || w.goneTurn >= 0;
                vf::check(w.dataTurn >= 0 || over || x.timeUp(), "a read completes when data arrives, the reply ends or at its timeout, not before");
                if (!x.result && x.op < 2) vf::check(over || x.timeUp(), "no data: only when the reply ended, or at the timeout");
                if (x.result && !x.op && w.dataTurn < 0 && w.finishTurn < 0) vf::check(false, "true only if data arrived or the reply finished");
                if (!x.result && x.op < 2 && w.dataTurn >= 0 && w.dataTurn < x.turn - 1 && w.failTurn < 0 && w.finishTurn < 0 && w.closeTurn < 0 && w.goneTurn < 0) vf::check(false, "data that arrived in time is noticed");
            }
            const bool event = w.dataTurn >= 0 || w.failTurn >= 0 || w.finishTurn >= 0 || w.closeTurn >= 0;
            if (!atOnce && event && w.goneTurn < 0) vf::check(x.resumed == 1, "a read completes when data arrived or the reply ended");
            if (x.timeout >= 0) vf::check(x.resumed == 1, "a read completes at the timeout at the latest");
            vf::log("resumed", x.resumed); vf::log("result", x.result);
            vf::reach(atOnce ? x.result ? "at once: data" : "at once: none" : !x.resumed ? "waiting" : x.result ? "later: data" : "later: none");
            if (!x.resumed) vf_end_();
        }
        vf::check(vqt::timers() == 0, "no timer is left behind");
        if (w.r) vf::check(vqt::connections(w.r) == 0, "no connection is left behind");
    }
    scope.finish();
}
// --- waitForBytesWritten() ---------------------------------------------------------------
static Task<> writing(Wait &x) {
    Reply *r = x.w.r; Reply &rr = *r;
    x.t0 = vqt::now();
    const auto n = x.timed ? co_await TEMPORARY(qCoro(r).waitForBytesWritten(milliseconds(x.timeout))) : co_await TEMPORARY(qCoro(rr).waitForBytesWritten(-1));
    x.result = n.has_value(); x.written = n.value_or(-1);
    x.done();
}
static void writes(bool harm, int maxTurns) {
    Scope scope;
    {
        World w;
        w.r = new Reply;
        const unsigned mode = vf::choice("mode", 3);
        if (mode) w.r->start(mode == 1 ? QIODevice::ReadOnly : QIODevice::ReadWrite);
        Wait x{w};
        x.timed = vf::flag("timed");
        if (x.timed) x.timeout = vf::range("timeout", -2, 0x7fffffff);
        const int64_t pending = mode == 2 ? vf::range("pending", 0, 1 << 30) : 0;
        vqt::io(w.r).toWrite = pending;
        w.flushes = 2; w.canFail = true; w.canClose = harm; w.canDestroy = harm;
        const bool over = vf::flag("finished_before");
        if (over) vqt::replyFinished(w.r);
        {
            auto t = writing(x);
            vf::check(x.resumed == (pending && !over ? 0 : 1), "only pending data of an unfinished reply is waited for");
            if (mode != 2) vf::check(!x.result, "a reply that is not writable: an empty result");
            else if (!pending) vf::check(x.result && x.written == 0, "nothing pending: 0");
            const bool atOnce = x.resumed;
            bool judged = atOnce;
            for (w.turn = 1; vqt::turn(); w.turn++) {
                if (w.turn > maxTurns) vf_bound_("event loop turns");
                if (judged || !x.resumed) continue;
                judged = true;
                const bool ended = w.failTurn >= 0 || w.finishTurn >= 0 || w.closeTurn >= 0 || w.goneTurn >= 0;
                vf::check(w.flushTurn >= 0 || ended || x.timeUp(), "the wait completes when data is written, the reply ends or at the timeout");
                if (!x.result) vf::check(ended || x.timeUp(), "empty only after the timeout");
                if (x.written > 0) vf::check(w.flushed >= x.written, "only what left the reply is reported");
            }
            const bool event = w.flushTurn >= 0 || w.failTurn >= 0 || w.finishTurn >= 0 || w.closeTurn >= 0;
            if (event && w.goneTurn < 0) vf::check(x.resumed == 1, "the wait completes when data is written or the reply ends");
            if (x.timeout >= 0) vf::check(x.resumed == 1, "the wait completes at the timeout at the latest");
            vf::log("resumed", x.resumed); vf::log("written", x.written);
            vf::reach(atOnce ? "at once" : !x.resumed ? "waiting" : x.written > 0 ? "written" : "not written");
            if (!x.resumed) vf_end_();
        }
        vf::check(vqt::timers() == 0, "no timer is left behind");
        if (w.r) vf::check(vqt::connections(w.r) == 0, "no connection is left behind");
    }
    scope.finish();
}
HARNESS(h_c22_finishes) { finishes(false, 12); }
HARNESS(h_c22_finishes_harm) { finishes(true, 12); }
HARNESS(h_c22_reads) { reads(false, 12); }
HARNESS(h_c22_reads_harm) { reads(true, 12); }
HARNESS(h_c22_writes) { writes(false, 12); }
HARNESS(h_c22_writes_harm) { writes(true, 12); }
static Task<> nothing(int &n, QNetworkReply *&r) { QNetworkReply *none = nullptr; r = co_await none; n++; }
HARNESS(h_c22_null) { // there is no reply to wait for
    Scope scope;
    {
        World w; w.r = new Reply; int n = 0; QNetworkReply *r = w.r;
        auto t = nothing(n, r);
        vf::check(n == 1 && !r, "no reply: the answer is immediate and null");
        vf::reach("null");
    }
    scope.finish();
}
