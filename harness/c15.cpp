// C15: waiting for a process to start or finish
#include "common.h"
#include "vqt_io.h"
#include <qcoroprocess.h>
#include <qcorotask.h>
using QCoro::Task;
using std::chrono::milliseconds;

struct World : vqt::Env {
    QProcess *p = nullptr;
    bool canFinish = false, canDestroy = false, canFail = true; int restarts = 0, hiccups = 0;
    int turn = 0, startedTurn = -1, failedTurn = -1, finishedTurn = -1, goneTurn = -1;
    World() { vqt::env = this; vqt::clockRuns = true; }
    ~World() override { vqt::env = nullptr; delete p; }
    QProcess::ProcessState state() const { return vqt::proc(p).state; }
    unsigned acts() override {
        if (!p) return 0;
        unsigned n = canDestroy;
        if (state() == QProcess::Starting) n += 1 + canFail;
        if (state() == QProcess::Running) n += canFinish + (hiccups > 0);
        if (state() == QProcess::NotRunning && restarts) n++;
        return n;
    }
    static void first(int &t, int turn) { if (t < 0) t = turn; }
    void started() { first(startedTurn, turn); vqt::processStarted(p); }
    void act(unsigned i) override {
        switch (state()) {
        case QProcess::Starting:
            if (i == 0) { started(); return; }
            if (canFail && i == 1) { canFail = false; first(failedTurn, turn); vqt::processFailed(p); return; }
            break;
        case QProcess::Running:
            if (hiccups > 0 && i-- == 0) { // an error that is not the end
                static const QProcess::ProcessError errors[] = {QProcess::WriteError, QProcess::ReadError, QProcess::Timedout, QProcess::UnknownError};
                hiccups--; vqt::processError(p, errors[vf::choice("error", 4)]);
                return;
            }
            if (canFinish && i == 0) { first(finishedTurn, turn); canFinish = false; vqt::processFinished(p, vf::i32("exit_code"), vf::flag("crashed")); return; }
            break;
        default:
            if (restarts && i == 0) { restarts--; p->start(QIODevice::ReadWrite); return; }
        }
        canDestroy = false;
        goneTurn = turn;
        if (state() == QProcess::Running && vf::flag("finishes_in_destructor")) { first(finishedTurn, turn); vqt::processFinished(p, 9, true); }
        delete p; p = nullptr;
    }
};
enum Op { Started, Finished, Start, StartProgram };
struct Wait {
    World &w; Op op; bool timed; int64_t timeout = 30000;
    int resumed = 0, turn = -1; bool result = false; int64_t t0 = 0, t1 = 0;
    QString program; QStringList arguments; QIODevice::OpenMode mode;
    bool finish() const { return op == Finished; }
};
static Task<> wait(Wait &x) {
    World &w = x.w; QProcess *p = w.p; QProcess &r = *p;
    const milliseconds ms(x.timeout);
    x.t0 = vqt::now();
    switch (x.op) {
    case Started:
        if (!x.timed) x.result = co_await TEMPORARY(qCoro(p).waitForStarted());
        else if (vf::flag("int_overload")) x.result = co_await TEMPORARY(qCoro(r).waitForStarted(int(x.timeout)));
        else x.result = co_await TEMPORARY(qCoro(p).waitForStarted(ms));
        break;
    case Finished:
        if (!x.timed) x.result = co_await TEMPORARY(qCoro(r).waitForFinished());
        else if (vf::flag("int_overload")) x.result = co_await TEMPORARY(qCoro(p).waitForFinished(int(x.timeout)));
        else x.result = co_await TEMPORARY(qCoro(r).waitForFinished(ms));
        break;
    case Start: x.result = x.timed ? co_await TEMPORARY(qCoro(p).start(x.mode, ms)) : x.mode == QIODevice::ReadWrite ? co_await TEMPORARY(qCoro(r).start()) : co_await TEMPORARY(qCoro(r).start(x.mode)); break;
    default: x.result = x.timed ? co_await TEMPORARY(qCoro(r).start(x.program, x.arguments, x.mode, ms)) : x.mode == QIODevice::ReadWrite ? co_await TEMPORARY(qCoro(p).start(x.program, x.arguments)) : co_await TEMPORARY(qCoro(p).start(x.program, x.arguments, x.mode));
    }
    x.turn = w.turn; x.t1 = vqt::now(); vqt::onTime(x.t0, x.timeout);
    vf::check(++x.resumed == 1, "the waiter resumes once");
}
static void run(unsigned ops, bool harm, int maxTurns) {
    Scope scope;
    {
        World w;
        w.p = new QProcess;
        vqt::Proc &proc = vqt::proc(w.p);
        Wait x{w, Op((ops ? 2 : 0) + vf::choice("op", 2)), vf::flag("timed")};
        if (x.timed) x.timeout = vf::range("timeout", -2, 0x7fffffff);
        x.mode = QIODevice::OpenMode(QFlag(1 + vf::choice("mode", 3)));
        if (x.timed && x.op >= Start) x.mode |= QIODevice::OpenMode(QFlag(vf::range32("flags", 0, 15) << 4)); // Text, Unbuffered ...
        if (x.op == StartProgram) {
            x.program = vqt::text("program");
            unsigned n = vf::choice("arguments", 3);
            for (unsigned i = 0; i < n; i++) x.arguments.append(i ? QString(QLatin1String("")) : vqt::text("argument"));
        }
        const QString program = x.program; const QStringList arguments = x.arguments;
        unsigned before = x.op < Start ? vf::choice("state", 4) : vf::choice("state", 2); // not running, starting, running, over
        if (before) w.p->start(QIODevice::ReadOnly);
        if (before >= 2) vqt::processStarted(w.p);
        if (before >= 3) vqt::processFinished(w.p, 0, false);
        const int starts = proc.starts;
        if (x.op >= Start && !before) proc.failAtOnce = vf::flag("fails_at_once");
        w.hiccups = harm ? 0 : 1;
        w.canFinish = x.finish() || vf::flag("finishes"); w.canDestroy = harm; w.restarts = !harm && vf::flag("restarted");
        const bool failed = proc.failAtOnce;
        if (failed) w.restarts = 0;
        {
            auto t = wait(x);
            if (x.op >= Start) {
                vf::check(proc.starts == starts + (before ? 0 : 1), "the process is started once");
                if (!before) {
                    vf::check(proc.mode == x.mode, "the mode reaches the process");
                    if (x.op == StartProgram) vf::check(proc.program == program && proc.arguments == arguments, "program and arguments reach the process");
                }
            }
            const bool starting = before == 1 || (x.op >= Start && !failed), running = before == 2;
            if (x.finish()) {
                if (starting || running) vf::check(!x.resumed, "waitForFinished() waits for the process");
                else vf::check(x.resumed == 1 && !x.result, "waitForFinished() is false at once when the process does not run");
            } else if (starting) vf::check(!x.resumed, "the start is waited for");
            else vf::check(x.resumed == 1 && x.result == running, "the answer is immediate when the process is not starting");
            const bool atOnce = x.resumed;
            bool judged = atOnce;
            for (w.turn = 1; vqt::turn(); w.turn++) {
                if (w.turn > maxTurns) vf_bound_("event loop turns");
                if (judged || !x.resumed) continue;
                judged = true;
                const bool timeUp = x.timeout >= 0 && x.t1 - x.t0 >= x.timeout;
                const int good = x.finish() ? w.finishedTurn : w.startedTurn, bad = w.failedTurn;
                if (x.result) vf::check(good >= 0, "true only when the process got there");
                else {
                    vf::check(timeUp || bad >= 0, "false only after the timeout or a failed start");
                    if (good >= 0 && (bad < 0 || good < bad)) vf::check(good >= x.turn - 1, "a wait does not fail when the process got there in time");
                }
                if (bad >= 0 && good < 0) vf::check(!x.result, "a failed start is not a success");
            }
            const bool there = x.finish() ? w.finishedTurn >= 0 : w.startedTurn >= 0;
            if ((there || w.failedTurn >= 0) && !atOnce && w.goneTurn < 0) vf::check(x.resumed == 1, "the waiter resumes when the process got there or failed to start");
            if (x.timeout >= 0) vf::check(x.resumed == 1, "the waiter resumes at the timeout at the latest");
            vf::log("resumed", x.resumed); vf::log("result", x.result);
            vf::reach(atOnce ? x.result ? "at once: true" : "at once: false" : !x.resumed ? "waiting" : x.result ? "later: true" : "later: false");
            if (!x.resumed) vf_end_();
        }
        vf::check(vqt::timers() == 0, "no timer is left behind");
        if (w.p) vf::check(vqt::connections(w.p) == 0, "no connection is left behind");
    }
    scope.finish();
}
HARNESS(h_c15_wait) { run(0, false, 12); }
HARNESS(h_c15_start) { vqt::textSize = vf::flag("empty_texts") ? 0 : 80; run(1, false, 12); }
HARNESS(h_c15_wait_harm) { run(0, true, 12); }
HARNESS(h_c15_start_harm) { run(1, true, 12); }
// many runs of one process; many waits for one run
static Task<> runs(QProcess *p, int n, int &got) {
    for (int i = 0; i < n; i++) {
        p->start(QIODevice::ReadWrite);
        vf::check(co_await TEMPORARY(qCoro(p).waitForStarted()), "true: the process started");
        vf::check(co_await TEMPORARY(qCoro(p).waitForFinished()), "true: the process finished");
        got++;
    }
}
static Task<> once(QProcess *p, int &got) { vf::check(co_await TEMPORARY(qCoro(p).waitForStarted()), "true: the process started"); vf::check(co_await TEMPORARY(qCoro(*p).waitForFinished(-1)), "true: the process finished"); got++; }
HARNESS(h_c15_many) {
    static const int N = BOUND(120, 400);
    Scope scope;
    {
        QProcess *p = new QProcess; int got = 0;
        {
            auto t = runs(p, N, got);
            for (int i = 0; i < N; i++) { vqt::processStarted(p); vqt::settle(); vqt::processFinished(p, vf::i32("exit_code"), false); vqt::settle(); vf::check(got == i + 1, "every run is noticed"); }
            vf::check(t.isReady(), "every wait ends");
            got = 0;
            std::vector<Task<>> all;
            p->start(QIODevice::ReadWrite);
            for (int i = 0; i < N; i++) all.push_back(once(p, got));
            vqt::processStarted(p); vqt::settle(); vf::check(got == 0, "the process runs");
            vqt::processFinished(p, 0, false); vqt::settle();
            vf::check(got == N, "the end of a process ends every wait for it");
        }
        vf::check(vqt::timers() == 0 && vqt::connections(p) == 0, "nothing is left behind");
        delete p;
        vf::reach("done");
    }
    scope.finish();
}
