// C16: waiting for a thread to start or finish
#include "common.h"
#include "vqt.h"
#include <qcorothread.h>
#include <qcorotask.h>
using QCoro::Task;
using std::chrono::milliseconds;

struct World : vqt::Env {
    QThread *th = nullptr;
    bool startHere = false, startElsewhere = false, quitHere = false, quitElsewhere = false; // what may still happen
    bool quit = false, stepping = false;
    bool canDestroy = false;
    int turn = 0, startedTurn = -1, finishedTurn = -1;
    World() { vqt::env = this; vqt::clockRuns = true; }
    ~World() override {
        vqt::env = nullptr;
        if (!th) return;
        if (running() || vqt::threadCanStep(th)) { th->exit(); while (vqt::threadCanStep(th)) vqt::threadStep(th); }
        delete th;
    }
    void note() { // when it started (or finished) to run: the moment its signal is emitted
        if (startedTurn < 0 && vqt::threadStage(th) >= 2) startedTurn = turn;
        if (finishedTurn < 0 && vqt::threadStage(th) >= 3) finishedTurn = turn;
    }
    void step() { vqt::threadStep(th); note(); } // the operating system runs the thread
    unsigned acts() override { return th ? startHere + (quitHere && running()) + canDestroy : 0; }
    void act(unsigned i) override {
        if (startHere && i-- == 0) { startHere = startElsewhere = false; th->start(); note(); return; }
        if (quitHere && running() && i-- == 0) { quitHere = quitElsewhere = false; th->exit(); quit = true; return; }
        canDestroy = false;
        if (running() || vqt::threadCanStep(th)) vf::skip();
        delete th; th = nullptr; startHere = startElsewhere = quitHere = quitElsewhere = false;
    }
    bool running() const { int s = vqt::threadStage(th); return s == 1 || s == 2; }
    unsigned asyncs() override {
        if (!th || stepping) return 0;
        stepping = true;
        unsigned n = vqt::threadCanStep(th) + startElsewhere + (quitElsewhere && running());
        stepping = false;
        return n;
    }
    void async(unsigned i) override {
        stepping = true;
        if (vqt::threadCanStep(th) && i-- == 0) step();
        else if (startElsewhere && i-- == 0) { startElsewhere = startHere = false; th->start(); note(); }
        else { quitElsewhere = quitHere = false; th->exit(); quit = true; }
        stepping = false;
    }
};
struct Wait {
    World &w; bool finish; int64_t timeout; bool timed;
    int resumed = 0; bool result = false; int64_t t0 = 0;
    vqt::ThreadData *on = nullptr;
    bool wasIdle = false, wasFinished = false; // seen at the call
};
static Task<> wait(Wait &x) {
    World &w = x.w;
    x.t0 = vqt::now(); x.on = vqt::current();
    bool r;
    if (vf::flag("by_reference")) {
        if (x.finish) r = x.timed ? co_await TEMPORARY(qCoro(*w.th).waitForFinished(milliseconds(x.timeout))) : co_await TEMPORARY(qCoro(*w.th).waitForFinished());
        else r = x.timed ? co_await TEMPORARY(qCoro(*w.th).waitForStarted(milliseconds(x.timeout))) : co_await TEMPORARY(qCoro(*w.th).waitForStarted());
    } else {
        if (x.finish) r = x.timed ? co_await TEMPORARY(qCoro(w.th).waitForFinished(milliseconds(x.timeout))) : co_await TEMPORARY(qCoro(w.th).waitForFinished());
        else r = x.timed ? co_await TEMPORARY(qCoro(w.th).waitForStarted(milliseconds(x.timeout))) : co_await TEMPORARY(qCoro(w.th).waitForStarted());
    }
    x.resumed++; x.result = r; vqt::onTime(x.t0, x.timed ? x.timeout : -1);
    vf::check(x.resumed == 1, "the waiter resumes once");
    vf::check(vqt::current() == x.on, "the waiter resumes on its own thread");
    if (x.finish && r) vf::check(w.finishedTurn >= 0, "waitForFinished() is true only if the thread finished");
    if (!x.finish && r) vf::check(w.startedTurn >= 0 || vqt::threadStage(w.th) >= 1, "waitForStarted() is true only if the thread started");
}
static void run(World &w, bool finish, int maxTurns) {
    Wait x{w, finish, -1, vf::flag("timed")};
    if (x.timed) x.timeout = vf::range("timeout", -2, 0x7fffffff);
    // The state of the thread before the call
    switch (vf::choice("state", 6)) {
    case 0: break;                                                    // never started
    case 1: w.th->start(); w.note(); break;                           // started, run() not entered
    case 2: w.th->start(); w.note(); w.step(); break;                 // in run()
    case 3: w.th->start(); w.note(); w.step(); w.th->exit(); w.quit = true; w.step(); w.note(); break; // finished() was emitted
    case 5: // ran before, and runs again
        w.th->start(); w.step(); w.th->exit(); while (vqt::threadCanStep(w.th)) w.step();
        w.startedTurn = w.finishedTurn = -1;
        w.th->start(); w.note(); if (vf::flag("in_run")) w.step();
        break;
    case 4: w.th->start(); w.note(); w.step(); w.th->exit(); w.quit = true; while (vqt::threadCanStep(w.th)) w.step(); w.note(); break; // over
    }
    const int stage = vqt::threadStage(w.th);
    const bool idle = stage == 0, finished = stage >= 3;
    unsigned starts = idle ? vf::choice("started_by", 3) : 0; // nobody, this thread, another thread
    unsigned quits = !w.quit && (!idle || starts) ? vf::choice("quit_by", 3) : 0;
    w.startHere = starts == 1; w.startElsewhere = starts == 2; w.quitHere = quits == 1; w.quitElsewhere = quits == 2;
    const bool othersStart = starts == 2;
    w.canDestroy = idle && vf::flag("destroyed"); // a thread that never ran: its object goes away
    {
        auto t = wait(x);
        bool finishedNow = w.finishedTurn >= 0, startCalled = vqt::threadStage(w.th) >= 1;
        if (x.resumed) {
            if (finish) vf::check(x.result ? finishedNow : idle, "an immediate answer of waitForFinished() is the state of the thread");
            else vf::check(x.result ? startCalled : finishedNow, "an immediate answer of waitForStarted() is the state of the thread");
        }
        if (finished) vf::check(x.resumed == 1 && x.result == finish, "the answer for a finished thread is immediate");
        if (idle && !othersStart) vf::check(finish ? x.resumed == 1 && !x.result : !x.resumed, "a thread that was not started: waitForFinished() fails at once, waitForStarted() waits");
        if (!finish && !finished && !idle) vf::check(x.resumed == 1, "the answer for a running thread is immediate");
        int before = x.resumed;
        for (w.turn = 1; vqt::turn() || vqt::othersGoOn(); w.turn++) {
            if (w.turn > maxTurns) vf_bound_("event loop turns");
            if (x.resumed && !before) { // just resumed
                before = 1;
                if (!x.result) {
                    vf::check(x.timed && x.timeout >= 0 && vqt::now() - x.t0 >= x.timeout, "a wait fails only when its timeout elapsed");
                    int at = finish ? w.finishedTurn : w.startedTurn;
                    vf::check(at < 0 || at >= w.turn - 1, "a wait does not fail when the thread got there in time");
                }
            }
        }
        bool there = finish ? w.finishedTurn >= 0 : w.startedTurn >= 0;
        if (there || (x.timed && x.timeout >= 0 && w.th)) vf::check(x.resumed == 1, "the waiter resumes when the thread got there or the timeout elapsed");
        vf::log("resumed", x.resumed); vf::log("result", x.result);
        vf::reach(x.resumed ? x.result ? "true" : "false" : "waiting");
        if (x.resumed) vf::check(vqt::timers() == 0 && (!w.th || vqt::connections(w.th) == 0), "nothing is left behind");
        if (!x.resumed) vf_end_(); // a thread that never gets there: the waiter stays suspended
    }
}
HARNESS(h_c16_started) {
    Scope scope;
    { World w; w.th = new QThread; run(w, false, 10); }
    scope.finish();
}
HARNESS(h_c16_finished) {
    Scope scope;
    { World w; w.th = new QThread; run(w, true, 10); }
    scope.finish();
}
