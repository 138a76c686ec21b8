// C19: D-Bus calls
#include "common.h"
#include "vqt_dbus.h"
#include <qcorodbus.h>
#include <qcorotask.h>
#include <memory>
using QCoro::Task;

struct World : vqt::Env {
    QDBusPendingCall call = vqt::pendingCall();
    int stage = 0; // 1 the reply is stored, 2 the watchers are told
    int args; bool fails; int32_t v[2]; char16_t name;
    int turn = 0;
    World() {
        fails = vf::flag("fails"); args = fails ? 0 : 2 - vf::choice("missing", 3); name = vf::u8("error");
        for (int i = 0; i < 2; i++) v[i] = vf::i32("value");
        vqt::env = this;
    }
    ~World() override { vqt::env = nullptr; }
    unsigned asyncs() override { return stage < 2; }
    void async(unsigned) override {
        if (stage++ == 1) { vqt::notifyReply(call); return; }
        QList<QVariant> a;
        for (int i = 0; i < args; i++) a.append(QVariant(int(v[i])));
        vqt::setReply(call, fails ? vqt::errorReply(QString(reinterpret_cast<const QChar *>(&name), 1)) : vqt::reply(a));
    }
    int wants = 0; // values a typed reply asks for
    void judge(const QDBusMessage &m) {
        vf::check(stage >= 1, "the waiter resumes only when the call is finished");
        if (fails) vf::check(m.type() == QDBusMessage::ErrorMessage && m.errorName().size() == 1 && m.errorName().at(0).unicode() == name, "the error is the call's");
        else if (args < wants) vf::check(m.type() == QDBusMessage::ErrorMessage, "a reply without the expected values is an error");
        else {
            vf::check(m.type() == QDBusMessage::ReplyMessage && m.arguments().size() == args, "the reply is the call's");
            const QList<QVariant> a = m.arguments();
            for (int i = 0; i < args; i++) vf::check(a.at(i).toInt() == v[i], "the reply has the call's values");
        }
    }
    template<typename... T> void judgeReply(const QDBusPendingReply<T...> &r) {
        vf::check(r.isFinished(), "the reply is finished");
        judge(r.reply());
        vf::check(r.isError() == (fails || args < wants), "the reply is an error exactly if the call failed");
        if constexpr (sizeof...(T) >= 1) if (!r.isError()) vf::check(r.template argumentAt<0>() == v[0] && int(r) == v[0], "the first value");
        if constexpr (sizeof...(T) >= 2) if (!r.isError()) vf::check(r.template argumentAt<1>() == v[1], "the second value");
    }
};
struct Wait { World &w; int op = 0, resumed = 0; std::unique_ptr<QDBusPendingCall> own; };
static void back(Wait &x) {
    vf::check(++x.resumed == 1, "the waiter resumes once");
    vf::check(vqt::current() == vqt::mainThread(), "the waiter resumes on its own thread");
}
static Task<> await(Wait &x) {
    World &w = x.w;
    switch (x.op) {
    case 0: { auto m = co_await w.call; back(x); w.judge(m); break; }
    case 1: { auto m = co_await QDBusPendingCall(w.call); back(x); w.judge(m); break; }
    case 2: { auto m = co_await TEMPORARY(qCoro(w.call).waitForFinished()); back(x); w.judge(m); break; }
    case 3: { auto wrapper = qCoro(QDBusPendingCall(w.call)); auto m = co_await wrapper.waitForFinished(); back(x); w.judge(m); break; }
    case 4: { auto t = qCoro(QDBusPendingCall(w.call)).waitForFinished(); auto m = co_await t; back(x); w.judge(m); break; }
    default: { x.own.reset(new QDBusPendingCall(w.call)); auto m = co_await *x.own; back(x); w.judge(m); break; } // the variable is used for something else meanwhile
    }
}
template<typename... T>
static Task<> awaitReply(Wait &x) {
    World &w = x.w;
    typedef QDBusPendingReply<T...> R;
    switch (x.op) {
    case 0: { R r = w.call; auto m = co_await r; back(x); w.judgeReply(m); w.judgeReply(r); break; }
    case 1: { auto m = co_await R(w.call); back(x); w.judgeReply(m); break; }
    case 2: { auto m = co_await TEMPORARY(qCoro(R(w.call)).waitForFinished()); back(x); w.judgeReply(m); break; }
    case 3: { auto wrapper = qCoro(R(w.call)); R m = co_await wrapper.waitForFinished(); back(x); w.judgeReply(m); break; }
    case 4: { auto t = qCoro(R(w.call)).waitForFinished(); auto m = co_await t; back(x); w.judgeReply(m); break; }
    default: { R *r = new R(w.call); x.own.reset(r); auto m = co_await *r; back(x); w.judgeReply(m); break; }
    }
}
template<typename F>
static void waits(F start, int wants, int waiters, int maxTurns) {
    Scope scope;
    {
        World w;
        w.wants = wants;
        Wait x[2] = {{w}, {w}};
        for (int i = 0; i < waiters; i++) x[i].op = vf::choice("op", 6);
        QDBusPendingCallWatcher *other = nullptr; // someone else watches the call
        if (vf::flag("watched")) other = new QDBusPendingCallWatcher(w.call);
        while (w.stage < 2 && vf::flag("finishes_before")) w.async(0);
        if (w.stage == 2 && vf::flag("delivered")) vqt::deliverAll();
        {
            Task<> t[2];
            for (int i = 0; i < waiters; i++) {
                const bool done = w.stage >= 1;
                t[i] = start(x[i]);
                if (x[i].own && vf::flag("reused")) *x[i].own = QDBusPendingCall::fromCompletedCall(vqt::errorReply(QStringLiteral("other")));
                if (done) vf::check(x[i].resumed == 1, "the answer is immediate if the call is finished");
            }
            for (w.turn = 1; vqt::turn(); w.turn++) if (w.turn > maxTurns) vf_bound_("event loop turns");
            for (int i = 0; i < waiters; i++) {
                if (w.stage == 2) vf::check(x[i].resumed == 1, "the waiter resumes when the call is finished");
                vf::log("resumed", x[i].resumed);
            }
            vf::reach(w.stage < 2 ? "waiting" : w.fails ? "error" : w.args < wants ? "mismatch" : "reply");
            if (!x[0].resumed || !x[waiters - 1].resumed) vf_end_();
        }
        delete other;
    }
    scope.finish();
}
HARNESS(h_c19_call) { waits(await, 0, 1, 10); }
HARNESS(h_c19_reply0) { waits(awaitReply<>, 0, 1, 10); }
HARNESS(h_c19_reply1) { waits(awaitReply<int>, 1, 1, 10); }
HARNESS(h_c19_reply2) { waits(awaitReply<int, int>, 2, 1, 10); }
HARNESS(h_c19_two_calls) { waits(await, 0, 2, 10); }
HARNESS(h_c19_two_replies) { waits(awaitReply<int, int>, 2, 2, 10); }
