// The model of Qt: what harnesses (and the other model units) see of it.
#pragma once
#include "vf.h"
#include <QObject>
#include <QPointer>
#include <QEvent>
#include <QThread>
#include <QCoreApplication>
#include <QString>
#include <QMetaObject>
#include <functional>

namespace vqt {
// A text of some length with any characters in the beginning, the middle and the end: it is to be passed on as it is.
inline int textSize = 80;
inline QString text(const char *name) {
    static const int N = 80;
    char16_t c[N];
    for (int i = 0; i < N; i++) c[i] = u'x';
    for (int i : {0, 1, 40, N - 1}) if (i < textSize) c[i] = char16_t(vf_sym_(name, 16));
    return QString(reinterpret_cast<const QChar *>(c), textSize);
}
struct Conn;
struct ThreadData;

// The world outside the program.  acts(): what could happen next while the main
// thread's event loop polls (as from a socket notifier, a process signal ...);
// async(): what another thread could do at any moment.
struct Env {
    virtual ~Env() {}
    virtual unsigned acts() { return 0; }
    virtual void act(unsigned) {}
    virtual unsigned asyncs() { return 0; }
    virtual void async(unsigned) {}
};
extern Env *env;
// A point at which another thread may be scheduled.  The steps of other threads are
// atomic, unless nestedThreads is set (the environment then keeps track of who is busy).
extern bool nestedThreads;
void preempt();

int64_t now();              // virtual clock, milliseconds
void setNow(int64_t ms);
extern bool lateTimers;     // timers may fire arbitrarily late (the clock then jumps)
extern int64_t (*lateness)();
// a wait that began at t0 ends now
inline void onTime(int64_t t0, int64_t timeout) { if (timeout >= 0) vf::check(now() - t0 <= timeout, "no wait outlasts its timeout"); }
extern bool clockRuns;      // time passes also before things that happen in the world

// One turn of the current thread's event loop: delivers everything posted, then
// lets timers fire and the environment act.  False if nothing can ever happen.
bool turn();
// This thread can only wait: another thread that can go on does. False if none can.
bool othersGoOn();
// Turns until nothing can happen; a bound cut after `max` turns.
void run(int max, const char *what = "event loop turns");
bool deliverOne();          // next deliverable posted event of the current thread
void deliverAll();
void settle();
int posted();               // events waiting in the current thread
int timers();               // timers running in the current thread
extern int loopRuns;          // QEventLoop::exec() calls so far
extern void (*onHang)();    // QEventLoop::exec() with nothing left to happen

// Code under test (which runs when events are delivered) must not close, abort, stop or cancel what it waits for.
void touched();
struct Mine { int old; Mine(); ~Mine(); }; // the harness acts
// threads
ThreadData *mainThread();
ThreadData *current();
ThreadData *dataOf(QThread *t);
struct InThread { ThreadData *old; explicit InThread(ThreadData *t); ~InThread(); };
// what the (modelled) operating system can do with a thread: start its run(),
// let it process one thing, let it finish
int threadStage(QThread *t); // 0 not started, 1 start() was called, 2 in run(), 3 finished() was emitted, 4 over
bool threadCanStep(QThread *t);
void threadStep(QThread *t);

int signalIndex(const QMetaObject *mo, void **signal);
template<typename O, typename C, typename... P, typename... A>
void emitSignal(O *obj, void (C::*sig)(P...), A &&...args) {
    int i = signalIndex(&C::staticMetaObject, reinterpret_cast<void **>(&sig));
    void *argv[] = {nullptr, const_cast<void *>(static_cast<const void *>(std::addressof(args)))..., nullptr};
    QMetaObject::activate(obj, &C::staticMetaObject, i, argv);
}
// live connections from a signal (all receivers)
int connections(const QObject *sender);
bool emitting(const QObject *o); // o is emitting a signal
}
// Qt's d-pointer base, as far as the model needs it
class QObjectPrivate : public QObjectData {
    Q_DECLARE_PUBLIC(QObject)
public:
    QObjectPrivate();
    ~QObjectPrivate() override;
    static QObjectPrivate *get(const QObject *o);
    void _q_reregisterTimers(void *) {}
    void setParentHelper(QObject *p);
    vqt::ThreadData *thread;
    vqt::Conn *out = nullptr, *outTail = nullptr, *in = nullptr;
    int emitting = 0;
    bool dirty = false;
    bool *gone = nullptr; // set when deleted during an emission
    QtSharedPointer::ExternalRefCountData *refs = nullptr;
};
