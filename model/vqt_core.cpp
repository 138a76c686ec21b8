// Model of QtCore's object system: objects, connections, events, timers, event
// loops and threads, against a virtual clock and a harness-driven environment.
#include "vqt.h"
#include <QTimer>
#include <QTimerEvent>
#include <QChildEvent>
#include <QEventLoop>
#include <QMetaMethod>
#include <QVariant>
#include <QDeadlineTimer>
#include <QElapsedTimer>
#include <QElapsedTimer>
#include <cstdlib>
#include <chrono>
#include <new>

// --- asserts -----------------------------------------------------------------
void qt_assert(const char *what, const char *, int) noexcept { vf_fail_(what); }
void qt_assert_x(const char *, const char *what, const char *, int) noexcept { vf_fail_(what); }
void qBadAlloc() { vf_fail_("qBadAlloc"); }
void qTerminate() noexcept { vf_fail_("qTerminate"); }

namespace vqt {
Env *env = nullptr;
static int64_t clockNow = 1000;
bool lateTimers = false;
int64_t (*lateness)() = nullptr;
bool clockRuns = false;
int64_t now() { return clockNow; }
void setNow(int64_t ms) { clockNow = ms; }
static void hang() { vf_fail_("the event loop waits for ever"); }
void (*onHang)() = hang;
int loopRuns = 0;

struct Posted { QObject *receiver; QEvent *event; int priority; int level; Posted *next, *prev; };
struct TimerRec { int id; QObject *obj; int64_t interval, deadline; uint64_t batch; TimerRec *next, *prev; };
struct ThreadData {
    int refs = 0;
    QThread *thread = nullptr;
    Posted *head = nullptr, *tail = nullptr;
    TimerRec *timers = nullptr, *timersTail = nullptr;
    int loopLevel = 0, scopeLevel = 0;
    bool quitNow = false;
    QEventLoop *loops = nullptr;
};
// The main thread's data is set up before any harness takes a heap mark.
static ThreadData *mainData = nullptr;
static ThreadData *cur = nullptr;
static bool preempting = false;
static uint64_t batchSeq = 0;
static int nextTimerId = 1;
static ThreadData *mainD();
ThreadData *mainThread() { return mainD(); }
ThreadData *current() { mainD(); return cur; }
InThread::InThread(ThreadData *t) : old(current()) { cur = t; t->refs++; }
static int inEvents; // events are being delivered (code under test runs), and the environment is not acting
struct InEvents { int old = inEvents; explicit InEvents(int now) { inEvents = now; } ~InEvents() { inEvents = old; } };
void touched() { if (inEvents) vf::check(false, "what is waited for is left alone: nothing closes, aborts, stops or cancels it"); }
Mine::Mine() : old(inEvents) { inEvents = 0; }
Mine::~Mine() { inEvents = old; }
static void unref(ThreadData *t);
InThread::~InThread() { unref(cur); cur = old; }
static void unref(ThreadData *t) {
    if (--t->refs) return;
    for (Posted *p = t->head; p;) { Posted *n = p->next; delete p->event; free(p); p = n; }
    for (TimerRec *p = t->timers; p;) { TimerRec *n = p->next; free(p); p = n; }
    t->~ThreadData(); free(t);
}
static ThreadData *newThreadData() { return new (malloc(sizeof(ThreadData))) ThreadData; }
bool nestedThreads = false;
void preempt() {
    if (!env || (preempting && !nestedThreads)) return;
    bool old = preempting;
    preempting = true;
    while (unsigned n = env->asyncs()) {
        unsigned c = vf::choice("other_thread", n + 1);
        if (c == 0) break;
        { InEvents in(0); env->async(c - 1); }
    }
    preempting = old;
}

// --- connections --------------------------------------------------------------
struct Conn {
    int refs;
    QObject *sender, *receiver;
    const QMetaObject *sm; int sig;
    QtPrivate::QSlotObjectBase *slot;
    int type; bool single, listed;
    uint64_t id;
    Conn *next, *prev, *rnext, *rprev;
};
static uint64_t connSeq = 0;
static void freeSlot(Conn *c) { if (auto s = c->slot) { c->slot = nullptr; s->destroyIfLastRef(); } }
static void derefConn(Conn *c) { if (--c->refs == 0) { freeSlot(c); free(c); } }
static void unlinkOut(Conn *c) { // from the sender's list
    QObjectPrivate *d = QObjectPrivate::get(c->sender);
    (c->prev ? c->prev->next : d->out) = c->next;
    (c->next ? c->next->prev : d->outTail) = c->prev;
    c->listed = false;
}
static bool cut(Conn *c) {
    if (!c->receiver) return false;
    QObjectPrivate *rd = QObjectPrivate::get(c->receiver);
    (c->rprev ? c->rprev->rnext : rd->in) = c->rnext;
    if (c->rnext) c->rnext->rprev = c->rprev;
    c->receiver = nullptr;
    QObjectPrivate *d = QObjectPrivate::get(c->sender);
    if (d->emitting) d->dirty = true;
    else { unlinkOut(c); derefConn(c); }
    return true;
}
static void sweep(QObjectPrivate *d) {
    d->dirty = false;
    for (bool again = true; again;) { // releasing a slot object may run destructors that disconnect more
        again = false;
        for (Conn *c = d->out; c; c = c->next) if (!c->receiver) { unlinkOut(c); derefConn(c); again = true; break; }
    }
}
int signalIndex(const QMetaObject *mo, void **signal) {
    int i = -1;
    void *a[] = {&i, signal};
    mo->d.static_metacall(nullptr, QMetaObject::IndexOfMethod, 0, a);
    return i;
}
static const QMetaObject *resolve(const QMetaObject *mo, void **signal, int &idx) {
    for (; mo; mo = mo->d.superdata) { idx = signalIndex(mo, signal); if (idx >= 0) return mo; }
    return nullptr;
}
int connections(const QObject *sender) { int n = 0; for (Conn *c = QObjectPrivate::get(sender)->out; c; c = c->next) n += c->receiver != nullptr; return n; }
bool emitting(const QObject *o) { return QObjectPrivate::get(o)->emitting > 0; }

// the slots being called: QObject::sender()
struct Calling {
    QObject *receiver; QObject *sender; Calling *outer;
    Calling(QObject *r, QObject *s) : receiver(r), sender(s), outer(calls) { calls = this; }
    ~Calling() { calls = outer; }
    static Calling *calls;
    static void forget(const QObject *o) { for (Calling *c = calls; c; c = c->outer) if (c->receiver == o || c->sender == o) c->receiver = c->sender = nullptr; }
};
Calling *Calling::calls = nullptr;
// a queued call of a slot object (or a metacall of invokeMethod)
struct CallEvent : QEvent {
    QtPrivate::QSlotObjectBase *slot;
    int n = 0;
    void *args[8] = {this, this, this, this, this, this, this, this}; // markers such as QPrivateSignal are passed without a value
    const QtPrivate::QMetaTypeInterface *types[8] = {};
    QPointer<QObject> sender;
    CallEvent(QtPrivate::QSlotObjectBase *s, QObject *from) : QEvent(QEvent::MetaCall), slot(s), sender(from && !QObjectPrivate::get(from)->wasDeleted ? from : nullptr) { slot->ref(); args[0] = nullptr; }
    ~CallEvent() override {
        for (int i = 1; i < n; i++) if (args[i]) { if (types[i]->dtor) types[i]->dtor(types[i], args[i]); free(args[i]); }
        slot->destroyIfLastRef();
    }
    void copyArgs(const QMetaObject *mo, int sig, void **argv) {
        const uint *data = mo->d.data; // revision, className, classInfoCount, classInfoData, methodCount, methodData ...
        const uint *m = data + data[5] + 6 * sig;
        int argc = m[1], first = m[5];
        n = argc + 1;
        for (int i = 0; i < argc; i++) {
            auto t = mo->d.metaTypes[first + 1 + i];
            if (!t || !t->copyCtr) vf_unmodelled_("queued argument without a meta type");
            types[i + 1] = t;
            args[i + 1] = malloc(t->size ? t->size : 1);
            t->copyCtr(t, args[i + 1], argv[i + 1]);
        }
    }
};
static void activate(QObject *sender, const QMetaObject *mo, int sig, void **argv) {
    QObjectPrivate *d = QObjectPrivate::get(sender);
    if (d->blockSig || !d->out) return;
    void *none[] = {nullptr};
    if (!argv) argv = none;
    bool gone = false, *outer = d->gone;
    d->gone = &gone;
    d->emitting++;
    uint64_t last = connSeq;
    for (Conn *c = d->out, *next; c; c = next) {
        if (c->id > last) break;
        c->refs++;
        if (c->receiver && c->sm == mo && c->sig == sig) {
            QObject *r = c->receiver;
            ThreadData *rt = QObjectPrivate::get(r)->thread;
            if (c->type == Qt::QueuedConnection || (c->type == Qt::AutoConnection && rt != current())) {
                auto e = new CallEvent(c->slot, sender);
                e->copyArgs(mo, sig, argv);
                if (c->single) cut(c);
                QCoreApplication::postEvent(r, e);
            } else if (c->type == Qt::BlockingQueuedConnection) vf_unmodelled_("blocking queued connection");
            else {
                auto s = c->slot;
                s->ref();
                if (c->single) cut(c);
                { Calling c(r, sender); s->call(r, argv); }
                s->destroyIfLastRef();
            }
        }
        if (gone) { derefConn(c); if (outer) *outer = true; return; }
        next = c->next;
        derefConn(c);
    }
    d->gone = outer;
    if (--d->emitting == 0 && d->dirty) sweep(d);
}

// --- posted events --------------------------------------------------------------
static void append(ThreadData *t, Posted *p) {
    Posted *after = t->tail;
    while (after && after->priority < p->priority) after = after->prev;
    p->prev = after; p->next = after ? after->next : t->head;
    (p->next ? p->next->prev : t->tail) = p;
    (after ? after->next : t->head) = p;
}
static void detach(ThreadData *t, Posted *p) {
    (p->prev ? p->prev->next : t->head) = p->next;
    (p->next ? p->next->prev : t->tail) = p->prev;
}
static bool deliverable(ThreadData *t, Posted *p, int only = 0) {
    if (p->event->type() != QEvent::DeferredDelete) return true;
    int lv = t->loopLevel + t->scopeLevel;
    return p->level > lv || (!p->level && lv > 0) || (only == QEvent::DeferredDelete && p->level == lv);
}
struct ScopeLevel { ThreadData *t; explicit ScopeLevel(ThreadData *x) : t(x) { t->scopeLevel++; t->refs++; } ~ScopeLevel() { t->scopeLevel--; unref(t); } };
static bool notify(QObject *r, QEvent *e) {
    ScopeLevel s(current()); InEvents in(1);
    return r->event(e);
}
static void deliver(ThreadData *t, Posted *p) {
    detach(t, p);
    QObject *r = p->receiver; QEvent *e = p->event;
    free(p);
    QObjectPrivate::get(r)->postedEvents.fetchAndSubRelaxed(1);
    notify(r, e);
    delete e;
}
bool deliverOne() {
    ThreadData *t = current();
    for (Posted *p = t->head; p; p = p->next) if (deliverable(t, p)) { deliver(t, p); return true; }
    return false;
}
struct LoopLevel { ThreadData *t; bool on; explicit LoopLevel(ThreadData *x) : t(x), on(x->loopLevel == 0) { if (on) t->loopLevel++; t->refs++; } ~LoopLevel() { if (on) t->loopLevel--; unref(t); } };
void deliverAll() { LoopLevel l(current()); preempt(); while (deliverOne()) preempt(); }
int posted() { int n = 0; for (Posted *p = current()->head; p; p = p->next) n++; return n; }
int timers() { int n = 0; for (TimerRec *p = current()->timers; p; p = p->next) n++; return n; }

// --- timers -----------------------------------------------------------------------
static int addTimer(QObject *o, int64_t ms) {
    ThreadData *t = QObjectPrivate::get(o)->thread;
    auto r = static_cast<TimerRec *>(malloc(sizeof(TimerRec)));
    int id = nextTimerId++;
    *r = TimerRec{id, o, ms, clockNow + ms, batchSeq, nullptr, t->timersTail};
    (t->timersTail ? t->timersTail->next : t->timers) = r;
    t->timersTail = r;
    return id;
}
static void drop(ThreadData *t, TimerRec *r) {
    (r->prev ? r->prev->next : t->timers) = r->next;
    (r->next ? r->next->prev : t->timersTail) = r->prev;
}
static void killTimer(QObject *o, int id) {
    ThreadData *t = QObjectPrivate::get(o)->thread;
    for (TimerRec *r = t->timers; r; r = r->next) if (r->obj == o && r->id == id) { drop(t, r); free(r); return; }
}
static void killTimers(QObject *o) {
    ThreadData *t = QObjectPrivate::get(o)->thread;
    for (TimerRec *r = t->timers, *n; r; r = n) { n = r->next; if (r->obj == o) { drop(t, r); free(r); } }
}
static bool due(TimerRec *r, uint64_t batch) { return r->batch < batch; }
static TimerRec *earliest(ThreadData *t, uint64_t batch) {
    TimerRec *best = nullptr;
    for (TimerRec *r = t->timers; r; r = r->next) if (due(r, batch) && (!best || r->deadline < best->deadline)) best = r;
    return best;
}
static void fire(ThreadData *t, TimerRec *r, uint64_t batch) {
    if (r->deadline > clockNow) clockNow = r->deadline;
    if (lateTimers && lateness) clockNow += lateness();
    // next expiry; the timer does not fire twice in one batch
    r->deadline = r->deadline + r->interval;
    if (r->deadline < clockNow) r->deadline = clockNow + r->interval;
    r->batch = batch;
    int id = r->id; QObject *o = r->obj;
    // order among equal deadlines: the timer that just fired goes last
    drop(t, r); r->next = nullptr; r->prev = t->timersTail; (t->timersTail ? t->timersTail->next : t->timers) = r; t->timersTail = r;
    QTimerEvent e(id);
    notify(o, &e);
}
// Time passes before something happens in the world, but no timer expires.
static void passTime(ThreadData *t) {
    TimerRec *first = nullptr;
    for (TimerRec *r = t->timers; r; r = r->next) if (!first || r->deadline < first->deadline) first = r;
    if (!first || first->deadline < clockNow) return; // nobody looks at the clock, or a timer is due already
    const int64_t dt = vf::range("time_passes", 0, 0x7fffffff);
    vf::assume(clockNow + dt <= first->deadline);
    clockNow += dt;
}
// Everything that is posted or due already happens; no time passes and nothing happens in the world.
void settle() {
    deliverAll();
    for (int n = 0; n < 8; n++) {
        ThreadData *t = current();
        const uint64_t batch = ++batchSeq;
        bool any = false;
        for (TimerRec *r; (r = earliest(t, batch)) && r->deadline <= clockNow; any = true) { LoopLevel l(t); fire(t, r, batch); }
        if (!any) return;
        deliverAll();
    }
}
// --- the event loop ----------------------------------------------------------------
static bool process(ThreadData *t, bool wait) {
    LoopLevel l(t);
    bool any = false;
    preempt();
    while (deliverOne()) { any = true; preempt(); }
    if (any && !wait) return true;
    if (any) return true; // the poll of a busy turn does not block: the next turn polls
    uint64_t batch = ++batchSeq;
    bool main = t == mainD();
    for (int n = 0;; n++) {
        TimerRec *r = earliest(t, batch);
        if (r && !wait && r->deadline > clockNow) r = nullptr;
        unsigned acts = main && env ? env->acts() : 0;
        unsigned total = (r ? 1 : 0) + acts;
        if (!total) return n > 0;
        unsigned c = 0;
        if (n > 0) { c = vf::choice("poll_more", total + 1); if (c == 0) return true; c--; }
        else if (!wait) { c = vf::choice("poll_now", total + 1); if (c == 0) return false; c--; }
        else c = total > 1 ? vf::choice("poll", total) : 0;
        if (r && c == 0) fire(t, r, batch);
        else { ScopeLevel s(t); InEvents in(0); if (clockRuns) passTime(t); env->act(c - (r ? 1 : 0)); }
        preempt();
    }
}
bool turn() { return process(current(), true); }
void run(int max, const char *what) { for (int i = 0; turn(); i++) if (i >= max) vf_bound_(what); }

static ThreadData *mainD() {
    if (!mainData) { mainData = newThreadData(); vf_leak_ok_(mainData); mainData->refs = 1; cur = mainData; mainData->thread = new QThread; vf_leak_ok_(mainData->thread); vf_leak_ok_(QObjectPrivate::get(mainData->thread)); vf_leak_ok_(QtSharedPointer::ExternalRefCountData::getAndRef(mainData->thread)); }
    return mainData;
}
static struct Init { Init() { mainD(); } } init;
} // namespace vqt
using namespace vqt;

// --- QObject -------------------------------------------------------------------------
QObjectData::~QObjectData() {}
QMetaObject *QObjectData::dynamicMetaObject() const { return nullptr; }
QBindingStorage::QBindingStorage() {}
QBindingStorage::~QBindingStorage() {}
QObjectPrivate *QObjectPrivate::get(const QObject *o) { return const_cast<QObjectPrivate *>(static_cast<const QObjectPrivate *>(reinterpret_cast<const QScopedPointer<QObjectData> *>(reinterpret_cast<const char *>(o) + sizeof(void *))->get())); }
QObjectPrivate::QObjectPrivate() : thread(vqt::current()) {
    q_ptr = nullptr; parent = nullptr; isWidget = blockSig = wasDeleted = isDeletingChildren = 0; sendChildEvents = receiveChildEvents = 1;
    isWindow = deleteLaterCalled = isQuickItem = willBeWidget = wasWidget = unused = 0; metaObject = nullptr;
    thread->refs++;
}
QObjectPrivate::~QObjectPrivate() {
    killTimers(q_ptr);
    if (postedEvents.loadRelaxed()) QCoreApplication::removePostedEvents(q_ptr);
    unref(thread);
}
void QObjectPrivate::setParentHelper(QObject *p) {
    if (parent == p) return;
    if (parent && !get(parent)->isDeletingChildren) get(parent)->children.removeAll(q_ptr);
    parent = p;
    if (parent) get(parent)->children.append(q_ptr);
}
QObject::QObject(QObject *parent) : QObject(*new QObjectPrivate, parent) {}
QObject::QObject(QObjectPrivate &dd, QObject *parent) : d_ptr(&dd) {
    dd.q_ptr = this;
    if (parent) dd.setParentHelper(parent);
}
QObject::~QObject() {
    QObjectPrivate *d = d_func();
    Calling::forget(this);
    d->wasDeleted = true;
    d->blockSig = 0;
    if (auto r = d->refs) { r->strongref.storeRelaxed(0); d->refs = nullptr; if (!r->weakref.deref()) delete r; }
    Q_EMIT destroyed(this);
    if (d->gone) *d->gone = true;
    d->emitting = 0;
    while (Conn *c = d->in) { c->refs++; cut(c); freeSlot(c); derefConn(c); }
    while (Conn *c = d->out) { if (c->receiver) { c->refs++; cut(c); derefConn(c); } else { unlinkOut(c); derefConn(c); } }
    if (!d->children.isEmpty()) {
        d->isDeletingChildren = true;
        for (int i = 0; i < d->children.count(); i++) { QObject *c = d->children.at(i); d->children[i] = nullptr; delete c; }
        d->children.clear();
        d->isDeletingChildren = false;
    }
    if (d->parent) {
        QObjectPrivate *pd = QObjectPrivate::get(d->parent);
        if (pd->isDeletingChildren) { for (auto &c : pd->children) if (c == this) c = nullptr; d->parent = nullptr; }
        else d->setParentHelper(nullptr);
    }
}
bool QObject::event(QEvent *e) {
    switch (e->type()) {
    case QEvent::Timer: timerEvent(static_cast<QTimerEvent *>(e)); break;
    case QEvent::ChildAdded: case QEvent::ChildPolished: case QEvent::ChildRemoved: childEvent(static_cast<QChildEvent *>(e)); break;
    case QEvent::DeferredDelete: delete this; break;
    case QEvent::MetaCall: { auto c = static_cast<CallEvent *>(e); Calling in(this, c->sender.data()); c->slot->call(this, c->args); break; }
    default:
        if (e->type() >= QEvent::User) { customEvent(e); break; }
        return false;
    }
    return true;
}
bool QObject::eventFilter(QObject *, QEvent *) { return false; }
void QObject::timerEvent(QTimerEvent *) {}
void QObject::childEvent(QChildEvent *) {}
void QObject::customEvent(QEvent *) {}
void QObject::connectNotify(const QMetaMethod &) {}
void QObject::disconnectNotify(const QMetaMethod &) {}
QThread *QObject::thread() const { return QObjectPrivate::get(this)->thread->thread; }
void QObject::setParent(QObject *p) { d_func()->setParentHelper(p); }
bool QObject::blockSignals(bool b) noexcept { bool o = d_func()->blockSig; d_func()->blockSig = b; return o; }
static void moveTree(QObject *o, ThreadData *to) {
    QObjectPrivate *d = QObjectPrivate::get(o);
    ThreadData *from = d->thread;
    for (Posted *p = from->head, *n; p; p = n) { n = p->next; if (p->receiver == o) { detach(from, p); append(to, p); } }
    for (TimerRec *r = from->timers, *n; r; r = n) {
        n = r->next;
        if (r->obj == o) { drop(from, r); r->next = nullptr; r->prev = to->timersTail; (to->timersTail ? to->timersTail->next : to->timers) = r; to->timersTail = r; }
    }
    to->refs++; d->thread = to; unref(from);
    for (QObject *c : std::as_const(d->children)) moveTree(c, to);
}
static void announceMove(QObject *o) {
    QEvent e(QEvent::ThreadChange);
    QCoreApplication::sendEvent(o, &e);
    for (QObject *c : std::as_const(QObjectPrivate::get(o)->children)) announceMove(c);
}
void QObject::moveToThread(QThread *t) {
    QObjectPrivate *d = d_func();
    ThreadData *to = t ? dataOf(t) : nullptr;
    if (!to) vf_unmodelled_("moveToThread(nullptr)");
    if (d->thread == to) return;
    if (d->parent) return;
    if (d->thread != current() && d->thread->thread) return; // can only push
    announceMove(this);
    moveTree(this, to);
    preempt();
}
int QObject::startTimer(int ms, Qt::TimerType) { if (ms < 0) return 0; return addTimer(this, ms); }
void QObject::killTimer(int id) { vqt::killTimer(this, id); }
void QObject::deleteLater() { d_func()->deleteLaterCalled = true; QCoreApplication::postEvent(this, new QDeferredDeleteEvent()); }
QObject *QObject::sender() const { for (Calling *c = Calling::calls; c; c = c->outer) if (c->receiver == this) return c->sender; return nullptr; }
void QObject::doSetObjectName(const QString &) {}
QString QObject::objectName() const { return QString(); }

QtSharedPointer::ExternalRefCountData *QtSharedPointer::ExternalRefCountData::getAndRef(const QObject *o) {
    QObjectPrivate *d = QObjectPrivate::get(o);
    vf::check(!d->wasDeleted, "QPointer to an object that is being destroyed");
    if (d->refs) { d->refs->weakref.ref(); return d->refs; }
    auto x = ::new ExternalRefCountData(Qt::Uninitialized);
    x->strongref.storeRelaxed(-1);
    x->weakref.storeRelaxed(2);
    return d->refs = x;
}
QMetaObject::Connection QObject::connectImpl(const QObject *sender, void **signal, const QObject *receiver, void **slot,
                                             QtPrivate::QSlotObjectBase *so, Qt::ConnectionType type, const int *, const QMetaObject *smo) {
    preempt();
    int idx = -1;
    const QMetaObject *mo = signal ? resolve(smo, signal, idx) : nullptr;
    if (!sender || !receiver || !so || !mo) { if (so) so->destroyIfLastRef(); return QMetaObject::Connection(); }
    QObjectPrivate *sd = QObjectPrivate::get(sender), *rd = QObjectPrivate::get(receiver);
    int t = type & ~(Qt::UniqueConnection | Qt::SingleShotConnection);
    if ((type & Qt::UniqueConnection) && slot)
        for (Conn *c = sd->out; c; c = c->next)
            if (c->receiver == receiver && c->sm == mo && c->sig == idx && c->slot && c->slot->compare(slot)) { so->destroyIfLastRef(); return QMetaObject::Connection(); }
    auto c = static_cast<Conn *>(malloc(sizeof(Conn)));
    *c = Conn{2, const_cast<QObject *>(sender), const_cast<QObject *>(receiver), mo, idx, so, t, (type & Qt::SingleShotConnection) != 0, true, ++connSeq, nullptr, sd->outTail, rd->in, nullptr};
    (sd->outTail ? sd->outTail->next : sd->out) = c; sd->outTail = c;
    if (rd->in) rd->in->rprev = c;
    rd->in = c;
    QMetaObject::Connection ret;
    *reinterpret_cast<void **>(&ret) = c;
    return ret;
}
bool QObject::disconnect(const QMetaObject::Connection &conn) {
    void *&p = *reinterpret_cast<void **>(const_cast<QMetaObject::Connection *>(&conn));
    Conn *c = static_cast<Conn *>(p);
    if (!c) return false;
    bool r = cut(c);
    p = nullptr;
    derefConn(c);
    return r;
}
static bool cutMatching(const QObject *sender, const QMetaObject *mo, int idx, const QObject *receiver, void **slot) {
    QObjectPrivate *d = QObjectPrivate::get(sender);
    bool any = false;
    d->emitting++;
    for (Conn *c = d->out; c; c = c->next)
        if (c->receiver && (!mo || (c->sm == mo && c->sig == idx)) && (!receiver || (c->receiver == receiver && (!slot || (c->slot && c->slot->compare(slot)))))) { cut(c); any = true; }
    if (--d->emitting == 0 && d->dirty) sweep(d);
    return any;
}
bool QObject::disconnectImpl(const QObject *sender, void **signal, const QObject *receiver, void **slot, const QMetaObject *smo) {
    if (!sender || (!receiver && slot)) return false;
    int idx = -1; const QMetaObject *mo = nullptr;
    if (signal) { mo = resolve(smo, signal, idx); if (!mo) return false; }
    return cutMatching(sender, mo, idx, receiver, slot);
}
bool QObject::disconnect(const QObject *sender, const char *signal, const QObject *receiver, const char *member) {
    if (!sender) return false;
    if (signal || member) vf_unmodelled_("string based disconnect");
    return cutMatching(sender, nullptr, -1, receiver, nullptr);
}
QMetaObject::Connection QObject::connect(const QObject *, const char *, const QObject *, const char *, Qt::ConnectionType) { vf_unmodelled_("string based connect"); }

QMetaObject::Connection::Connection() : d_ptr(nullptr) {}
QMetaObject::Connection::~Connection() { if (d_ptr) derefConn(static_cast<Conn *>(d_ptr)); }
QMetaObject::Connection::Connection(const Connection &o) : d_ptr(o.d_ptr) { if (d_ptr) static_cast<Conn *>(d_ptr)->refs++; }
QMetaObject::Connection &QMetaObject::Connection::operator=(const Connection &o) {
    if (o.d_ptr != d_ptr) { if (d_ptr) derefConn(static_cast<Conn *>(d_ptr)); d_ptr = o.d_ptr; if (d_ptr) static_cast<Conn *>(d_ptr)->refs++; }
    return *this;
}
bool QMetaObject::Connection::isConnected_helper() const { return static_cast<Conn *>(d_ptr)->receiver != nullptr; }
void QMetaObject::activate(QObject *sender, const QMetaObject *mo, int sig, void **argv) { vqt::activate(sender, mo, sig, argv); }
const char *QMetaObject::className() const { return reinterpret_cast<const char *>(d.stringdata) + d.stringdata[2 * d.data[1]]; }
::QByteArray QMetaObject::normalizedType(const char *t) { return QByteArray(t, -1); } // names of types are not looked at
int QMetaType::idHelper() const { static int next = 70000; auto *i = const_cast<QtPrivate::QMetaTypeInterface *>(d_ptr); if (!i->typeId.loadRelaxed()) i->typeId.storeRelaxed(next++); return i->typeId.loadRelaxed(); }
void QMetaType::registerNormalizedTypedef(const ::QByteArray &, QMetaType) {}
const QObject *QMetaObject::cast(const QObject *o) const { return o && o->metaObject()->inherits(this) ? o : nullptr; }
bool QMetaObject::inherits(const QMetaObject *mo) const noexcept { for (const QMetaObject *m = this; m; m = m->d.superdata) if (m == mo) return true; return false; }
bool QMetaObject::invokeMethodImpl(QObject *o, QtPrivate::QSlotObjectBase *slot, Qt::ConnectionType type, void *ret) {
    if (!o) return false;
    bool same = QObjectPrivate::get(o)->thread == current();
    if (type == Qt::AutoConnection) type = same ? Qt::DirectConnection : Qt::QueuedConnection;
    void *argv[] = {ret};
    if (type == Qt::DirectConnection) { slot->call(o, argv); slot->destroyIfLastRef(); }
    else if (type == Qt::QueuedConnection) { auto e = new CallEvent(slot, nullptr); slot->destroyIfLastRef(); QCoreApplication::postEvent(o, e); }
    else vf_unmodelled_("blocking queued invocation");
    return true;
}

// --- events ---------------------------------------------------------------------------
QEvent::QEvent(Type type) : t(type), m_reserved(0), m_inputEvent(false), m_pointerEvent(false), m_singlePointEvent(false) {}
QEvent::~QEvent() {}
QEvent *QEvent::clone() const { return new QEvent(*this); }
int QEvent::registerEventType(int) noexcept { static int n = QEvent::User + 1; return n++; }
QTimerEvent::QTimerEvent(int i) : QEvent(Timer), id(i) {}
QTimerEvent::~QTimerEvent() {}
QTimerEvent *QTimerEvent::clone() const { return new QTimerEvent(*this); }
QDeferredDeleteEvent::QDeferredDeleteEvent() : QEvent(QEvent::DeferredDelete), level(0) {}
QDeferredDeleteEvent::~QDeferredDeleteEvent() {}
QDeferredDeleteEvent *QDeferredDeleteEvent::clone() const { return new QDeferredDeleteEvent(*this); }
static QObject *application() { // the application is there, as a plain object
    QObject *app = new QObject;
    vf_leak_ok_(app); vf_leak_ok_(QObjectPrivate::get(app)); vf_leak_ok_(QtSharedPointer::ExternalRefCountData::getAndRef(app));
    return app;
}
QCoreApplication *QCoreApplication::self = static_cast<QCoreApplication *>(application());
void QCoreApplication::postEvent(QObject *r, QEvent *e, int priority) {
    if (!r) { delete e; return; }
    QObjectPrivate *d = QObjectPrivate::get(r);
    ThreadData *t = d->thread;
    int level = 0;
    if (e->type() == QEvent::DeferredDelete) {
        if (t == current()) level = t->loopLevel + t->scopeLevel;
        for (Posted *p = t->head; p; p = p->next) if (p->receiver == r && p->event->type() == QEvent::DeferredDelete) { delete e; return; } // compressed
    }
    auto p = static_cast<Posted *>(malloc(sizeof(Posted)));
    *p = Posted{r, e, priority, level, nullptr, nullptr};
    e->m_posted = true;
    append(t, p);
    d->postedEvents.fetchAndAddRelaxed(1);
    preempt();
}
bool QCoreApplication::sendEvent(QObject *r, QEvent *e) { return vqt::notify(r, e); }
void QCoreApplication::removePostedEvents(QObject *r, int type) {
    if (!r) vf_unmodelled_("removePostedEvents(nullptr)");
    for (bool again = true; again;) {
        again = false;
        ThreadData *t = QObjectPrivate::get(r)->thread;
        for (Posted *p = t->head; p; p = p->next)
            if (p->receiver == r && (!type || p->event->type() == type)) { detach(t, p); QEvent *e = p->event; free(p); QObjectPrivate::get(r)->postedEvents.fetchAndSubRelaxed(1); delete e; again = true; break; }
    }
}
void QCoreApplication::sendPostedEvents(QObject *r, int type) {
    ThreadData *t = current();
    for (bool again = true; again;) {
        again = false;
        for (Posted *p = t->head; p; p = p->next)
            if ((!r || p->receiver == r) && (!type || p->event->type() == type) && deliverable(t, p, type)) { deliver(t, p); again = true; break; }
    }
}
void QCoreApplication::processEvents(QEventLoop::ProcessEventsFlags f) { process(current(), f & QEventLoop::WaitForMoreEvents); }

// this thread can only wait: another thread that can go on does
bool vqt::othersGoOn() {
    unsigned n = env && !preempting ? env->asyncs() : 0;
    if (!n) return false;
    preempting = true;
    { InEvents in(0); env->async(n > 1 ? vf::choice("other_thread_goes_on", n) : 0); }
    preempting = false;
    return true;
}
class QEventLoopPrivate : public QObjectPrivate { public: bool exit = true, inExec = false; int code = 0; };
QEventLoop::QEventLoop(QObject *parent) : QObject(*new QEventLoopPrivate, parent) {}
QEventLoop::~QEventLoop() {}
bool QEventLoop::event(QEvent *e) { if (e->type() == QEvent::Quit) { quit(); return true; } return QObject::event(e); }
bool QEventLoop::processEvents(ProcessEventsFlags f) { return process(current(), f & WaitForMoreEvents); }
int QEventLoop::exec(ProcessEventsFlags f) {
    vf::check(!(f & (ExcludeUserInputEvents | ExcludeSocketNotifiers)), "a waiting event loop handles every kind of event");
    auto d = static_cast<QEventLoopPrivate *>(d_ptr.data());
    ThreadData *t = current();
    if (t->quitNow) return -1;
    loopRuns++;
    preempt();
    vf::check(!d->inExec, "QEventLoop::exec is not called while it is running");
    d->exit = false; d->inExec = true; d->code = 0;
    t->loopLevel++;
    struct Leave { QEventLoopPrivate *d; ThreadData *t; ~Leave() { d->inExec = false; d->exit = true; t->loopLevel--; } } leave{d, t};
    for (preempt(); !d->exit && !t->quitNow; preempt()) if (!process(t, true) && !d->exit && !othersGoOn()) { onHang(); break; }
    return d->code;
}
void QEventLoop::exit(int code) { auto d = static_cast<QEventLoopPrivate *>(d_ptr.data()); d->code = code; d->exit = true; }
void QEventLoop::quit() { exit(0); }
bool QEventLoop::isRunning() const { return !static_cast<QEventLoopPrivate *>(d_ptr.data())->exit; }
void QEventLoop::wakeUp() {}

// --- QTimer ----------------------------------------------------------------------------
class QTimerPrivate : public QObjectPrivate { public: int id = 0, inter = 0; bool single = false; Qt::TimerType type = Qt::CoarseTimer; };
QTimer::QTimer(QObject *parent) : QObject(*new QTimerPrivate, parent) {}
QTimer::~QTimer() { if (d_func()->id) stop(); }
bool QTimer::isActive() const { return d_func()->id != 0; }
int QTimer::timerId() const { return d_func()->id ? d_func()->id : -1; }
void QTimer::start() { auto d = d_func(); if (d->id) stop(); d->id = QObject::startTimer(d->inter, d->type); }
void QTimer::start(int ms) { d_func()->inter = ms; start(); }
void QTimer::stop() { auto d = d_func(); if (d->id) { QObject::killTimer(d->id); d->id = 0; } }
void QTimer::timerEvent(QTimerEvent *e) { auto d = d_func(); if (e->timerId() == d->id) { if (d->single) stop(); Q_EMIT timeout(QPrivateSignal()); } }
void QTimer::setInterval(int ms) { auto d = d_func(); d->inter = ms; if (d->id) { QObject::killTimer(d->id); d->id = QObject::startTimer(ms, d->type); } }
int QTimer::interval() const { return d_func()->inter; }
void QTimer::setSingleShot(bool s) { d_func()->single = s; }
bool QTimer::isSingleShot() const { return d_func()->single; }
void QTimer::setTimerType(Qt::TimerType t) { d_func()->type = t; }
Qt::TimerType QTimer::timerType() const { return d_func()->type; }
int QTimer::remainingTime() const {
    auto d = const_cast<QTimer *>(this)->d_func();
    if (!d->id) return -1;
    for (TimerRec *r = d->thread->timers; r; r = r->next) if (r->id == d->id) return r->deadline > clockNow ? int(r->deadline - clockNow) : 0;
    return -1;
}
namespace {
struct SingleShot : QObject {
    QtPrivate::QSlotObjectBase *slot; bool hasReceiver; QPointer<const QObject> receiver; int id;
    SingleShot(int ms, const QObject *r, QtPrivate::QSlotObjectBase *s) : slot(s), hasReceiver(r != nullptr), receiver(r), id(0) {
        if (r && r->thread() != thread()) moveToThread(r->thread());
        id = startTimer(ms);
    }
    ~SingleShot() override { if (id > 0) killTimer(id); slot->destroyIfLastRef(); }
    void timerEvent(QTimerEvent *) override {
        if (id > 0) killTimer(id);
        id = -1;
        if (receiver.isNull() && hasReceiver) { delete this; return; }
        void *args[1] = {nullptr};
        slot->ref(); auto s = slot;
        s->call(const_cast<QObject *>(hasReceiver ? receiver.data() : this), args);
        s->destroyIfLastRef();
        delete this;
    }
};
}
void QTimer::singleShotImpl(int ms, Qt::TimerType, const QObject *receiver, QtPrivate::QSlotObjectBase *slot) {
    if (ms == 0) {
        bool del = false;
        if (!receiver && current() == mainThread()) receiver = QThread::currentThread();
        else if (!receiver) { receiver = new QObject; del = true; }
        QMetaObject::invokeMethodImpl(const_cast<QObject *>(receiver), slot, Qt::QueuedConnection, nullptr);
        if (del) const_cast<QObject *>(receiver)->deleteLater();
        return;
    }
    new SingleShot(ms, receiver, slot);
}

// --- threads ------------------------------------------------------------------------------
class QThreadPrivate : public QObjectPrivate {
public:
    ThreadData *data = nullptr;
    bool running = false, finished = false, isInFinish = false, begun = false, exited = false;
    bool asked = false;
    int stage = 0; // 0 not started, 1 start() was called, 2 in run()/exec(), 3 finished() emitted, 4 over
};
QThread::QThread(QObject *parent) : QObject(*new QThreadPrivate, parent) {
    auto d = d_func();
    if (mainData && !mainData->thread) { d->data = mainData; mainData->refs++; d->running = true; d->stage = 2; }
    else d->data = newThreadData();
    d->data->refs++;
    d->data->thread = this;
}
QThread::QThread(QThreadPrivate &dd, QObject *parent) : QObject(dd, parent) { vf_unmodelled_("QThread subclass with a private"); }
QThread::~QThread() {
    auto d = d_func();
    vf::check(!(d->running && !d->finished), "a QThread is not destroyed while it is running");
    d->data->thread = nullptr;
    unref(d->data);
}
ThreadData *vqt::dataOf(QThread *t) { return static_cast<QThreadPrivate *>(QObjectPrivate::get(t))->data; }
QThread *QThread::currentThread() { return current()->thread; }
bool QThread::event(QEvent *e) { if (e->type() == QEvent::Quit) { quit(); return true; } return QObject::event(e); }
bool QThread::isRunning() const { preempt(); auto d = d_func(); bool r = d->running && !d->isInFinish; preempt(); return r; }
bool QThread::isFinished() const { preempt(); auto d = d_func(); bool r = d->finished || d->isInFinish; preempt(); return r; }
void QThread::start(Priority) {
    auto d = d_func();
    if (d->isInFinish) vf_unmodelled_("QThread restarted while it finishes");
    if (d->running) return;
    d->running = true; d->finished = false; d->exited = false; d->asked = false; d->stage = 1; d->data->quitNow = false;
    preempt();
}
void QThread::exit(int) { touched(); auto d = d_func(); d->exited = true; d->data->quitNow = true; }
void QThread::quit() { exit(); }
void QThread::run() {}
void QThread::terminate() { vf_fail_("a thread is terminated"); }
// whether its user asked it to stop is anybody's guess, and stays so until it is started again
bool QThread::isInterruptionRequested() const { auto d = const_cast<QThreadPrivate *>(d_func()); if (!d->running || d->isInFinish) return false; if (!d->asked) d->asked = vf::u8("interruption_requested") & 1; return d->asked; }
void QThread::requestInterruption() { vf_fail_("a thread is asked to stop that nobody asked to stop"); }
QThread::Priority QThread::priority() const { return InheritPriority; }
void QThread::setPriority(Priority) {}
int QThread::loopLevel() const { return d_func()->stage == 2 ? vf::u8("loop_level") & 1 : 0; }
bool QThread::wait(QDeadlineTimer) { if (d_func()->stage == 0 || d_func()->stage == 4) return true; vf_fail_("the thread blocks"); }
void QThread::msleep(unsigned long) { vf_fail_("the thread blocks"); }
void QThread::sleep(unsigned long) { vf_fail_("the thread blocks"); }
void QThread::usleep(unsigned long) { vf_fail_("the thread blocks"); }
void QThread::yieldCurrentThread() { preempt(); }
int vqt::threadStage(QThread *t) { return static_cast<QThreadPrivate *>(QObjectPrivate::get(t))->stage; }
bool vqt::threadCanStep(QThread *t) {
    auto d = static_cast<QThreadPrivate *>(QObjectPrivate::get(t));
    switch (d->stage) {
    case 1: case 3: return true;
    case 2: {
        if (d->exited) return true;
        for (Posted *p = d->data->head; p; p = p->next) if (p->event->type() != QEvent::DeferredDelete || true) return true;
        return d->data->timers != nullptr;
    }
    }
    return false;
}
void vqt::threadStep(QThread *t) {
    auto d = static_cast<QThreadPrivate *>(QObjectPrivate::get(t));
    InThread in(d->data);
    switch (d->stage) {
    case 1: d->stage = 2; emitSignal(t, &QThread::started); break;
    case 2: {
        LoopLevel l(d->data);
        // a quit takes effect once the events at hand are delivered or right away
        if (d->exited && (!d->data->head || vf::flag("thread_quits_now"))) { d->isInFinish = true; d->stage = 3; emitSignal(t, &QThread::finished); break; }
        if (deliverOne()) break;
        uint64_t batch = ++batchSeq;
        if (TimerRec *r = earliest(d->data, batch)) fire(d->data, r, batch);
        break; }
    case 3: {
        QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete);
        d->running = false; d->finished = true; d->isInFinish = false; d->stage = 4;
        break; }
    }
}

// --- clocks -----------------------------------------------------------------------------
// --- clocks
static constexpr int64_t kSteadyEpoch = 5000, kSystemEpoch = 1700000000000; // the two clocks count from different epochs
// --- QDeadlineTimer, QElapsedTimer: t1 is the time in ms, t2 the nanoseconds beyond it
QDeadlineTimer::QDeadlineTimer(qint64 msecs, Qt::TimerType ty) noexcept : t1(0), t2(0), type(ty) { setRemainingTime(msecs, ty); }
void QDeadlineTimer::setRemainingTime(qint64 msecs, Qt::TimerType ty) noexcept {
    type = ty; t2 = 0;
    t1 = msecs == -1 ? std::numeric_limits<qint64>::max() : vqt::now() + kSteadyEpoch + msecs;
}
void QDeadlineTimer::setPreciseRemainingTime(qint64 secs, qint64 nsecs, Qt::TimerType ty) noexcept {
    if (secs == -1) { *this = QDeadlineTimer(Forever, ty); return; }
    type = ty; t2 = unsigned(nsecs % 1000000);
    t1 = vqt::now() + kSteadyEpoch + secs * 1000 + nsecs / 1000000;
}
bool QDeadlineTimer::hasExpired() const noexcept { return !isForever() && t1 <= vqt::now() + kSteadyEpoch; }
qint64 QDeadlineTimer::remainingTime() const noexcept {
    if (isForever()) return -1;
    const qint64 r = t1 - (vqt::now() + kSteadyEpoch) + (t2 ? 1 : 0);
    return r < 0 ? 0 : r;
}
qint64 QDeadlineTimer::rawRemainingTimeNSecs() const noexcept { return isForever() ? std::numeric_limits<qint64>::max() : (t1 - (vqt::now() + kSteadyEpoch)) * 1000000 + t2; }
qint64 QDeadlineTimer::remainingTimeNSecs() const noexcept { if (isForever()) return -1; const qint64 r = rawRemainingTimeNSecs(); return r < 0 ? 0 : r; }
qint64 QDeadlineTimer::deadline() const noexcept { return t1; }
QDeadlineTimer QDeadlineTimer::current(Qt::TimerType ty) noexcept { return QDeadlineTimer(qint64(0), ty); }
void QDeadlineTimer::setDeadline(qint64 msecs, Qt::TimerType ty) noexcept { type = ty; t2 = 0; t1 = msecs; }
void QElapsedTimer::start() noexcept { t1 = vqt::now() + kSteadyEpoch; t2 = 0; }
qint64 QElapsedTimer::restart() noexcept { const qint64 r = elapsed(); start(); return r; }
qint64 QElapsedTimer::elapsed() const noexcept { return vqt::now() + kSteadyEpoch - t1; }
qint64 QElapsedTimer::nsecsElapsed() const noexcept { return elapsed() * 1000000; }
bool QElapsedTimer::hasExpired(qint64 timeout) const noexcept { return timeout >= 0 && elapsed() > timeout; }
qint64 QElapsedTimer::msecsSinceReference() const noexcept { return t1; }
qint64 QElapsedTimer::msecsTo(const QElapsedTimer &o) const noexcept { return o.t1 - t1; }
qint64 QElapsedTimer::secsTo(const QElapsedTimer &o) const noexcept { return msecsTo(o) / 1000; }
void QElapsedTimer::invalidate() noexcept { t1 = t2 = std::numeric_limits<qint64>::min(); }
bool QElapsedTimer::isValid() const noexcept { return t1 != std::numeric_limits<qint64>::min(); }

namespace std::chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(milliseconds(vqt::now() + kSteadyEpoch)); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration_cast<duration>(milliseconds(vqt::now() + kSystemEpoch))); }
} }

#include "moc_qobject.h.inc"
#include "moc_qtimer.h.inc"
#include "moc_qthread.h.inc"
#include "moc_qeventloop.h.inc"
#include "moc_qcoreapplication.h.inc"
