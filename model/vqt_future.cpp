// Model of QtCore's futures: shared state, results, exceptions, watchers.
#include "vqt.h"
#include <QFuture>
#include <QFutureWatcher>
#include <QPromise>
#include <QException>
#include <QMutex>
using namespace vqt;
using B = QFutureInterfaceBase;

void QBasicMutex::lockInternal() noexcept { vf_unmodelled_("contended QMutex"); }
void QBasicMutex::unlockInternal() noexcept { vf_unmodelled_("contended QMutex"); }
void QBasicMutex::destroyInternal(QMutexPrivate *) { vf_unmodelled_("contended QMutex"); }
bool QBasicMutex::lockInternal(int) noexcept { vf_unmodelled_("contended QMutex"); }

// --- exceptions --------------------------------------------------------------
QException::~QException() noexcept {}
void QException::raise() const { QException e = *this; throw e; }
QException *QException::clone() const { return new QException(*this); }
void QtPrivate::ExceptionStore::setException(const QException &e) { try { e.raise(); } catch (...) { exceptionHolder = std::current_exception(); } }
void QtPrivate::ExceptionStore::setException(std::exception_ptr e) { exceptionHolder = e; }
bool QtPrivate::ExceptionStore::hasException() const { return !!exceptionHolder; }
std::exception_ptr QtPrivate::ExceptionStore::exception() const { return exceptionHolder; }
void QtPrivate::ExceptionStore::throwPossibleException() { if (hasException()) std::rethrow_exception(exceptionHolder); }
void QtPrivate::ExceptionStore::rethrowException() const { std::rethrow_exception(exceptionHolder); }

// --- results -------------------------------------------------------------------
namespace QtPrivate {
ResultIteratorBase::ResultIteratorBase() : mapIterator(QMap<int, ResultItem>::const_iterator()), m_vectorIndex(0) {}
ResultIteratorBase::ResultIteratorBase(QMap<int, ResultItem>::const_iterator it, int v) : mapIterator(it), m_vectorIndex(v) {}
ResultStoreBase::ResultStoreBase() : insertIndex(0), resultCount(0), m_filterMode(false), filteredResults(0) {}
ResultStoreBase::~ResultStoreBase() {}
bool ResultStoreBase::filterMode() const { return m_filterMode; }
int ResultStoreBase::count() const { return resultCount; }
bool ResultStoreBase::contains(int i) const { return m_results.constFind(i) != m_results.constEnd(); }
bool ResultStoreBase::containsValidResultItem(int i) const {
    if (i == -1) return false;
    auto it = m_results.constFind(i);
    return it != m_results.constEnd() && it->isValid();
}
int ResultStoreBase::addResult(int index, const void *result) {
    if (!result) vf_unmodelled_("filtered results");
    if (index == -1) index = insertIndex++;
    else insertIndex = qMax(insertIndex, index + 1);
    m_results.insert(index, ResultItem(result));
    while (m_results.constFind(resultCount) != m_results.constEnd()) resultCount++;
    return index;
}
int ResultStoreBase::addResults(int, const void *, int, int) { vf_unmodelled_("result vectors"); }
ResultIteratorBase ResultStoreBase::resultAt(int index) const { return ResultIteratorBase(m_results.constFind(index)); }
}

// --- the shared state ------------------------------------------------------------
static const int Resumed = 1 << 21; // the call-out of a resumed future
class QFutureWatcherBasePrivate;
class QFutureInterfaceBasePrivate {
public:
    int refs = 1, tRefs = 0, state; bool valid = true;
    QMutex mutex;
    QtPrivate::ResultStoreBase results;
    QtPrivate::ExceptionStore exception;
    static const int N = 4;
    QFutureWatcherBasePrivate *watchers[N]; int n = 0;
    explicit QFutureInterfaceBasePrivate(int s) : state(s) {}
    void send(int what, int b = 0, int e = 0);
};
B::QFutureInterfaceBase(State s) : d(new QFutureInterfaceBasePrivate(s)) {}
B::QFutureInterfaceBase(const B &o) : d(o.d) { d->refs++; }
B::~QFutureInterfaceBase() { if (d && --d->refs == 0) delete d; }
B &B::operator=(const B &o) { B copy(o); std::swap(d, copy.d); return *this; }
void B::swap(B &o) noexcept { std::swap(d, o.d); }
bool B::refT() const noexcept { return ++d->tRefs; }
bool B::derefT() const noexcept { return !d || --d->tRefs; }
bool B::queryState(State s) const { preempt(); return d->state & s; }
int B::loadState() const { return d->state; }
bool B::isRunning() const { return queryState(Running); }
bool B::isStarted() const { return queryState(Started); }
bool B::isCanceled() const { return queryState(Canceled); }
bool B::isFinished() const { return queryState(Finished); }
bool B::isValid() const { return d->valid; }
bool B::isRunningOrPending() const { return queryState(State(Running | Pending)); }
bool B::isResultReadyAt(int i) const { return d->results.contains(i); }
int B::resultCount() const { return d->results.count(); }
QMutex &B::mutex() const { return d->mutex; }
bool B::hasException() const { return d->exception.hasException(); }
QtPrivate::ExceptionStore &B::exceptionStore() { return d->exception; }
QtPrivate::ResultStoreBase &B::resultStoreBase() { return d->results; }
const QtPrivate::ResultStoreBase &B::resultStoreBase() const { return d->results; }
void B::reset() { d->state = NoState; d->valid = false; }
void B::rethrowPossibleException() { if (hasException()) d->exception.rethrowException(); }
void B::runContinuation() const {}
void B::cleanContinuation() {}
void B::reportStarted() {
    if (d->state & (Started | Canceled | Finished)) return;
    d->state = Started | Running; // a request to suspend is forgotten
    d->send(Started);
}
void B::reportFinished() {
    if (d->state & Finished) return;
    d->state = d->state & ~Running | Finished;
    d->send(Finished);
}
void B::reportResultsReady(int b, int e) { if (!(d->state & (Canceled | Finished)) && b != e) d->send(1 << 20, b, e); }
void B::reportException(std::exception_ptr e) {
    if (d->state & (Canceled | Finished)) return;
    d->exception.setException(e);
    d->state = d->state & ~(Suspending | Suspended) | Canceled;
    d->send(Canceled);
}
void B::reportException(const QException &e) {
    if (d->state & (Canceled | Finished)) return;
    d->exception.setException(e);
    d->state = d->state & ~(Suspending | Suspended) | Canceled;
    d->send(Canceled);
}
void B::cancel(CancelMode m) {
    preempt();
    const bool finish = m == CancelMode::CancelAndFinish && !(d->state & Finished);
    if (m == CancelMode::CancelOnly) { vqt::touched(); if (d->state & Canceled) return; }
    if (m == CancelMode::CancelAndFinish && d->state & Finished && d->state & Canceled) return;
    d->state = d->state & ~(Suspending | Suspended) | Canceled;
    d->send(Canceled);
    if (finish) { d->state = d->state & ~Running | Finished; d->send(Finished); }
    d->valid = false;
    preempt();
}
void B::cancel() { cancel(CancelMode::CancelOnly); }
// Waiting for a computation that is not over blocks the thread and its event loop.
static void blocks() { vf_fail_("the thread blocks until the future is finished"); }
void B::waitForFinished() { if (isRunningOrPending()) blocks(); rethrowPossibleException(); }
void B::waitForResult(int i) {
    rethrowPossibleException();
    if (isRunningOrPending() && (i == -1 || !isResultReadyAt(i))) blocks();
    rethrowPossibleException();
}
bool B::waitForNextResult() { vf_unmodelled_("QFutureInterfaceBase::waitForNextResult"); }
// The producer reports that it is suspended; it is up to the harness that it then does nothing until it is resumed.
void B::suspendIfRequested() { if (d->state & Suspending) { d->state = d->state & ~Suspending | Suspended; d->send(Suspended); } }
void B::setSuspended(bool on) {
    preempt();
    if (on) { d->state |= Suspending; d->send(Suspending); }
    else if (d->state & (Suspending | Suspended)) { d->state &= ~(Suspending | Suspended); d->send(Resumed); }
    preempt();
}
void B::toggleSuspended() { setSuspended(!(d->state & (Suspending | Suspended))); }
bool B::isSuspending() const { return queryState(Suspending); }
bool B::isSuspended() const { return queryState(Suspended); }
bool B::isPaused() const { return queryState(State(Suspending | Suspended)); }
bool B::isThrottled() const { return false; }
int B::progressValue() const { return 0; }
int B::progressMinimum() const { return 0; }
int B::progressMaximum() const { return 0; }

// --- watchers ----------------------------------------------------------------------
class QFutureWatcherBasePrivate : public QObjectPrivate { public: QFutureWatcherBase *q; bool connected = false, isFinished = false; };
static QFutureWatcherBasePrivate *dd(const QFutureWatcherBase *w) { return static_cast<QFutureWatcherBasePrivate *>(QObjectPrivate::get(w)); }
static const int ResultsReady = 1 << 20;
static void post(QFutureWatcherBasePrivate *p, int what, int begin = 0, int end = 0) { // a QFutureCallOutEvent
    QFutureWatcherBase *w = p->q;
    QMetaObject::invokeMethod(w, [w, what, begin, end] {
        switch (what) {
        case B::Started: emitSignal(w, &QFutureWatcherBase::started); break;
        case B::Canceled: emitSignal(w, &QFutureWatcherBase::canceled); break;
        case B::Suspending: emitSignal(w, &QFutureWatcherBase::suspending); break;
        case B::Suspended: emitSignal(w, &QFutureWatcherBase::suspended); break;
        case Resumed: emitSignal(w, &QFutureWatcherBase::resumed); break;
        case ResultsReady: {
            if (w->isCanceled()) break;
            int b = begin, e = end;
            QPointer<QFutureWatcherBase> alive(w);
            emitSignal(w, &QFutureWatcherBase::resultsReadyAt, b, e);
            for (int i = b; i < e && alive; i++) emitSignal(w, &QFutureWatcherBase::resultReadyAt, i);
            break;
        }
        default: dd(w)->isFinished = true; emitSignal(w, &QFutureWatcherBase::finished);
        }
    }, Qt::QueuedConnection);
}
void QFutureInterfaceBasePrivate::send(int what, int b, int e) { for (int i = 0; i < n; i++) post(watchers[i], what, b, e); }
QFutureWatcherBase::QFutureWatcherBase(QObject *parent) : QObject(*new QFutureWatcherBasePrivate, parent) { dd(this)->q = this; }
bool QFutureWatcherBase::event(QEvent *e) { return QObject::event(e); }
void QFutureWatcherBase::connectNotify(const QMetaMethod &) {}
void QFutureWatcherBase::disconnectNotify(const QMetaMethod &) {}
void QFutureWatcherBase::connectOutputInterface() {
    preempt();
    auto f = futureInterface().d;
    if (f->n == QFutureInterfaceBasePrivate::N) vf_bound_("future watchers");
    f->watchers[f->n++] = dd(this);
    dd(this)->connected = true;
    const int state = f->state, k = f->results.count(); // as if under the future's lock: nothing happens between here and the registration
    if (state & B::Started) post(dd(this), B::Started);
    if (k) post(dd(this), ResultsReady, 0, k);
    if (state & B::Suspended) post(dd(this), B::Suspended);
    else if (state & B::Suspending) post(dd(this), B::Suspending);
    if (state & B::Canceled) post(dd(this), B::Canceled);
    if (state & B::Finished) post(dd(this), B::Finished);
    preempt();
}
void QFutureWatcherBase::disconnectOutputInterface(bool pendingAssignment) {
    if (pendingAssignment) dd(this)->isFinished = false;
    auto f = futureInterface().d;
    dd(this)->connected = false;
    for (int i = 0; i < f->n; i++) if (f->watchers[i] == dd(this)) { f->watchers[i] = f->watchers[--f->n]; break; }
}
bool QFutureWatcherBase::isFinished() const { return dd(this)->isFinished; }
bool QFutureWatcherBase::isStarted() const { return futureInterface().isStarted(); }
bool QFutureWatcherBase::isRunning() const { return futureInterface().isRunning(); }
bool QFutureWatcherBase::isCanceled() const { return futureInterface().isCanceled(); }
bool QFutureWatcherBase::isPaused() const { return futureInterface().isPaused(); }
bool QFutureWatcherBase::isSuspending() const { return futureInterface().isSuspending(); }
bool QFutureWatcherBase::isSuspended() const { return futureInterface().isSuspended(); }
int QFutureWatcherBase::progressValue() const { return 0; }
void QFutureWatcherBase::cancel() { futureInterface().cancel(); }
void QFutureWatcherBase::waitForFinished() { futureInterface().waitForFinished(); }
void QFutureWatcherBase::setSuspended(bool on) { futureInterface().setSuspended(on); }
void QFutureWatcherBase::suspend() { futureInterface().setSuspended(true); }
void QFutureWatcherBase::resume() { futureInterface().setSuspended(false); }
void QFutureWatcherBase::toggleSuspended() { futureInterface().toggleSuspended(); }
void QFutureWatcherBase::pause() { futureInterface().setSuspended(true); }
void QFutureWatcherBase::setPaused(bool on) { futureInterface().setSuspended(on); }
void QFutureWatcherBase::togglePaused() { futureInterface().toggleSuspended(); }
#include "moc_qfuturewatcher.h.inc"
