// Model of QtDBus: messages, pending calls, their watchers and typed replies.
#include "vqt_dbus.h"
#include <QDBusArgument>
#include <QMutex>
using namespace vqt;

// --- messages and errors ---------------------------------------------------------
class QDBusMessagePrivate { public: int refs = 1; QDBusMessage::MessageType type = QDBusMessage::InvalidMessage; QString name, text; QList<QVariant> args; };
struct Peek : QDBusMessage { static QDBusMessagePrivate *&d(const QDBusMessage &m) { return *reinterpret_cast<QDBusMessagePrivate **>(const_cast<QDBusMessage *>(&m)); } };
static_assert(sizeof(QDBusMessage) == sizeof(void *));
QDBusMessage::QDBusMessage() : d_ptr(new QDBusMessagePrivate) {}
QDBusMessage::QDBusMessage(const QDBusMessage &o) : d_ptr(o.d_ptr) { d_ptr->refs++; }
QDBusMessage::~QDBusMessage() { if (d_ptr && --d_ptr->refs == 0) delete d_ptr; }
QDBusMessage &QDBusMessage::operator=(const QDBusMessage &o) { QDBusMessage t(o); swap(t); return *this; }
QDBusMessage::MessageType QDBusMessage::type() const { return d_ptr->type; }
QList<QVariant> QDBusMessage::arguments() const { return d_ptr->args; }
QString QDBusMessage::errorName() const { return d_ptr->name; }
QString QDBusMessage::errorMessage() const { return d_ptr->text; }
QDBusMessage QDBusMessage::createError(const QString &name, const QString &msg) {
    QDBusMessage m; m.d_ptr->type = ErrorMessage; m.d_ptr->name = name; m.d_ptr->text = msg; return m;
}
QDBusMessage vqt::reply(const QList<QVariant> &args) { QDBusMessage m; Peek::d(m)->type = QDBusMessage::ReplyMessage; Peek::d(m)->args = args; return m; }
QDBusMessage vqt::errorReply(const QString &name) { return QDBusMessage::createError(name, QString()); }
QDBusError::QDBusError() : code(NoError) {}
QDBusError::QDBusError(const QDBusMessage &m) : code(NoError) { if (m.type() == QDBusMessage::ErrorMessage) { code = Other; nm = m.errorName(); msg = m.errorMessage(); } }
QDBusError::QDBusError(const QDBusError &o) : code(o.code), msg(o.msg), nm(o.nm) {}
QDBusError &QDBusError::operator=(const QDBusError &o) { code = o.code; msg = o.msg; nm = o.nm; return *this; }
QDBusError::ErrorType QDBusError::type() const { return code; }
QString QDBusError::name() const { return nm; }
QString QDBusError::message() const { return msg; }
bool QDBusError::isValid() const { return code != NoError; }
static QString named(char16_t c) { return QString(reinterpret_cast<const QChar *>(&c), 1); } // distinguishable, not the real names
QString QDBusError::errorString(ErrorType e) { return named(char16_t(e)); }

// --- pending calls ------------------------------------------------------------------
class QDBusPendingCallPrivate : public QSharedData {
public:
    QDBusMessage reply;
    bool helper = false; int expected = -1;
    static const int N = 6;
    QDBusPendingCallWatcher *watchers[N]; int n = 0;
    void check() { // the reply has the values its receiver wants
        if (reply.type() == QDBusMessage::ReplyMessage && expected >= 0 && reply.arguments().size() < expected) reply = QDBusMessage::createError(QDBusError::InvalidSignature, QString());
    }
};
struct Open : QDBusPendingCall { static QDBusPendingCallPrivate *d(const QDBusPendingCall &c) { return static_cast<const Open &>(c).QDBusPendingCall::d.data(); } Open(QDBusPendingCallPrivate *p) : QDBusPendingCall(p) {} };
QDBusPendingCall vqt::pendingCall() { return Open(new QDBusPendingCallPrivate); }
void vqt::setReply(const QDBusPendingCall &c, const QDBusMessage &m) { auto d = Open::d(c); d->reply = m; d->check(); }
static void post(QDBusPendingCallWatcher *w) { QMetaObject::invokeMethod(w, [w] { emitSignal(w, &QDBusPendingCallWatcher::finished, w); }, Qt::QueuedConnection); }
void vqt::notifyReply(const QDBusPendingCall &c) { auto d = Open::d(c); for (int i = 0; i < d->n; i++) post(d->watchers[i]); }
static void blocks() { vf_fail_("the thread blocks until the D-Bus call is finished"); }
QDBusPendingCall::QDBusPendingCall(QDBusPendingCallPrivate *p) : d(p) {}
QDBusPendingCall::QDBusPendingCall(const QDBusPendingCall &o) : d(o.d) {}
QDBusPendingCall::~QDBusPendingCall() {}
QDBusPendingCall &QDBusPendingCall::operator=(const QDBusPendingCall &o) { d = o.d; return *this; }
static bool over(const QDBusPendingCallPrivate *d) { return !d || d->reply.type() != QDBusMessage::InvalidMessage; }
static QDBusMessage answer(const QDBusPendingCallPrivate *d) { return d ? d->reply : QDBusMessage::createError(QDBusError::Disconnected, QString()); }
bool QDBusPendingCall::isFinished() const { preempt(); return over(d.data()); }
void QDBusPendingCall::waitForFinished() { preempt(); if (!over(d.data())) blocks(); }
bool QDBusPendingCall::isError() const { preempt(); return answer(d.data()).type() == QDBusMessage::ErrorMessage; }
bool QDBusPendingCall::isValid() const { preempt(); return answer(d.data()).type() == QDBusMessage::ReplyMessage; }
QDBusError QDBusPendingCall::error() const { preempt(); return answer(d.data()); }
QDBusMessage QDBusPendingCall::reply() const { preempt(); return answer(d.data()); }
QDBusPendingCall QDBusPendingCall::fromError(const QDBusError &e) { auto p = new QDBusPendingCallPrivate; p->reply = QDBusMessage::createError(e.name(), e.message()); return Open(p); }
QDBusPendingCall QDBusPendingCall::fromCompletedCall(const QDBusMessage &m) { auto p = new QDBusPendingCallPrivate; p->reply = m; return Open(p); }

// A watcher is told when the reply arrives; on a finished call, only the very first
// watcher of the call is (Qt's behaviour).
class QDBusPendingCallWatcherPrivate : public QObjectPrivate { public: void _q_finished() {} };
QDBusPendingCallWatcher::QDBusPendingCallWatcher(const QDBusPendingCall &c, QObject *parent) : QObject(*new QDBusPendingCallWatcherPrivate, parent), QDBusPendingCall(c) {
    preempt();
    if (auto p = d.data()) {
        const bool late = !p->helper && over(p);
        p->helper = true;
        if (p->n == QDBusPendingCallPrivate::N) vf_bound_("D-Bus watchers");
        p->watchers[p->n++] = this;
        if (late) QMetaObject::invokeMethod(this, [this] { post(this); }, Qt::QueuedConnection);
    }
    preempt();
}
QDBusPendingCallWatcher::~QDBusPendingCallWatcher() {
    if (auto p = d.data()) for (int i = 0; i < p->n; i++) if (p->watchers[i] == this) { while (++i < p->n) p->watchers[i - 1] = p->watchers[i]; p->n--; }
}
void QDBusPendingCallWatcher::waitForFinished() { QDBusPendingCall::waitForFinished(); }

// --- typed replies -----------------------------------------------------------------------
QDBusPendingReplyBase::QDBusPendingReplyBase() : QDBusPendingCall(nullptr) {}
QDBusPendingReplyBase::~QDBusPendingReplyBase() {}
void QDBusPendingReplyBase::assign(const QDBusPendingCall &o) { QDBusPendingCall::operator=(o); }
void QDBusPendingReplyBase::assign(const QDBusMessage &m) { d = new QDBusPendingCallPrivate; d->reply = m; }
QVariant QDBusPendingReplyBase::argumentAt(int i) const {
    if (!d) return QVariant();
    if (!over(d.data())) blocks();
    return d->reply.arguments().value(i);
}
void QDBusPendingReplyBase::setMetaTypes(int count, const QMetaType *) { d->expected = count; d->check(); }

// --- marshalled values: no modelled message holds any --------------------------------------
QDBusArgument::QDBusArgument() : d(nullptr) {}
QDBusArgument::QDBusArgument(const QDBusArgument &) : d(nullptr) {}
QDBusArgument::~QDBusArgument() {}
const QDBusArgument &QDBusArgument::operator>>(int &) const { vf_unmodelled_("QDBusArgument"); }
const QDBusArgument &QDBusArgument::operator>>(QString &) const { vf_unmodelled_("QDBusArgument"); }
template<> void QExplicitlySharedDataPointer<QDBusPendingCallPrivate>::detach_helper() { vf_unmodelled_("detaching a pending call"); }
#include "moc_qdbuspendingcall.h.inc"
