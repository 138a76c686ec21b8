// Model of QtQml: engines and opaque JavaScript values.
#include "vqt_qml.h"
#include <QLoggingCategory>
#include <cstdlib>
using namespace vqt;
void *vqt_v4new(QJSEngine *e);
quint64 vqt_v4encode(void *js);
void *vqt_v4decode(quint64 d);
namespace { struct Slot { void *v4; QJSEngine *engine; int refs; };
struct Js { Slot *slot; int refs, function; QVariant v; }; }
void (*vqt::jsCalled)(int, const QJSValueList &) = nullptr;
static_assert(sizeof(QJSValue) == 8);
static quint64 &raw(const QJSValue &v) { return *reinterpret_cast<quint64 *>(const_cast<QJSValue *>(&v)); }
static Js *js(const QJSValue &v) { return static_cast<Js *>(vqt_v4decode(raw(v))); }
static void release(Slot *s) { if (--s->refs == 0) delete s; }
QJSValue::QJSValue(SpecialValue v) : d(0) { if (v == NullValue) vf_unmodelled_("QJSValue null"); }
QJSValue::QJSValue(const QJSValue &o) : d(o.d) { if (Js *j = js(*this)) j->refs++; }
QJSValue::~QJSValue() { if (Js *j = js(*this); j && --j->refs == 0) { release(j->slot); delete j; } }
QJSValue &QJSValue::operator=(const QJSValue &o) { QJSValue t(o); std::swap(d, t.d); return *this; }
bool QJSValue::isCallable() const { Js *j = js(*this); return j && j->slot->engine && j->function; }
bool QJSValue::isUndefined() const { return !js(*this); }
bool QJSValue::isNull() const { return false; }
bool QJSValue::isError() const { return false; }
QVariant QJSValue::toVariant() const { Js *j = js(*this); return j ? j->v : QVariant(); }
QJSValue QJSValue::call(const QJSValueList &args) const {
    Js *j = js(*this);
    if (!isCallable()) return QJSValue();
    for (const QJSValue &a : args) if (Js *x = js(a)) vf::check(x->slot == j->slot, "values are passed within one engine");
    jsCalled(j->function, args);
    return QJSValue();
}
class EnginePrivate : public QObjectPrivate { public: Slot *slot; };
static Slot *slot(const QJSEngine *e) { return static_cast<EnginePrivate *>(QObjectPrivate::get(e))->slot; }
QJSEngine::QJSEngine() : QJSEngine(nullptr) {}
QJSEngine::QJSEngine(QObject *parent) : QObject(*new EnginePrivate, parent) {
    auto s = new Slot{vqt_v4new(this), this, 1};
    static_cast<EnginePrivate *>(QObjectPrivate::get(this))->slot = s;
    m_v4Engine = static_cast<QV4::ExecutionEngine *>(s->v4);
}
QJSEngine::~QJSEngine() { Slot *s = slot(this); free(s->v4); s->v4 = nullptr; s->engine = nullptr; release(s); }
static QJSValue make(QJSEngine *e, int function, const QVariant &v) {
    Slot *s = slot(e);
    s->refs++;
    QJSValue r; raw(r) = vqt_v4encode(new Js{s, 1, function, v}); return r;
}
QJSValue QJSEngine::create(QMetaType type, const void *p) {
    QVariant v = type == QMetaType::fromType<QVariant>() ? *static_cast<const QVariant *>(p) : QVariant(type, p);
    return v.isValid() ? make(this, 0, v) : QJSValue();
}
QJSValue vqt::jsFunction(QJSEngine *e, int id) { return make(e, id, QVariant()); }
QVariant vqt::jsVariant(const QJSValue &v) { return v.toVariant(); }
QJSEngine *vqt::jsEngineOf(const QJSValue &v) { Js *j = js(v); return j ? j->slot->engine : nullptr; }
QLoggingCategory::QLoggingCategory(const char *, QtMsgType) {}
QLoggingCategory::~QLoggingCategory() {}
#include "moc_qjsengine.h.inc"
