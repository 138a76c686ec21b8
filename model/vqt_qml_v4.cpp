// Model of QtQml: the part that meets the private header QCoro uses.
#include <private/qjsvalue_p.h>
struct JsHead { QV4::ExecutionEngine **engine; }; // an opaque JS value starts with its engine's slot, null when the engine is gone
QV4::ExecutionEngine *QV4::PersistentValueStorage::getEngine(const QV4::Value *v) { return *reinterpret_cast<const JsHead *>(v)->engine; }
void *vqt_v4new(QJSEngine *e) {
    auto v4 = static_cast<QV4::ExecutionEngine *>(malloc(sizeof(QV4::ExecutionEngine)));
    v4->publicEngine = e;
    return v4;
}
quint64 vqt_v4encode(void *js) { quint64 raw = 0; QJSValuePrivate::setRawValue(reinterpret_cast<QJSValue *>(&raw), static_cast<QV4::Value *>(js)); return raw; }
void *vqt_v4decode(quint64 d) {
    const QV4::Value v = QV4::Value::fromReturnedValue(d);
    return v.isManaged() ? static_cast<void *>(v.m()) : nullptr;
}
void QV4::PersistentValueStorage::freeUnchecked(QV4::Value *) {}
