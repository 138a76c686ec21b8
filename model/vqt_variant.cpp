// Model of QVariant: values of any type with a meta type interface.
#include "vqt.h"
#include <QVariant>
#include <QMetaType>
#include <QString>
#include <QStringList>
#include <QMap>
using namespace vqt;
typedef QtPrivate::QMetaTypeInterface I;
static void fill(QVariant::Private &d, const I *t, const void *from) {
    d = QVariant::Private(QMetaType(t));
    d.is_null = !from; // (a copied value is null only if nothing was copied)
    void *to;
    if (QVariant::Private::canUseInternalSpace(t)) to = d.data.data;
    else { d.data.shared = QVariant::PrivateShared::create(t); d.is_shared = true; to = d.data.shared->data(); }
    if (from) { if (t->copyCtr) t->copyCtr(t, to, from); else memcpy(to, from, t->size); }
    else if (t->defaultCtr) t->defaultCtr(t, to);
    else memset(to, 0, t->size);
}
static void release(QVariant::Private &d) {
    const I *t = d.typeInterface();
    if (!t) return;
    if (!d.is_shared) { if (t->dtor) t->dtor(t, d.data.data); }
    else if (!d.data.shared->ref.deref()) { if (t->dtor) t->dtor(t, d.data.shared->data()); QVariant::PrivateShared::free(d.data.shared); }
}
void QVariant::create(QMetaType type, const void *copy) { fill(d, type.d_ptr, copy); }
QVariant::QVariant(QMetaType type, const void *copy) : d() { if (type.d_ptr && type.d_ptr->size) fill(d, type.d_ptr, copy); }
QVariant::QVariant(const QVariant &p) : d(p.d) {
    if (d.is_shared) d.data.shared->ref.ref();
    else if (const I *t = d.typeInterface(); t && t->copyCtr) t->copyCtr(t, d.data.data, p.constData());
}
QVariant::~QVariant() { release(d); }
QVariant &QVariant::operator=(const QVariant &o) { if (this != &o) { QVariant copy(o); swap(copy); } return *this; }
QVariant::QVariant(int v) : d() { fill(d, QMetaType::fromType<int>().d_ptr, &v); }
QVariant::QVariant(uint v) : d() { fill(d, QMetaType::fromType<uint>().d_ptr, &v); }
QVariant::QVariant(bool v) : d() { fill(d, QMetaType::fromType<bool>().d_ptr, &v); }
QVariant::QVariant(qlonglong v) : d() { fill(d, QMetaType::fromType<qlonglong>().d_ptr, &v); }
QVariant::QVariant(const QString &v) : d() { fill(d, QMetaType::fromType<QString>().d_ptr, &v); }
QMetaType QVariant::metaType() const { return d.type(); }
bool QVariant::isNull() const { return d.is_null || !d.typeInterface(); }
void QVariant::clear() { release(d); d = Private(); }
void QVariant::detach() {
    if (!d.is_shared || d.data.shared->ref.loadRelaxed() == 1) return;
    Private n; fill(n, d.typeInterface(), constData());
    release(d); d = n;
}
void *QVariant::data() { detach(); d.is_null = false; return const_cast<void *>(constData()); }
// numbers; conversions that are not modelled end the path
static qlonglong number(const QVariant &v, bool *ok) {
    const QMetaType t = v.metaType();
    if (ok) *ok = true;
    if (t == QMetaType::fromType<int>()) return *static_cast<const int *>(v.constData());
    if (t == QMetaType::fromType<uint>()) return *static_cast<const uint *>(v.constData());
    if (t == QMetaType::fromType<bool>()) return *static_cast<const bool *>(v.constData());
    if (t == QMetaType::fromType<qlonglong>()) return *static_cast<const qlonglong *>(v.constData());
    if (ok) *ok = false;
    if (v.isValid()) vf_unmodelled_("QVariant conversion");
    return 0;
}
int QVariant::toInt(bool *ok) const { return int(number(*this, ok)); }
uint QVariant::toUInt(bool *ok) const { return uint(number(*this, ok)); }
qlonglong QVariant::toLongLong(bool *ok) const { return number(*this, ok); }
bool QVariant::toBool() const {
    if (metaType() == QMetaType::fromType<QString>()) { const QString &t = d.get<QString>(); return !(t.isEmpty() || t == QLatin1String("0") || t == QLatin1String("false")); }
    return number(*this, nullptr) != 0;
}
bool QMetaType::canConvert(QMetaType from, QMetaType to) { if (from != to) vf_unmodelled_("QMetaType::canConvert"); return from.isValid(); }
bool QVariant::equals(const QVariant &o) const {
    if (!isValid() || !o.isValid()) return isValid() == o.isValid();
    if (metaType() == o.metaType() && metaType() == QMetaType::fromType<QString>()) return d.get<QString>() == o.d.get<QString>();
    return number(*this, nullptr) == number(o, nullptr);
}
QString QVariant::toString() const { const bool is = metaType() == QMetaType::fromType<QString>(); if (!is && isValid()) vf_unmodelled_("QVariant conversion"); return is ? d.get<QString>() : QString(); }
bool QMetaType::isValid() const { return d_ptr; }
bool QMetaType::isRegistered() const { return d_ptr; }
bool QMetaType::convert(QMetaType from, const void *, QMetaType, void *) { if (from.isValid()) vf_unmodelled_("QMetaType::convert"); return false; }
#define T(Name) template class QtPrivate::QMetaTypeForType<Name>; template struct QtPrivate::QMetaTypeInterfaceWrapper<Name>;
T(QVariant)
