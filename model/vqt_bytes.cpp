// Model of QtCore's implicitly shared arrays and the pieces of QByteArray and
// QString that are not inline.
#include <QByteArray>
#include <QString>
#include <QStringView>
#include <QStringList>
#include <QVariant>
#include <QMetaType>
#include <cstdlib>
#include <cstring>
#include "vf.h"

void *QArrayData::allocate(QArrayData **pdata, qsizetype objectSize, qsizetype alignment, qsizetype capacity, AllocationOption) noexcept {
    *pdata = nullptr;
    if (capacity == 0) return nullptr;
    qsizetype head = sizeof(QArrayData);
    if (alignment > qsizetype(alignof(QArrayData))) head += alignment - alignof(QArrayData);
    auto d = static_cast<QArrayData *>(::malloc(size_t(head + objectSize * (capacity + (objectSize <= 2 ? 1 : 0)))));
    d->ref_.storeRelaxed(1);
    d->flags = {};
    d->alloc = capacity;
    *pdata = d;
    return reinterpret_cast<void *>((quintptr(d) + sizeof(QArrayData) + alignment - 1) & ~(alignment - 1));
}
QPair<QArrayData *, void *> QArrayData::reallocateUnaligned(QArrayData *data, void *ptr, qsizetype objectSize, qsizetype capacity, AllocationOption) noexcept {
    QArrayData *n;
    void *p = allocate(&n, objectSize, alignof(QArrayData), capacity);
    if (data) {
        qsizetype have = data->alloc < capacity ? data->alloc : capacity;
        memcpy(p, ptr, size_t(have * objectSize));
        n->flags = data->flags;
        ::free(data);
    }
    return qMakePair(n, p);
}
void QArrayData::deallocate(QArrayData *data, qsizetype, qsizetype) noexcept { ::free(data); }

const char QByteArray::_empty = '\0';
static qsizetype len(const char *s) { qsizetype n = 0; while (s[n]) n++; return n; }
QByteArray::QByteArray(const char *data, qsizetype size) {
    if (!data) return;
    if (size < 0) size = len(data);
    if (size == 0) { d = DataPointer::fromRawData(&_empty, 0); return; }
    d = DataPointer(Data::allocate(size), size);
    memcpy(d.data(), data, size_t(size));
    d.data()[size] = '\0';
}
QByteArray::QByteArray(qsizetype size, char ch) {
    if (size <= 0) { d = DataPointer::fromRawData(&_empty, 0); return; }
    d = DataPointer(Data::allocate(size), size);
    memset(d.data(), ch, size_t(size));
    d.data()[size] = '\0';
}
QByteArray::QByteArray(qsizetype size, Qt::Initialization) {
    if (size <= 0) { d = DataPointer::fromRawData(&_empty, 0); return; }
    d = DataPointer(Data::allocate(size), size);
    d.data()[size] = '\0';
}
QByteArray &QByteArray::operator=(const QByteArray &o) noexcept { d = o.d; return *this; }
void QByteArray::reallocData(qsizetype alloc, QArrayData::AllocationOption) {
    if (!alloc) { d = DataPointer::fromRawData(&_empty, 0); return; }
    DataPointer dd(Data::allocate(alloc), qMin(alloc, d.size));
    if (dd.size > 0) memcpy(dd.data(), d.data(), size_t(dd.size));
    dd.data()[dd.size] = 0;
    d.swap(dd);
}
void QByteArray::reallocGrowData(qsizetype n) { reallocData(d.size + n, QArrayData::Grow); }
void QByteArray::resize(qsizetype size) {
    if (size < 0) size = 0;
    if (d.needsDetach() || size > capacity() - d.freeSpaceAtBegin()) reallocData(size, QArrayData::Grow);
    d.size = size;
    if (d.allocatedCapacity()) d.data()[size] = 0;
}
QByteArray &QByteArray::append(const QByteArray &b) {
    QByteArray r(size() + b.size(), Qt::Uninitialized);
    if (size()) memcpy(r.d.data(), constData(), size_t(size()));
    if (b.size()) memcpy(r.d.data() + size(), b.constData(), size_t(b.size()));
    if (r.size()) *this = r;
    return *this;
}
QByteArray &QByteArray::insert(qsizetype i, QByteArrayView v) {
    if (i < 0 || v.isEmpty()) return *this;
    if (i > size()) vf_unmodelled_("QByteArray::insert beyond the end");
    QByteArray r(size() + v.size(), Qt::Uninitialized);
    if (i) memcpy(r.d.data(), constData(), size_t(i));
    memcpy(r.d.data() + i, v.data(), size_t(v.size()));
    if (size() > i) memcpy(r.d.data() + i + v.size(), constData() + i, size_t(size() - i));
    return *this = r;
}
QByteArray &QByteArray::append(char c) { return append(QByteArray(1, c)); }
QByteArray QByteArray::mid(qsizetype pos, qsizetype n) const {
    if (pos > size() || pos < 0) return QByteArray();
    if (n < 0 || n > size() - pos) n = size() - pos;
    return QByteArray(constData() + pos, n);
}
QByteArray QByteArray::left(qsizetype n) const { return n >= size() ? *this : mid(0, n < 0 ? 0 : n); }
QByteArray QByteArray::right(qsizetype n) const { return n >= size() ? *this : n < 0 ? QByteArray("", 0) : mid(size() - n, n); }
void QByteArray::truncate(qsizetype pos) { if (pos < size()) resize(pos); }
void QByteArray::chop(qsizetype n) { if (n > 0) resize(size() - n); }
QByteArray &QByteArray::remove(qsizetype pos, qsizetype n) {
    if (n <= 0 || pos < 0 || pos >= size()) return *this;
    if (n > size() - pos) n = size() - pos;
    QByteArray r = left(pos);
    return *this = r.append(mid(pos + n));
}
QByteArray &QByteArray::prepend(const QByteArray &b) { QByteArray r = b; return *this = r.append(*this); }
QByteArray &QByteArray::fill(char c, qsizetype n) { return *this = QByteArray(n < 0 ? size() : n, c); }
qsizetype QByteArray::indexOf(char c, qsizetype from) const {
    if (from < 0) from = qMax<qsizetype>(from + size(), 0);
    for (qsizetype i = from; i < size(); i++) if (constData()[i] == c) return i;
    return -1;
}
qsizetype QByteArray::lastIndexOf(char c, qsizetype from) const {
    for (qsizetype i = from < 0 ? from + size() : qMin(from, size() - 1); i >= 0; i--) if (constData()[i] == c) return i;
    return -1;
}
qsizetype QByteArray::count(char c) const { qsizetype n = 0; for (qsizetype i = 0; i < size(); i++) n += constData()[i] == c; return n; }
void QByteArray::clear() { d.clear(); }

const char16_t QString::_empty = 0;
QString QString::fromUtf8(QByteArrayView v) { // ASCII only
    QString s(v.size(), Qt::Uninitialized);
    for (qsizetype i = 0; i < v.size(); i++) s.data()[i] = QChar(uchar(v[i]));
    return s;
}
QString QString::fromLatin1(QByteArrayView v) { return fromUtf8(v); }
QString::QString(qsizetype size, Qt::Initialization) {
    if (size <= 0) { d = DataPointer::fromRawData(&_empty, 0); return; }
    d = DataPointer(Data::allocate(size), size);
    d.data()[size] = u'\0';
}
QString::QString(const QChar *u, qsizetype size) {
    if (!u) return;
    if (size < 0) { size = 0; while (u[size].unicode()) size++; }
    if (!size) { d = DataPointer::fromRawData(&_empty, 0); return; }
    d = DataPointer(Data::allocate(size), size);
    memcpy(static_cast<void *>(d.data()), u, size_t(size) * 2);
    d.data()[size] = u'\0';
}
QString::QString(qsizetype size, QChar ch) {
    if (size <= 0) { d = DataPointer::fromRawData(&_empty, 0); return; }
    d = DataPointer(Data::allocate(size), size);
    for (qsizetype i = 0; i < size; i++) d.data()[i] = ch.unicode();
    d.data()[size] = u'\0';
}
void QString::reallocData(qsizetype alloc, QArrayData::AllocationOption) {
    if (!alloc) { d = DataPointer::fromRawData(&_empty, 0); return; }
    DataPointer dd(Data::allocate(alloc), qMin(alloc, d.size));
    if (dd.size > 0) memcpy(static_cast<void *>(dd.data()), d.data(), size_t(dd.size) * 2);
    dd.data()[dd.size] = 0;
    d.swap(dd);
}
QString &QString::operator=(const QString &o) noexcept { d = o.d; return *this; }

QString::QString(QChar c) : QString(1, c) {}
QString &QString::operator=(QChar c) { return *this = QString(1, c); }
QString QString::left(qsizetype n) const { return n >= size() || n < 0 ? *this : mid(0, n); }
QString QString::right(qsizetype n) const { return n >= size() || n < 0 ? *this : mid(size() - n, n); }
QString QString::mid(qsizetype pos, qsizetype n) const {
    if (pos > size()) return QString();
    if (pos < 0) { if (n < 0 || n + pos >= size()) return *this; if (n + pos <= 0) return QString(); n += pos; pos = 0; }
    if (n < 0 || n > size() - pos) n = size() - pos;
    return n ? QString(constData() + pos, n) : QString(0, Qt::Uninitialized);
}
void QString::resize(qsizetype n) {
    if (n < 0) n = 0;
    if (d.needsDetach() || n > capacity() - d.freeSpaceAtBegin()) reallocData(n, QArrayData::Grow);
    d.size = n;
    if (d.allocatedCapacity()) d.data()[n] = u'\0';
}
void QString::truncate(qsizetype n) { if (n < size()) resize(n); }
void QString::chop(qsizetype n) { if (n > 0) resize(size() - n); }
QString &QString::insert(qsizetype i, const QChar *u, qsizetype n) {
    if (i < 0 || n <= 0) return *this;
    if (i > size()) vf_unmodelled_("QString::insert beyond the end");
    QString r(size() + n, Qt::Uninitialized);
    if (i) memcpy(static_cast<void *>(r.d.data()), constData(), size_t(i) * 2);
    memcpy(static_cast<void *>(r.d.data() + i), u, size_t(n) * 2);
    if (size() > i) memcpy(static_cast<void *>(r.d.data() + i + n), constData() + i, size_t(size() - i) * 2);
    return *this = r;
}
QString &QString::insert(qsizetype i, QChar c) { return insert(i, &c, 1); }
QString &QString::append(const QString &s) { if (isNull()) return *this = s; return insert(size(), s.constData(), s.size()); }
QString &QString::append(const QChar *u, qsizetype n) { return insert(size(), u, n); }
QString &QString::append(QChar c) { return insert(size(), &c, 1); }
QString &QString::append(QLatin1StringView s) { return append(fromLatin1(QByteArrayView(s.data(), s.size()))); }
QString &QString::remove(qsizetype pos, qsizetype n) {
    if (pos < 0) pos += size();
    if (pos < 0 || n <= 0 || pos >= size()) return *this;
    if (n > size() - pos) n = size() - pos;
    QString r = left(pos);
    return *this = r.append(mid(pos + n));
}
static bool caseless(Qt::CaseSensitivity cs) { if (cs != Qt::CaseSensitive) vf_unmodelled_("case-insensitive comparison"); return false; }
static bool at(const QString &s, qsizetype i, const QChar *u, qsizetype n) {
    if (i < 0 || n > s.size() - i) return false;
    for (qsizetype k = 0; k < n; k++) if (s.constData()[i + k] != u[k]) return false;
    return true;
}
bool QString::startsWith(QChar c, Qt::CaseSensitivity cs) const { caseless(cs); return ::at(*this, 0, &c, 1); }
bool QString::endsWith(QChar c, Qt::CaseSensitivity cs) const { caseless(cs); return ::at(*this, size() - 1, &c, 1); }
bool QString::startsWith(const QString &s, Qt::CaseSensitivity cs) const { caseless(cs); return ::at(*this, 0, s.constData(), s.size()); }
bool QString::endsWith(const QString &s, Qt::CaseSensitivity cs) const { caseless(cs); return ::at(*this, size() - s.size(), s.constData(), s.size()); }
bool QString::startsWith(QLatin1StringView s, Qt::CaseSensitivity cs) const { return startsWith(fromLatin1(QByteArrayView(s.data(), s.size())), cs); }
bool QString::endsWith(QLatin1StringView s, Qt::CaseSensitivity cs) const { return endsWith(fromLatin1(QByteArrayView(s.data(), s.size())), cs); }
qsizetype QString::indexOf(QChar c, qsizetype from, Qt::CaseSensitivity cs) const {
    caseless(cs);
    if (from < 0) from = qMax<qsizetype>(from + size(), 0);
    for (qsizetype i = from; i < size(); i++) if (constData()[i] == c) return i;
    return -1;
}
qsizetype QString::indexOf(const QString &s, qsizetype from, Qt::CaseSensitivity cs) const {
    caseless(cs);
    if (from < 0) from = qMax<qsizetype>(from + size(), 0);
    for (qsizetype i = from; i <= size() - s.size(); i++) if (::at(*this, i, s.constData(), s.size())) return i;
    return -1;
}
static bool blank(QChar c) { const ushort u = c.unicode(); return u == ' ' || (u >= 9 && u <= 13) || u == 0x85 || u == 0xa0; } // Latin-1 only
static QString trimmed(const QString &s) {
    qsizetype a = 0, b = s.size();
    while (a < b && blank(s.at(a))) a++;
    while (b > a && blank(s.at(b - 1))) b--;
    return s.mid(a, b - a);
}
QString QString::trimmed_helper(const QString &s) { return ::trimmed(s); }
QString QString::trimmed_helper(QString &s) { return ::trimmed(s); }
// ASCII only, and without a branch for each character
static QString recase(QString s, ushort from) {
    if (s.isEmpty()) return s;
    for (QChar *p = s.data(), *e = p + s.size(); p < e; p++) *p = QChar(ushort(p->unicode() ^ (ushort(ushort(p->unicode() - from) < 26) << 5)));
    return s;
}
static QByteArray recase(QByteArray s, uchar from) {
    if (s.isEmpty()) return s;
    for (char *p = s.data(), *e = p + s.size(); p < e; p++) *p = char(uchar(*p) ^ (uchar(uchar(uchar(*p) - from) < 26) << 5));
    return s;
}
QString QString::toLower_helper(const QString &s) { return ::recase(s, 'A'); }
QString QString::toLower_helper(QString &s) { return ::recase(s, 'A'); }
QString QString::toUpper_helper(const QString &s) { return ::recase(s, 'a'); }
QString QString::toUpper_helper(QString &s) { return ::recase(s, 'a'); }
QString QString::toCaseFolded_helper(const QString &s) { return ::recase(s, 'A'); }
QString QString::toCaseFolded_helper(QString &s) { return ::recase(s, 'A'); }
QByteArray QByteArray::toLower_helper(const QByteArray &s) { return ::recase(s, uchar('A')); }
QByteArray QByteArray::toLower_helper(QByteArray &s) { return ::recase(s, uchar('A')); }
QByteArray QByteArray::toUpper_helper(const QByteArray &s) { return ::recase(s, uchar('a')); }
QByteArray QByteArray::toUpper_helper(QByteArray &s) { return ::recase(s, uchar('a')); }
QString QString::simplified_helper(const QString &s) {
    QString r(0, Qt::Uninitialized);
    const QString t = ::trimmed(s);
    for (qsizetype i = 0; i < t.size(); i++)
        if (!blank(t.at(i))) r.append(t.at(i)); else if (!blank(t.at(i - 1))) r.append(QChar(u' '));
    return r;
}
QString QString::simplified_helper(QString &s) { return simplified_helper(static_cast<const QString &>(s)); }
static QByteArray bytes(const QString &s) { // Latin-1 only
    QByteArray r(s.size(), Qt::Uninitialized);
    for (qsizetype i = 0; i < s.size(); i++) { if (s.at(i).unicode() > 255) vf_unmodelled_("characters beyond Latin-1"); r.data()[i] = char(s.at(i).unicode()); }
    return r;
}
QByteArray QString::toLatin1_helper(const QString &s) { return s.isNull() ? QByteArray() : ::bytes(s); }
QByteArray QString::toLatin1_helper_inplace(QString &s) { return s.isNull() ? QByteArray() : ::bytes(s); }
QByteArray QString::toUtf8_helper(const QString &s) {
    for (qsizetype i = 0; i < s.size(); i++) if (s.at(i).unicode() > 127) vf_unmodelled_("characters beyond ASCII");
    return s.isNull() ? QByteArray() : ::bytes(s);
}
static QString join(const QStringList &l, const QString &sep) {
    QString r(0, Qt::Uninitialized);
    for (qsizetype i = 0; i < l.size(); i++) { if (i) r.append(sep); r.append(l.at(i)); }
    return l.isEmpty() ? QString() : r;
}
QString QtPrivate::QStringList_join(const QStringList *l, QStringView sep) { return ::join(*l, QString(sep.data(), sep.size())); }
QString QtPrivate::QStringList_join(const QStringList *l, const QChar *sep, qsizetype n) { return ::join(*l, QString(sep, n)); }
QString QtPrivate::QStringList_join(const QStringList &l, QLatin1StringView sep) { return ::join(l, QString::fromLatin1(QByteArrayView(sep.data(), sep.size()))); }
bool QtPrivate::startsWith(QByteArrayView a, QByteArrayView b) noexcept {
    if (b.size() > a.size()) return false;
    for (qsizetype i = 0; i < b.size(); i++) if (a[i] != b[i]) return false;
    return true;
}
bool QtPrivate::endsWith(QByteArrayView a, QByteArrayView b) noexcept { return b.size() <= a.size() && startsWith(a.sliced(a.size() - b.size()), b); }
static bool blank(char c) { return blank(QChar(ushort(uchar(c)))) && uchar(c) < 128; }
QByteArray QByteArray::trimmed_helper(const QByteArray &s) {
    qsizetype a = 0, b = s.size();
    while (a < b && blank(s.at(a))) a++;
    while (b > a && blank(s.at(b - 1))) b--;
    return s.mid(a, b - a);
}
QByteArray QByteArray::trimmed_helper(QByteArray &s) { return trimmed_helper(static_cast<const QByteArray &>(s)); }

QStringList QString::split(const QString &sep, Qt::SplitBehavior b, Qt::CaseSensitivity cs) const {
    caseless(cs);
    QStringList r;
    if (sep.isEmpty()) vf_unmodelled_("split by nothing");
    for (qsizetype a = 0;;) {
        const qsizetype i = a > size() ? -1 : indexOf(sep, a);
        const QString part = mid(a, i < 0 ? -1 : i - a);
        if (!(b & Qt::SkipEmptyParts) || !part.isEmpty()) r.append(part.isNull() ? QString(0, Qt::Uninitialized) : part);
        if (i < 0) return r;
        a = i + sep.size();
    }
}
QStringList QString::split(QChar sep, Qt::SplitBehavior b, Qt::CaseSensitivity cs) const { return split(QString(1, sep), b, cs); }
QString QString::section(const QString &sep, qsizetype a, qsizetype b, SectionFlags f) const {
    if (f != SectionDefault) vf_unmodelled_("section() with flags");
    const QStringList parts = split(sep);
    if (a < 0) a += parts.size();
    if (b < 0) b += parts.size();
    QString r;
    for (qsizetype i = qMax(a, qsizetype(0)); i <= b && i < parts.size(); i++) { if (i > qMax(a, qsizetype(0))) r.append(sep); r.append(parts.at(i)); }
    return r;
}
QString &QString::replace(QChar before, QChar after, Qt::CaseSensitivity cs) {
    caseless(cs);
    if (!isEmpty()) for (QChar *p = data(), *e = p + size(); p < e; p++) *p = *p == before ? after : *p;
    return *this;
}
QString &QString::replace(const QString &before, const QString &after, Qt::CaseSensitivity cs) {
    caseless(cs);
    if (before.isEmpty()) vf_unmodelled_("replacing nothing");
    for (qsizetype a = 0; a <= size();) {
        const qsizetype i = indexOf(before, a);
        if (i < 0) break;
        remove(i, before.size());
        if (!after.isEmpty()) insert(i, after.constData(), after.size());
        a = i + after.size();
    }
    return *this;
}
QString &QString::replace(QLatin1StringView b, QLatin1StringView a, Qt::CaseSensitivity cs) { return replace(QString(b), QString(a), cs); }
QString &QString::replace(QLatin1StringView b, const QString &a, Qt::CaseSensitivity cs) { return replace(QString(b), a, cs); }
QString &QString::replace(const QString &b, QLatin1StringView a, Qt::CaseSensitivity cs) { return replace(b, QString(a), cs); }
QString &QString::replace(QChar b, const QString &a, Qt::CaseSensitivity cs) { return replace(QString(1, b), a, cs); }
QString &QString::replace(QChar b, QLatin1StringView a, Qt::CaseSensitivity cs) { return replace(QString(1, b), QString(a), cs); }

// arguments of messages are not formatted
QString QString::arg(const QString &, int, QChar) const { return *this; }
QString QString::arg(qlonglong, int, int, QChar) const { return *this; }
QString QString::arg(qulonglong, int, int, QChar) const { return *this; }
QByteArray QString::toLocal8Bit_helper(const QChar *u, qsizetype n) { return u ? toUtf8_helper(QString(u, n)) : QByteArray(); }

#define T(Name) template class QtPrivate::QMetaTypeForType<Name>; template struct QtPrivate::QMetaTypeInterfaceWrapper<Name>;
T(QString) T(QByteArray) T(bool) T(int) T(uint) T(long) T(qlonglong) T(qulonglong) T(double) T(QObject *)
bool QtPrivate::equalStrings(QStringView a, QStringView b) noexcept { return a.size() == b.size() && memcmp(a.utf16(), b.utf16(), size_t(a.size()) * 2) == 0; }
int QtPrivate::compareStrings(QStringView a, QStringView b, Qt::CaseSensitivity cs) noexcept {
    if (cs != Qt::CaseSensitive) vf_unmodelled_("case-insensitive comparison");
    for (qsizetype i = 0; i < a.size() && i < b.size(); i++) if (a.utf16()[i] != b.utf16()[i]) return a.utf16()[i] < b.utf16()[i] ? -1 : 1;
    return a.size() == b.size() ? 0 : a.size() < b.size() ? -1 : 1;
}
int QtPrivate::compareStrings(QStringView a, QLatin1String b, Qt::CaseSensitivity cs) noexcept { return compareStrings(a, QStringView(QString(b)), cs); }
int QtPrivate::compareMemory(QByteArrayView a, QByteArrayView b) {
    qsizetype n = qMin(a.size(), b.size());
    for (qsizetype i = 0; i < n; i++) if (a[i] != b[i]) return uchar(a[i]) < uchar(b[i]) ? -1 : 1;
    return a.size() == b.size() ? 0 : a.size() < b.size() ? -1 : 1;
}
size_t qstrlen_(const char *s) { return len(s); }
