// Model of QtQuick's image providers. An image is its size.
#include "vqt_quick.h"
class QQuickImageResponsePrivate : public QObjectPrivate {
    Q_DECLARE_PUBLIC(QQuickImageResponse)
public:
    bool finished = false;
    void _q_finished() { finished = true; }
};
#include <QSize>
struct QImageData { int refs, w, h; };
QPaintDevice::QPaintDevice() noexcept { painters = 0; }
QPaintDevice::~QPaintDevice() {}
int QPaintDevice::metric(PaintDeviceMetric) const { vf_unmodelled_("QPaintDevice::metric"); return 0; }
void QPaintDevice::initPainter(QPainter *) const {}
QPaintDevice *QPaintDevice::redirected(QPoint *) const { return nullptr; }
QPainter *QPaintDevice::sharedPainter() const { return nullptr; }
QImage::QImage() noexcept : d(nullptr) {}
QImage::QImage(int w, int h, Format) : d(w > 0 && h > 0 ? new QImageData{1, w, h} : nullptr) {}
QImage::QImage(const QSize &s, Format f) : QImage(s.width(), s.height(), f) {}
QImage::QImage(const QImage &o) : QPaintDevice(), d(o.d) { if (d) d->refs++; }
QImage::~QImage() { if (d && --d->refs == 0) delete d; }
QImage &QImage::operator=(const QImage &o) { QImage t(o); t.swap(*this); return *this; }
bool QImage::isNull() const { return !d; }
int QImage::width() const { return d ? d->w : 0; }
int QImage::height() const { return d ? d->h : 0; }
QSize QImage::size() const { return QSize(width(), height()); }
int QImage::devType() const { return QInternal::Image; }
int QImage::metric(PaintDeviceMetric) const { vf_unmodelled_("QImage::metric"); return 0; }
QPaintEngine *QImage::paintEngine() const { return nullptr; }

QQmlImageProviderBase::QQmlImageProviderBase() {}
QQmlImageProviderBase::~QQmlImageProviderBase() {}
const QMetaObject QQmlImageProviderBase::staticMetaObject = {{&QObject::staticMetaObject, nullptr, nullptr, nullptr, nullptr, nullptr}};
const QMetaObject *QQmlImageProviderBase::metaObject() const { return &staticMetaObject; }
void *QQmlImageProviderBase::qt_metacast(const char *n) { return QObject::qt_metacast(n); }
int QQmlImageProviderBase::qt_metacall(QMetaObject::Call c, int i, void **a) { return QObject::qt_metacall(c, i, a); }
QQuickImageProvider::QQuickImageProvider(ImageType t, Flags) : d(nullptr) { if (t != ImageResponse) vf_unmodelled_("QQuickImageProvider"); }
QQuickImageProvider::~QQuickImageProvider() {}
QQuickImageProvider::ImageType QQuickImageProvider::imageType() const { return ImageResponse; }
QQuickImageProvider::Flags QQuickImageProvider::flags() const { return {}; }
QImage QQuickImageProvider::requestImage(const QString &, QSize *, const QSize &) { vf_unmodelled_("requestImage"); return QImage(); }
QQuickTextureFactory *QQuickImageProvider::requestTexture(const QString &, QSize *, const QSize &) { vf_unmodelled_("requestTexture"); return nullptr; }
QQuickAsyncImageProvider::QQuickAsyncImageProvider() : QQuickImageProvider(ImageResponse, ForceAsynchronousImageLoading), d(nullptr) {}
QQuickAsyncImageProvider::~QQuickAsyncImageProvider() {}

QQuickTextureFactory::QQuickTextureFactory() {}
QQuickTextureFactory::~QQuickTextureFactory() {}
QImage QQuickTextureFactory::image() const { return QImage(); }
namespace { class Factory : public QQuickTextureFactory { public:
    Factory(const QImage &i) : m(i) {}
    QSGTexture *createTexture(QQuickWindow *) const override { return nullptr; }
    QSize textureSize() const override { return m.size(); }
    int textureByteCount() const override { return 0; }
    QImage image() const override { return m; }
    QImage m; }; }
QQuickTextureFactory *QQuickTextureFactory::textureFactoryForImage(const QImage &i) { return i.isNull() ? nullptr : new Factory(i); }
QQuickImageResponse::QQuickImageResponse() : QObject(*new QQuickImageResponsePrivate) {
    QObject::connect(this, &QQuickImageResponse::finished, this, [this] { d_func()->_q_finished(); });
}
QQuickImageResponse::~QQuickImageResponse() {}
QString QQuickImageResponse::errorString() const { return QString(); }
void QQuickImageResponse::cancel() {}
bool vqt::responseFinished(const QQuickImageResponse *r) { return static_cast<const QQuickImageResponsePrivate *>(QObjectPrivate::get(r))->finished; }
#include "moc_qquickimageprovider.h.inc"
