// Model of QtWebSockets (and of what it needs of QUrl and QNetworkRequest).
#include "vqt_ws.h"
using namespace vqt;

// --- QUrl, QNetworkRequest -----------------------------------------------------
class QUrlPrivate { public: int ref = 1; quint32 id = 0; };
static_assert(sizeof(QUrl) == sizeof(void *));
QUrl::QUrl() : d(nullptr) {}
QUrl::QUrl(const QUrl &o) : d(o.d) { if (d) d->ref++; }
QUrl::~QUrl() { if (d && --d->ref == 0) delete d; }
QUrl &QUrl::operator=(const QUrl &o) { QUrl t(o); std::swap(d, t.d); return *this; }
bool QUrl::operator==(const QUrl &o) const { return (d ? d->id : 0) == (o.d ? o.d->id : 0); }
bool QUrl::isValid() const { return d; }
bool QUrl::isEmpty() const { return !d; }
// (what a URL has is part of its identity)
enum UrlPart : quint32 { Secure = 1 << 27, UserInfo = 1 << 28, Query = 1 << 29, Fragment = 1 << 30 };
bool QUrl::hasQuery() const { return d && (d->id & Query); }
bool QUrl::hasFragment() const { return d && (d->id & Fragment); }
QString QUrl::scheme() const { return d ? d->id & Secure ? QString(QLatin1String("wss")) : QString(QLatin1String("ws")) : QString(); }
void QUrl::setScheme(const QString &s) { const quint32 id = d ? d->id : 0; *this = vqt::url(s == QLatin1String("wss") ? id | Secure : id & ~Secure); }
QUrl QUrl::adjusted(FormattingOptions o) const {
    if (!d) return QUrl();
    quint32 id = d->id;
    if (o.testFlag(RemoveUserInfo)) id &= ~UserInfo;
    if (o.testFlag(RemoveQuery)) id &= ~Query;
    if (o.testFlag(RemoveFragment)) id &= ~Fragment;
    return vqt::url(id);
}
QUrl vqt::url(quint32 id) { QUrl u; auto p = new QUrlPrivate; p->id = id; *reinterpret_cast<QUrlPrivate **>(&u) = p; return u; }
class QNetworkRequestPrivate : public QSharedData { public: QUrl url; quint32 rest = 0; };
template<> void QSharedDataPointer<QNetworkRequestPrivate>::detach_helper() { vf_unmodelled_("QNetworkRequest: copy on write"); }
QNetworkRequest::QNetworkRequest(const QUrl &url) : d(new QNetworkRequestPrivate) { const_cast<QNetworkRequestPrivate *>(d.constData())->url = url; }
QNetworkRequest::QNetworkRequest(const QNetworkRequest &o) : d(o.d) {}
QNetworkRequest::~QNetworkRequest() {}
QNetworkRequest &QNetworkRequest::operator=(const QNetworkRequest &o) { d = o.d; return *this; }
QUrl QNetworkRequest::url() const { return d->url; }
QNetworkRequest vqt::request(quint32 id, quint32 rest) {
    QNetworkRequest r(url(id));
    const_cast<QNetworkRequestPrivate *>(reinterpret_cast<QSharedDataPointer<QNetworkRequestPrivate> &>(r).constData())->rest = rest;
    return r;
}
static quint32 restOf(const QNetworkRequest &r) { return reinterpret_cast<const QSharedDataPointer<QNetworkRequestPrivate> &>(r)->rest; }

// --- QWebSocket ----------------------------------------------------------------
class QWebSocketPrivate : public QObjectPrivate { public: Ws w; QAbstractSocket::SocketError error = QAbstractSocket::UnknownSocketError; };
static QAbstractSocket::SocketError &lastError(const QWebSocket *s) { return static_cast<QWebSocketPrivate *>(QObjectPrivate::get(s))->error; }
Ws &vqt::ws(const QWebSocket *s) { return static_cast<QWebSocketPrivate *>(QObjectPrivate::get(s))->w; }
static void setState(QWebSocket *s, QAbstractSocket::SocketState st) {
    if (ws(s).state == st) return;
    ws(s).state = st;
    emitSignal(s, &QWebSocket::stateChanged, st);
}
static void error(QWebSocket *s, QAbstractSocket::SocketError e) { lastError(s) = e; emitSignal(s, &QWebSocket::error, e); }
void vqt::wsConnected(QWebSocket *s) { setState(s, QAbstractSocket::ConnectedState); emitSignal(s, &QWebSocket::connected); }
void vqt::wsFailed(QWebSocket *s) { wsClosed(s); error(s, QAbstractSocket::ConnectionRefusedError); }
void vqt::wsClosed(QWebSocket *s) { setState(s, QAbstractSocket::UnconnectedState); emitSignal(s, &QWebSocket::disconnected); }
void vqt::wsClosing(QWebSocket *s) { setState(s, QAbstractSocket::ClosingState); }
QWebSocket::QWebSocket(const QString &, QWebSocketProtocol::Version, QObject *parent) : QObject(*new QWebSocketPrivate, parent) {}
QWebSocket::~QWebSocket() { Mine m; if (ws(this).state == QAbstractSocket::ConnectedState) close(); }
QAbstractSocket::SocketState QWebSocket::state() const { return ws(this).state; }
bool QWebSocket::isValid() const { return ws(this).state == QAbstractSocket::ConnectedState; }
void QWebSocket::open(const QUrl &url) {
    Ws &x = ws(this);
    x.opens++; x.url = url;
    if (x.opening == Ws::Invalid) { ::error(this, QAbstractSocket::ConnectionRefusedError); return; }
    setState(this, QAbstractSocket::ConnectingState);
    if (x.opening == Ws::FailsAtOnce) wsFailed(this);
}
void QWebSocket::open(const QNetworkRequest &request) { ws(this).rest = restOf(request); open(request.url()); }
void QWebSocket::open(const QUrl &, const QWebSocketHandshakeOptions &) { vf_unmodelled_("QWebSocket::open with options"); }
void QWebSocket::open(const QNetworkRequest &, const QWebSocketHandshakeOptions &) { vf_unmodelled_("QWebSocket::open with options"); }
void QWebSocket::ping(const QByteArray &payload) { Ws &x = ws(this); x.pings++; x.payload = payload; }
void QWebSocket::close(QWebSocketProtocol::CloseCode, const QString &) {
    Ws &x = ws(this);
    if (x.state == QAbstractSocket::UnconnectedState) return;
    touched();
    if (x.state == QAbstractSocket::ConnectedState) wsClosing(this);
    else if (x.state == QAbstractSocket::ConnectingState) ::error(this, QAbstractSocket::UnfinishedSocketOperationError);
    wsClosed(this);
}
void QWebSocket::abort() { touched(); if (ws(this).state != QAbstractSocket::UnconnectedState) wsClosed(this); }
void QWebSocket::ignoreSslErrors() {}
QAbstractSocket::SocketError QWebSocket::error() const { return lastError(this); }
QString QWebSocket::errorString() const { return QString(); }
bool QWebSocket::flush() { return false; }
qint64 QWebSocket::bytesToWrite() const { return 0; }
QUrl QWebSocket::requestUrl() const { return ws(this).url; }
QNetworkRequest QWebSocket::request() const { return QNetworkRequest(ws(this).url); }
QWebSocketProtocol::CloseCode QWebSocket::closeCode() const { return QWebSocketProtocol::CloseCodeNormal; }
QString QWebSocket::closeReason() const { return QString(); }
QString QWebSocket::origin() const { return QString(); }
QString QWebSocket::peerName() const { return QString(); }
QString QWebSocket::resourceName() const { return QString(); }
quint16 QWebSocket::peerPort() const { return ws(this).state == QAbstractSocket::ConnectedState ? 80 : 0; }
quint16 QWebSocket::localPort() const { return ws(this).state == QAbstractSocket::ConnectedState ? 1234 : 0; }
QHostAddress QWebSocket::peerAddress() const { return QHostAddress(); }
QHostAddress QWebSocket::localAddress() const { return QHostAddress(); }
QWebSocketProtocol::Version QWebSocket::version() const { return QWebSocketProtocol::Version13; }
QAbstractSocket::PauseModes QWebSocket::pauseMode() const { return QAbstractSocket::PauseNever; }
void QWebSocket::setPauseMode(QAbstractSocket::PauseModes) {}
void QWebSocket::resume() {}
qint64 QWebSocket::readBufferSize() const { return 0; }
void QWebSocket::setReadBufferSize(qint64) {}

// --- QWebSocketServer ------------------------------------------------------------
class QWebSocketServerPrivate : public QObjectPrivate { public: WsServer s; };
WsServer &vqt::wsServer(const QWebSocketServer *s) { return static_cast<QWebSocketServerPrivate *>(QObjectPrivate::get(s))->s; }
void vqt::wsNewConnection(QWebSocketServer *s, QWebSocket *c) {
    WsServer &x = wsServer(s);
    if (x.n == WsServer::N) vf_bound_("pending connections");
    x.pending[x.n++] = c;
    emitSignal(s, &QWebSocketServer::newConnection);
}
static void drop(QWebSocketServer *s) {
    WsServer &x = wsServer(s);
    for (int i = 0; i < x.n; i++) x.pending[i]->deleteLater();
    x.n = 0; x.listening = false;
}
QWebSocketServer::QWebSocketServer(const QString &, SslMode, QObject *parent) : QObject(*new QWebSocketServerPrivate, parent) {}
QWebSocketServer::~QWebSocketServer() { drop(this); }
void QWebSocketServer::close() {
    touched();
    drop(this);
    QMetaObject::invokeMethod(this, [this] { emitSignal(this, &QWebSocketServer::closed); }, Qt::QueuedConnection);
}
bool QWebSocketServer::isListening() const { return wsServer(this).listening; }
bool QWebSocketServer::hasPendingConnections() const { return wsServer(this).n > 0; }
QWebSocket *QWebSocketServer::nextPendingConnection() {
    WsServer &x = wsServer(this);
    if (!x.n) return nullptr;
    QWebSocket *r = x.pending[0];
    for (int i = 1; i < x.n; i++) x.pending[i - 1] = x.pending[i];
    x.n--;
    return r;
}
QWebSocketProtocol::CloseCode QWebSocketServer::error() const { return QWebSocketProtocol::CloseCode(wsServer(this).error); }
QString QWebSocketServer::errorString() const { return QString(); }
quint16 QWebSocketServer::serverPort() const { return wsServer(this).listening ? 1234 : 0; }
QHostAddress QWebSocketServer::serverAddress() const { return QHostAddress(); }
QString QWebSocketServer::serverName() const { return QString(); }
int QWebSocketServer::maxPendingConnections() const { return wsServer(this).limit; }
void QWebSocketServer::setMaxPendingConnections(int n) { wsServer(this).limit = n; }
void QWebSocketServer::pauseAccepting() { vf_fail_("the server is made to pause"); }
void QWebSocketServer::resumeAccepting() {}
QWebSocketServer::SslMode QWebSocketServer::secureMode() const { return NonSecureMode; }
qintptr QWebSocketServer::socketDescriptor() const { return wsServer(this).listening ? 5 : -1; }

#include "moc_qwebsocket.h.inc"
#include "moc_qwebsocketserver.h.inc"
