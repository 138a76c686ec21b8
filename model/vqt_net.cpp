// Model of QtNetwork's sockets, replies and servers.
#include "vqt_net.h"
using namespace vqt;

// --- QHostAddress -------------------------------------------------------------
class QHostAddressPrivate : public QSharedData { public: quint32 ip = 0; };
QHostAddress::QHostAddress() : d(new QHostAddressPrivate) {}
QHostAddress::QHostAddress(quint32 ip) : d(new QHostAddressPrivate) { d->ip = ip; }
QHostAddress::QHostAddress(const QHostAddress &o) : d(o.d) {}
QHostAddress::~QHostAddress() {}
QHostAddress &QHostAddress::operator=(const QHostAddress &o) { d = o.d; return *this; }
bool QHostAddress::operator==(const QHostAddress &o) const { return d->ip == o.d->ip; }
bool QHostAddress::isNull() const { return d->ip == 0; }
quint32 QHostAddress::toIPv4Address(bool *ok) const { if (ok) *ok = true; return d->ip; }

// --- QAbstractSocket ---------------------------------------------------------
class QHostInfo;
class QAbstractSocketPrivate : public QIODevicePrivate {
public:
    Sock s;
    void _q_connectToNextAddress() {}
    void _q_startConnecting(const QHostInfo &) {}
    void _q_abortConnectionAttempt() {}
    void _q_testConnection() {}
};
class QTcpSocketPrivate : public QAbstractSocketPrivate {};
Sock &vqt::sock(const QAbstractSocket *s) { return static_cast<QAbstractSocketPrivate *>(QObjectPrivate::get(s))->s; }
void vqt::socketState(QAbstractSocket *s, QAbstractSocket::SocketState st) {
    if (sock(s).state == st) return;
    sock(s).state = st; io(s).polls = 0;
    emitSignal(s, &QAbstractSocket::stateChanged, st);
}
void vqt::socketConnected(QAbstractSocket *s) {
    socketState(s, QAbstractSocket::ConnectedState);
    emitSignal(s, &QAbstractSocket::connected);
}
void vqt::socketFailed(QAbstractSocket *s, QAbstractSocket::SocketError e) {
    sock(s).error = e;
    socketState(s, QAbstractSocket::UnconnectedState);
    emitSignal(s, &QAbstractSocket::errorOccurred, e);
}
void vqt::socketClosing(QAbstractSocket *s) { socketState(s, QAbstractSocket::ClosingState); }
void vqt::socketDisconnected(QAbstractSocket *s, bool byPeer) {
    if (byPeer) {
        QAbstractSocket::SocketError e = sock(s).error = QAbstractSocket::RemoteHostClosedError;
        emitSignal(s, &QAbstractSocket::errorOccurred, e);
    }
    const auto old = sock(s).state;
    io(s).toWrite = 0;
    socketState(s, QAbstractSocket::UnconnectedState);
    emitSignal(s, &QIODevice::readChannelFinished);
    if (old == QAbstractSocket::ConnectedState || old == QAbstractSocket::ClosingState) emitSignal(s, &QAbstractSocket::disconnected);
}
static void attempt(QAbstractSocket *s) {
    Sock &x = sock(s);
    x.connects++;
    socketState(s, QAbstractSocket::HostLookupState);
    if (x.attempt == Pending) return;
    socketState(s, QAbstractSocket::ConnectingState);
    if (x.attempt == FailsAtOnce) socketFailed(s, QAbstractSocket::ConnectionRefusedError);
    else socketConnected(s);
}
QAbstractSocket::QAbstractSocket(SocketType, QObject *parent) : QIODevice(*new QAbstractSocketPrivate, parent) {}
QAbstractSocket::QAbstractSocket(SocketType, QAbstractSocketPrivate &dd, QObject *parent) : QIODevice(dd, parent) {}
QAbstractSocket::~QAbstractSocket() {}
void QAbstractSocket::connectToHost(const QString &host, quint16 port, OpenMode mode, NetworkLayerProtocol protocol) {
    Sock &x = sock(this);
    if (x.state != UnconnectedState && x.state != BoundState) { SocketError e = x.error = OperationError; emitSignal(this, &QAbstractSocket::errorOccurred, e); return; }
    x.host = host; x.port = port; x.mode = mode; x.protocol = protocol;
    QIODevice::open(mode);
    attempt(this);
}
void QAbstractSocket::connectToHost(const QHostAddress &address, quint16 port, OpenMode mode) {
    Sock &x = sock(this);
    if (x.state != UnconnectedState && x.state != BoundState) { SocketError e = x.error = OperationError; emitSignal(this, &QAbstractSocket::errorOccurred, e); return; }
    x.address = address; x.port = port; x.mode = mode;
    QIODevice::open(mode);
    attempt(this);
}
void QAbstractSocket::disconnectFromHost() {
    touched();
    Sock &x = sock(this);
    if (x.state == UnconnectedState || x.state == ClosingState) return;
    if (x.state == ConnectedState) { socketClosing(this); if (io(this).toWrite) return; }
    socketDisconnected(this, false);
}
void QAbstractSocket::abort() { touched(); if (sock(this).state != UnconnectedState) { io(this).toWrite = 0; close(); } }
QString QAbstractSocket::peerName() const { return sock(this).host; }
quint16 QAbstractSocket::peerPort() const { return sock(this).state == ConnectedState ? sock(this).port : 0; }
QHostAddress QAbstractSocket::peerAddress() const { return sock(this).address; }
quint16 QAbstractSocket::localPort() const { return sock(this).state == ConnectedState ? 1234 : 0; }
QHostAddress QAbstractSocket::localAddress() const { return QHostAddress(); }
qint64 QAbstractSocket::readBufferSize() const { return 0; }
QAbstractSocket::PauseModes QAbstractSocket::pauseMode() const { return PauseNever; }
void QAbstractSocket::setPauseMode(PauseModes) {}
QAbstractSocket::SocketState QAbstractSocket::state() const { return sock(this).state; }
QAbstractSocket::SocketError QAbstractSocket::error() const { return sock(this).error; }
bool QAbstractSocket::isValid() const { return sock(this).state == ConnectedState || sock(this).state == BoundState; }
bool QAbstractSocket::flush() { return false; }
QAbstractSocket::SocketType QAbstractSocket::socketType() const { return TcpSocket; }
void QAbstractSocket::resume() {}
bool QAbstractSocket::bind(const QHostAddress &, quint16, BindMode) { vf_unmodelled_("QAbstractSocket::bind"); }
qint64 QAbstractSocket::bytesAvailable() const { return QIODevice::bytesAvailable(); }
qint64 QAbstractSocket::bytesToWrite() const { return QIODevice::bytesToWrite(); }
void QAbstractSocket::setReadBufferSize(qint64) {}
qintptr QAbstractSocket::socketDescriptor() const { return -1; }
bool QAbstractSocket::setSocketDescriptor(qintptr, SocketState, OpenMode) { return false; }
void QAbstractSocket::setSocketOption(SocketOption, const QVariant &) {}
QVariant QAbstractSocket::socketOption(SocketOption) { vf_unmodelled_("QAbstractSocket::socketOption"); }
void QAbstractSocket::close() {
    QIODevice::close(); // emits aboutToClose()
    if (sock(this).state != UnconnectedState) socketDisconnected(this, false);
}
bool QAbstractSocket::isSequential() const { return true; }
bool QAbstractSocket::waitForConnected(int) { vf_fail_("the thread blocks"); }
bool QAbstractSocket::waitForReadyRead(int) { vf_fail_("the thread blocks"); }
bool QAbstractSocket::waitForBytesWritten(int) { vf_fail_("the thread blocks"); }
bool QAbstractSocket::waitForDisconnected(int) { vf_fail_("the thread blocks"); }
qint64 QAbstractSocket::readData(char *, qint64) { return -1; }
qint64 QAbstractSocket::readLineData(char *, qint64) { return -1; }
qint64 QAbstractSocket::skipData(qint64) { return -1; }
qint64 QAbstractSocket::writeData(const char *, qint64) { return -1; }
QTcpSocket::QTcpSocket(QObject *parent) : QAbstractSocket(TcpSocket, *new QTcpSocketPrivate, parent) {}
QTcpSocket::~QTcpSocket() {}

// --- QLocalSocket ------------------------------------------------------------
class QLocalSocketPrivate : public QIODevicePrivate {
public:
    Local l; QLocalSocket::LocalSocketError error = QLocalSocket::UnknownSocketError;
    void _q_stateChanged(QAbstractSocket::SocketState) {}
    void _q_errorOccurred(QAbstractSocket::SocketError) {}
    void _q_connectToSocket() {}
    void _q_abortConnectionAttempt() {}
};
Local &vqt::local(const QLocalSocket *s) { return static_cast<QLocalSocketPrivate *>(QObjectPrivate::get(s))->l; }
static void setState(QLocalSocket *s, QLocalSocket::LocalSocketState st) {
    if (local(s).state == st) return;
    local(s).state = st; io(s).polls = 0;
    emitSignal(s, &QLocalSocket::stateChanged, st);
}
static QLocalSocket::LocalSocketError &localError(const QLocalSocket *s) { return static_cast<QLocalSocketPrivate *>(QObjectPrivate::get(s))->error; }
static void error(QLocalSocket *s, QLocalSocket::LocalSocketError e) { localError(s) = e; emitSignal(s, &QLocalSocket::errorOccurred, e); }
void vqt::localConnected(QLocalSocket *s) { setState(s, QLocalSocket::ConnectedState); emitSignal(s, &QLocalSocket::connected); }
void vqt::localFailed(QLocalSocket *s) {
    error(s, QLocalSocket::ConnectionRefusedError); // reported before the state changes
    setState(s, QLocalSocket::UnconnectedState);
}
void vqt::localClosing(QLocalSocket *s) { setState(s, QLocalSocket::ClosingState); }
void vqt::localDisconnected(QLocalSocket *s, bool byPeer) {
    if (byPeer) error(s, QLocalSocket::PeerClosedError);
    const auto old = local(s).state;
    io(s).toWrite = 0;
    setState(s, QLocalSocket::UnconnectedState);
    emitSignal(s, &QIODevice::readChannelFinished);
    if (old == QLocalSocket::ConnectedState || old == QLocalSocket::ClosingState) emitSignal(s, &QLocalSocket::disconnected);
}
QLocalSocket::QLocalSocket(QObject *parent) : QIODevice(*new QLocalSocketPrivate, parent) {}
QLocalSocket::~QLocalSocket() {}
void QLocalSocket::setServerName(const QString &n) { if (local(this).state == UnconnectedState) local(this).name = n; }
QString QLocalSocket::serverName() const { return local(this).name; }
void QLocalSocket::connectToServer(const QString &name, OpenMode mode) { setServerName(name); connectToServer(mode); }
void QLocalSocket::connectToServer(OpenMode mode) {
    Local &x = local(this);
    if (x.state != UnconnectedState) { ::error(this, OperationError); return; }
    x.connects++; x.mode = mode;
    setState(this, ConnectingState);
    if (x.attempt == FailsAtOnce) { localFailed(this); return; }
    QIODevice::open(mode);
    if (x.attempt == SucceedsAtOnce) localConnected(this);
}
void QLocalSocket::disconnectFromServer() {
    touched();
    Local &x = local(this);
    if (x.state == UnconnectedState || x.state == ClosingState) return;
    if (x.state == ConnectedState) { localClosing(this); if (io(this).toWrite) return; }
    localDisconnected(this, false);
}
void QLocalSocket::abort() { touched(); if (local(this).state != UnconnectedState) { io(this).toWrite = 0; close(); } }
qint64 QLocalSocket::readBufferSize() const { return 0; }
void QLocalSocket::setReadBufferSize(qint64) {}
qintptr QLocalSocket::socketDescriptor() const { return -1; }
QLocalSocket::LocalSocketState QLocalSocket::state() const { return local(this).state; }
QLocalSocket::LocalSocketError QLocalSocket::error() const { return localError(this); }
bool QLocalSocket::isValid() const { return local(this).state == ConnectedState; }
bool QLocalSocket::flush() { return false; }
QString QLocalSocket::fullServerName() const { return local(this).name; }
bool QLocalSocket::isSequential() const { return true; }
qint64 QLocalSocket::bytesAvailable() const { return QIODevice::bytesAvailable(); }
qint64 QLocalSocket::bytesToWrite() const { return QIODevice::bytesToWrite(); }
bool QLocalSocket::canReadLine() const { return QIODevice::canReadLine(); }
bool QLocalSocket::open(OpenMode mode) { connectToServer(mode); return isOpen(); }
void QLocalSocket::close() {
    QIODevice::close();
    if (local(this).state != UnconnectedState) localDisconnected(this, false);
}
bool QLocalSocket::waitForBytesWritten(int) { vf_fail_("the thread blocks"); }
bool QLocalSocket::waitForConnected(int) { vf_fail_("the thread blocks"); }
bool QLocalSocket::waitForDisconnected(int) { vf_fail_("the thread blocks"); }
bool QLocalSocket::waitForReadyRead(int) { vf_fail_("the thread blocks"); }
qint64 QLocalSocket::readData(char *, qint64) { return -1; }
qint64 QLocalSocket::readLineData(char *, qint64) { return -1; }
qint64 QLocalSocket::skipData(qint64) { return -1; }
qint64 QLocalSocket::writeData(const char *, qint64) { return -1; }

// --- QNetworkReply -----------------------------------------------------------
class QNetworkReplyPrivate : public QIODevicePrivate { public: bool finished = false; QNetworkReply::NetworkError error = QNetworkReply::NoError; QNetworkAccessManager::Operation operation = QNetworkAccessManager::GetOperation; };
QNetworkAccessManager::Operation QNetworkReply::operation() const { return static_cast<QNetworkReplyPrivate *>(QObjectPrivate::get(this))->operation; }
void QNetworkReply::setOperation(QNetworkAccessManager::Operation o) { static_cast<QNetworkReplyPrivate *>(QObjectPrivate::get(this))->operation = o; }
static QNetworkReply::NetworkError &replyError(const QNetworkReply *r) { return static_cast<QNetworkReplyPrivate *>(QObjectPrivate::get(r))->error; }
bool &vqt::replyIsFinished(const QNetworkReply *r) { return static_cast<QNetworkReplyPrivate *>(QObjectPrivate::get(r))->finished; }
void vqt::replyFinished(QNetworkReply *r) {
    io(r).polls = 0;
    replyIsFinished(r) = true;
    emitSignal(r, &QIODevice::readChannelFinished);
    emitSignal(r, &QNetworkReply::finished);
}
void vqt::replyFailed(QNetworkReply *r, QNetworkReply::NetworkError e) {
    replyError(r) = e;
    emitSignal(r, &QNetworkReply::errorOccurred, e);
}
QNetworkReply::QNetworkReply(QObject *parent) : QIODevice(*new QNetworkReplyPrivate, parent) {}
QNetworkReply::QNetworkReply(QNetworkReplyPrivate &dd, QObject *parent) : QIODevice(dd, parent) {}
QNetworkReply::~QNetworkReply() {}
void QNetworkReply::close() { QIODevice::close(); }
bool QNetworkReply::isSequential() const { return true; }
void QNetworkReply::setReadBufferSize(qint64) {}
bool QNetworkReply::isFinished() const { return replyIsFinished(this); }
QNetworkReply::NetworkError QNetworkReply::error() const { return replyError(this); }
qint64 QNetworkReply::readBufferSize() const { return 0; }
bool QNetworkReply::isRunning() const { return !isFinished(); }
void QNetworkReply::ignoreSslErrors() {}
qint64 QNetworkReply::writeData(const char *, qint64) { return -1; }
void QNetworkReply::sslConfigurationImplementation(QSslConfiguration &) const {}
void QNetworkReply::setSslConfigurationImplementation(const QSslConfiguration &) {}
void QNetworkReply::ignoreSslErrorsImplementation(const QList<QSslError> &) {}

// --- QTcpServer --------------------------------------------------------------
class QTcpServerPrivate : public QObjectPrivate { public: Server s; };
Server &vqt::server(const QTcpServer *s) { return static_cast<QTcpServerPrivate *>(QObjectPrivate::get(s))->s; }
void vqt::newConnection(QTcpServer *s, QTcpSocket *c) {
    Server &x = server(s);
    if (x.n == Server::N) vf_bound_("pending connections");
    x.pending[x.n++] = c;
    emitSignal(s, &QTcpServer::newConnection);
}
QTcpServer::QTcpServer(QObject *parent) : QObject(*new QTcpServerPrivate, parent) {}
QTcpServer::~QTcpServer() { Mine m; close(); }
bool QTcpServer::listen(const QHostAddress &, quint16) { vf_unmodelled_("QTcpServer::listen"); }
void QTcpServer::close() {
    touched();
    Server &x = server(this);
    for (int i = 0; i < x.n; i++) delete x.pending[i];
    x.n = 0; x.listening = false;
}
bool QTcpServer::isListening() const { return server(this).listening; }
bool QTcpServer::hasPendingConnections() const { return server(this).n > 0; }
QTcpSocket *QTcpServer::nextPendingConnection() {
    Server &x = server(this);
    if (!x.n) return nullptr;
    QTcpSocket *r = x.pending[0];
    for (int i = 1; i < x.n; i++) x.pending[i - 1] = x.pending[i];
    x.n--;
    return r;
}
void QTcpServer::incomingConnection(qintptr) {}
bool QTcpServer::waitForNewConnection(int, bool *) { vf_fail_("the thread blocks"); }
// (a limit is the business of the system: more connections may be pending in the backlog)
int QTcpServer::maxPendingConnections() const { return server(this).limit; }
void QTcpServer::setMaxPendingConnections(int n) { server(this).limit = n; }
int QTcpServer::listenBacklogSize() const { return 50; }
void QTcpServer::setListenBacklogSize(int) {}
quint16 QTcpServer::serverPort() const { return server(this).listening ? 1234 : 0; }
QHostAddress QTcpServer::serverAddress() const { return QHostAddress(); }
QAbstractSocket::SocketError QTcpServer::serverError() const { return QAbstractSocket::UnknownSocketError; }
QString QTcpServer::errorString() const { return QString(); }
qintptr QTcpServer::socketDescriptor() const { return server(this).listening ? 5 : -1; }
void QTcpServer::pauseAccepting() { vf_fail_("the server is made to pause"); }
void QTcpServer::resumeAccepting() {}

#include "moc_qabstractsocket.h.inc"
#include "moc_qtcpsocket.h.inc"
#include "moc_qlocalsocket.h.inc"
#include "moc_qnetworkreply.h.inc"
#include "moc_qtcpserver.h.inc"
QT_IMPL_METATYPE_EXTERN_TAGGED(QNetworkReply::NetworkError, QNetworkReply__NetworkError)
QT_IMPL_METATYPE_EXTERN_TAGGED(QAbstractSocket::SocketState, QAbstractSocket__SocketState)
QT_IMPL_METATYPE_EXTERN_TAGGED(QAbstractSocket::SocketError, QAbstractSocket__SocketError)
