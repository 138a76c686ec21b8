// The model of QtNetwork: what harnesses see of it.
#pragma once
#include "vqt_io.h"
#include <QAbstractSocket>
#include <QTcpSocket>
#include <QLocalSocket>
#include <QNetworkReply>
#include <QTcpServer>
#include <QHostAddress>
namespace vqt {
enum Attempt { Pending, FailsAtOnce, SucceedsAtOnce }; // what connectTo...() does before it returns
struct Sock {
    QAbstractSocket::SocketState state = QAbstractSocket::UnconnectedState;
    QAbstractSocket::SocketError error = QAbstractSocket::UnknownSocketError;
    Attempt attempt = Pending;
    int connects = 0;
    QString host; QHostAddress address; quint16 port = 0; QIODevice::OpenMode mode; int protocol = -1;
};
Sock &sock(const QAbstractSocket *s);
void socketState(QAbstractSocket *s, QAbstractSocket::SocketState st); // the attempt makes progress (HostLookup -> Connecting, ...)
void socketConnected(QAbstractSocket *s);
void socketFailed(QAbstractSocket *s, QAbstractSocket::SocketError e); // the attempt fails
void socketClosing(QAbstractSocket *s);                                // disconnectFromHost() with data still to be written
void socketDisconnected(QAbstractSocket *s, bool byPeer);

struct Local {
    QLocalSocket::LocalSocketState state = QLocalSocket::UnconnectedState;
    Attempt attempt = Pending;
    int connects = 0; QString name; QIODevice::OpenMode mode;
};
Local &local(const QLocalSocket *s);
void localConnected(QLocalSocket *s);
void localFailed(QLocalSocket *s);
void localClosing(QLocalSocket *s);
void localDisconnected(QLocalSocket *s, bool byPeer);

bool &replyIsFinished(const QNetworkReply *r);
void replyFinished(QNetworkReply *r);
void replyFailed(QNetworkReply *r, QNetworkReply::NetworkError e); // an error is reported; finished() follows separately

struct Server {
    static const int N = 64;
    int limit = 30; bool listening = false;
    QTcpSocket *pending[N]; int n = 0;
};
Server &server(const QTcpServer *s);
void newConnection(QTcpServer *s, QTcpSocket *c);
}
