// The model of QtWebSockets: what harnesses see of it.
#pragma once
#include "vqt_net.h"
#include <QWebSocket>
#include <QWebSocketServer>
#include <QNetworkRequest>
#include <QUrl>
namespace vqt {
struct Ws {
    enum Opening { Starts, Invalid, FailsAtOnce }; // what open() does before it returns
    QAbstractSocket::SocketState state = QAbstractSocket::UnconnectedState;
    Opening opening = Starts;
    int opens = 0, pings = 0; QUrl url; quint32 rest = 0; QByteArray payload;
};
Ws &ws(const QWebSocket *s);
void wsConnected(QWebSocket *s);
void wsFailed(QWebSocket *s);              // the attempt fails
void wsClosed(QWebSocket *s);              // abort() or the end of the connection: no error
void wsClosing(QWebSocket *s);             // the closing handshake begins
struct WsServer {
    static const int N = 64;
    bool listening = false;
    int limit = 30; int error = QWebSocketProtocol::CloseCodeNormal; // of the last connection that failed
    QWebSocket *pending[N]; int n = 0;
};
WsServer &wsServer(const QWebSocketServer *s);
void wsNewConnection(QWebSocketServer *s, QWebSocket *c);
QUrl url(quint32 id); // URLs are opaque: equal exactly if their ids are
QNetworkRequest request(quint32 id, quint32 rest); // rest: the headers and attributes
}
