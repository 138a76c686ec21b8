// The model of QtDBus: what harnesses see of it.
#pragma once
#include "vqt.h"
#include <QDBusMessage>
#include <QDBusError>
#include <QDBusPendingCall>
#include <QDBusPendingReply>
#include <QVariant>
namespace vqt {
QDBusPendingCall pendingCall();                        // a call that was sent
QDBusMessage reply(const QList<QVariant> &arguments);  // what came back
QDBusMessage errorReply(const QString &name);
void setReply(const QDBusPendingCall &c, const QDBusMessage &m); // the D-Bus thread stores the reply ...
void notifyReply(const QDBusPendingCall &c);                     // ... and then tells the watchers
}
