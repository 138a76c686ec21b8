// A class with every shape of signal the harnesses need.
#pragma once
#include <QObject>
#include <QString>
class Sender : public QObject {
    Q_OBJECT
public:
    using QObject::QObject;
    void emitVoid() { Q_EMIT none(); }
    void emitOne(int v) { Q_EMIT one(v); }
    void emitText(const QString &s) { Q_EMIT text(s); }
    void emitTwo(int v, const QString &s) { Q_EMIT two(v, s); }
    void emitPriv0() { Q_EMIT priv0(QPrivateSignal()); }
    void emitPriv1(int v) { Q_EMIT priv1(v, QPrivateSignal()); }
    void emitPriv2(int v, qlonglong w) { Q_EMIT priv2(v, w, QPrivateSignal()); }
Q_SIGNALS:
    void none();
    void one(int);
    void text(const QString &);
    void two(int, const QString &);
    void priv0(QPrivateSignal);
    void priv1(int, QPrivateSignal);
    void priv2(int, qlonglong, QPrivateSignal);
};
