// A context object for callbacks.
#pragma once
#include <QObject>
class Context : public QObject {
    Q_OBJECT
public:
    using QObject::QObject;
    ~Context() override;
    void nothing();
    void nothingConst() const;
    void take(int v);
    void takeRef(const int &v);
    int answer(int v);
};
