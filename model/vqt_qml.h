// The model of QtQml: what harnesses see of it.
#pragma once
#include "vqt.h"
#include <QJSValue>
#include <QJSEngine>
#include <QVariant>
namespace vqt {
QJSValue jsFunction(QJSEngine *e, int id);             // calling it calls *jsCalled(id, its arguments)
extern void (*jsCalled)(int id, const QJSValueList &args);
QVariant jsVariant(const QJSValue &v);                 // what a value made by QJSEngine::toScriptValue() holds
QJSEngine *jsEngineOf(const QJSValue &v);
}
