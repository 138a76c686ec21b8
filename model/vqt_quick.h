// The model of QtQuick's image providers and of QImage: what harnesses see of it.
#pragma once
#include "vqt.h"
#include <QImage>
#include <QQuickImageProvider>
namespace vqt {
bool responseFinished(const QQuickImageResponse *r); // whether Qt Quick has noted that the response has finished
}
