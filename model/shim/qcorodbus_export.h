#pragma once
#define QCORODBUS_EXPORT
