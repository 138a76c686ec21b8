#pragma once
#define QCOROQML_EXPORT
