#pragma once
#define QCOROCORE_EXPORT
