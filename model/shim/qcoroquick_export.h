#pragma once
#define QCOROQUICK_EXPORT
