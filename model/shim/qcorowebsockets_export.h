#pragma once
#define QCOROWEBSOCKETS_EXPORT
