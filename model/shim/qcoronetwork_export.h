#pragma once
#define QCORONETWORK_EXPORT
