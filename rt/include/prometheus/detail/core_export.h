#pragma once
#define PROMETHEUS_CPP_CORE_EXPORT
#define PROMETHEUS_CPP_CORE_NO_EXPORT
