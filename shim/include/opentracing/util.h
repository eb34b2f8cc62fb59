#pragma once
#include <opentracing/expected.h>
#include <opentracing/version.h>
#include <chrono>
#include <memory>
namespace opentracing {
BEGIN_OPENTRACING_ABI_NAMESPACE
using SystemClock = std::chrono::system_clock;
using SteadyClock = std::chrono::steady_clock;
using SystemTime = SystemClock::time_point;
using SteadyTime = SteadyClock::time_point;
template <class ToClock, class Duration>
typename ToClock::time_point convert_time_point(
    std::chrono::time_point<ToClock, Duration> from) { return from; }
END_OPENTRACING_ABI_NAMESPACE
}
