#pragma once
#include <opentracing/string_view.h>
namespace opentracing { BEGIN_OPENTRACING_ABI_NAMESPACE namespace ext {
const string_view sampling_priority = "sampling.priority";
const string_view error = "error";
const string_view component = "component";
} END_OPENTRACING_ABI_NAMESPACE }
