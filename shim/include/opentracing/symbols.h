#pragma once
#define OPENTRACING_API
#define OPENTRACING_API_EXPORT
