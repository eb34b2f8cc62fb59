// Stand-in for opentracing-cpp 1.5.x (which is not installed here): the same
// names, types and semantics as the published API, written from scratch for
// the harnesses in /verif.
#ifndef OPENTRACING_VERSION_H
#define OPENTRACING_VERSION_H
#define OPENTRACING_VERSION "1.5.1"
#define OPENTRACING_ABI_VERSION "2"
#define BEGIN_OPENTRACING_ABI_NAMESPACE inline namespace v2 {
#define END_OPENTRACING_ABI_NAMESPACE }
#endif
