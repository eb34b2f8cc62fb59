#pragma once
#include <opentracing/string_view.h>
#include <opentracing/util.h>
#include <functional>
#include <memory>
#include <string>
#include <system_error>
namespace opentracing {
BEGIN_OPENTRACING_ABI_NAMESPACE
class SpanContext;
class Tracer;
inline const std::error_category& propagation_error_category() {
  class Category : public std::error_category {
   public:
    const char* name() const noexcept override { return "OpenTracingPropagationError"; }
    std::error_condition default_error_condition(int code) const noexcept override {
      switch (code) {
        case 1: return std::make_error_condition(std::errc::invalid_argument);
        case 2: return std::make_error_condition(std::errc::invalid_argument);
        case 3: return std::make_error_condition(std::errc::invalid_argument);
        default: return std::error_condition(code, *this);
      }
    }
    std::string message(int code) const override {
      switch (code) {
        case 1: return "opentracing: SpanContext type incompatible with tracer";
        case 2: return "opentracing: Invalid Inject/Extract carrier";
        case 3: return "opentracing: SpanContext data corrupted in Extract carrier";
        case 4: return "opentracing: SpanContext key not found";
        case 5: return "opentracing: Lookup for the given key is not supported";
        default: return "opentracing: unknown propagation error";
      }
    }
  };
  static Category c;
  return c;
}
const std::error_code invalid_span_context_error(1, propagation_error_category());
const std::error_code invalid_carrier_error(2, propagation_error_category());
const std::error_code span_context_corrupted_error(3, propagation_error_category());
const std::error_code key_not_found_error(4, propagation_error_category());
const std::error_code lookup_key_not_supported_error(5, propagation_error_category());
class TextMapReader {
 public:
  virtual ~TextMapReader() = default;
  virtual expected<string_view> LookupKey(string_view) const {
    return make_unexpected(lookup_key_not_supported_error);
  }
  virtual expected<void> ForeachKey(
      std::function<expected<void>(string_view key, string_view value)> f) const = 0;
};
class TextMapWriter {
 public:
  virtual ~TextMapWriter() = default;
  virtual expected<void> Set(string_view key, string_view value) const = 0;
};
class HTTPHeadersReader : public TextMapReader {};
class HTTPHeadersWriter : public TextMapWriter {};
class CustomCarrierReader {
 public:
  virtual ~CustomCarrierReader() = default;
  virtual expected<std::unique_ptr<SpanContext>> Extract(const Tracer& tracer) const = 0;
};
class CustomCarrierWriter {
 public:
  virtual ~CustomCarrierWriter() = default;
  virtual expected<void> Inject(const Tracer& tracer, const SpanContext& sc) const = 0;
};
END_OPENTRACING_ABI_NAMESPACE
}  // namespace opentracing
