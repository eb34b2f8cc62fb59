#pragma once
#include <opentracing/propagation.h>
#include <opentracing/span.h>
#include <opentracing/string_view.h>
#include <opentracing/util.h>
#include <opentracing/value.h>
#include <istream>
#include <memory>
#include <ostream>
#include <string>
#include <utility>
#include <vector>
namespace opentracing {
BEGIN_OPENTRACING_ABI_NAMESPACE
struct StartSpanOptions {
  SystemTime start_system_timestamp;
  SteadyTime start_steady_timestamp;
  std::vector<std::pair<SpanReferenceType, const SpanContext*>> references;
  std::vector<std::pair<std::string, Value>> tags;
};
class StartSpanOption {
 public:
  virtual ~StartSpanOption() = default;
  virtual void Apply(StartSpanOptions& options) const noexcept = 0;
};
class StartTimestamp : public StartSpanOption {
 public:
  StartTimestamp(SystemTime t) noexcept : sys_(t) {}
  StartTimestamp(SteadyTime t) noexcept : steady_(t) {}
  StartTimestamp(SystemTime s, SteadyTime t) noexcept : sys_(s), steady_(t) {}
  void Apply(StartSpanOptions& o) const noexcept override {
    if (sys_ != SystemTime()) o.start_system_timestamp = sys_;
    if (steady_ != SteadyTime()) o.start_steady_timestamp = steady_;
  }
 private:
  SystemTime sys_;
  SteadyTime steady_;
};
class SpanReference : public StartSpanOption {
 public:
  SpanReference(SpanReferenceType t, const SpanContext* c) noexcept : t_(t), c_(c) {}
  void Apply(StartSpanOptions& o) const noexcept override { if (c_) o.references.emplace_back(t_, c_); }
 private:
  SpanReferenceType t_;
  const SpanContext* c_;
};
inline SpanReference ChildOf(const SpanContext* c) noexcept { return {SpanReferenceType::ChildOfRef, c}; }
inline SpanReference FollowsFrom(const SpanContext* c) noexcept { return {SpanReferenceType::FollowsFromRef, c}; }
class SetTag : public StartSpanOption {
 public:
  SetTag(string_view k, const Value& v) noexcept : k_(k), v_(v) {}
  void Apply(StartSpanOptions& o) const noexcept override { o.tags.emplace_back(std::string(k_), v_); }
 private:
  string_view k_;
  const Value& v_;
};
class Tracer {
 public:
  virtual ~Tracer() = default;
  std::unique_ptr<Span> StartSpan(
      string_view operation_name,
      std::initializer_list<std::reference_wrapper<const StartSpanOption>> list = {}) const noexcept {
    StartSpanOptions options;
    for (const StartSpanOption& o : list) o.Apply(options);
    return StartSpanWithOptions(operation_name, options);
  }
  virtual std::unique_ptr<Span> StartSpanWithOptions(
      string_view operation_name, const StartSpanOptions& options) const noexcept = 0;
  virtual expected<void> Inject(const SpanContext& sc, std::ostream& writer) const = 0;
  virtual expected<void> Inject(const SpanContext& sc, const TextMapWriter& writer) const = 0;
  virtual expected<void> Inject(const SpanContext& sc, const HTTPHeadersWriter& writer) const = 0;
  virtual expected<void> Inject(const SpanContext& sc, const CustomCarrierWriter& writer) const {
    return writer.Inject(*this, sc);
  }
  virtual expected<std::unique_ptr<SpanContext>> Extract(std::istream& reader) const = 0;
  virtual expected<std::unique_ptr<SpanContext>> Extract(const TextMapReader& reader) const = 0;
  virtual expected<std::unique_ptr<SpanContext>> Extract(const HTTPHeadersReader& reader) const = 0;
  virtual expected<std::unique_ptr<SpanContext>> Extract(const CustomCarrierReader& reader) const {
    return reader.Extract(*this);
  }
  virtual void Close() noexcept {}
  static std::shared_ptr<Tracer>& global() { static std::shared_ptr<Tracer> t; return t; }
  static std::shared_ptr<Tracer> Global() noexcept { return global(); }
  static std::shared_ptr<Tracer> InitGlobal(std::shared_ptr<Tracer> t) noexcept { global().swap(t); return t; }
};
END_OPENTRACING_ABI_NAMESPACE
}  // namespace opentracing
