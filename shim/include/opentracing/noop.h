#pragma once
#include <opentracing/tracer.h>
namespace opentracing {
BEGIN_OPENTRACING_ABI_NAMESPACE
namespace noop_detail {
class Ctx : public SpanContext {
 public:
  void ForeachBaggageItem(std::function<bool(const std::string&, const std::string&)>) const override {}
};
class NoopSpan : public Span {
 public:
  explicit NoopSpan(std::shared_ptr<const Tracer> t) : t_(std::move(t)) {}
  void FinishWithOptions(const FinishSpanOptions&) noexcept override {}
  void SetOperationName(string_view) noexcept override {}
  void SetTag(string_view, const Value&) noexcept override {}
  void SetBaggageItem(string_view, string_view) noexcept override {}
  std::string BaggageItem(string_view) const noexcept override { return {}; }
  void Log(std::initializer_list<std::pair<string_view, Value>>) noexcept override {}
  const SpanContext& context() const noexcept override { return c_; }
  const Tracer& tracer() const noexcept override { return *t_; }
 private:
  std::shared_ptr<const Tracer> t_;
  Ctx c_;
};
class NoopTracer : public Tracer, public std::enable_shared_from_this<NoopTracer> {
 public:
  std::unique_ptr<Span> StartSpanWithOptions(string_view, const StartSpanOptions&) const noexcept override {
    return std::unique_ptr<Span>(new NoopSpan(this->shared_from_this()));
  }
  expected<void> Inject(const SpanContext&, std::ostream&) const override { return {}; }
  expected<void> Inject(const SpanContext&, const TextMapWriter&) const override { return {}; }
  expected<void> Inject(const SpanContext&, const HTTPHeadersWriter&) const override { return {}; }
  expected<std::unique_ptr<SpanContext>> Extract(std::istream&) const override { return std::unique_ptr<SpanContext>(); }
  expected<std::unique_ptr<SpanContext>> Extract(const TextMapReader&) const override { return std::unique_ptr<SpanContext>(); }
  expected<std::unique_ptr<SpanContext>> Extract(const HTTPHeadersReader&) const override { return std::unique_ptr<SpanContext>(); }
};
}  // namespace noop_detail
inline std::shared_ptr<Tracer> MakeNoopTracer() noexcept { return std::make_shared<noop_detail::NoopTracer>(); }
END_OPENTRACING_ABI_NAMESPACE
}
