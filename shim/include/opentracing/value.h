#pragma once
#include <opentracing/string_view.h>
#include <opentracing/util.h>
#include <cstdint>
#include <memory>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
namespace opentracing {
BEGIN_OPENTRACING_ABI_NAMESPACE
class Value;
typedef std::unordered_map<std::string, Value> Dictionary;
typedef std::vector<Value> Values;
// A closed variant over bool, double, int64_t, uint64_t, std::string,
// std::nullptr_t, const char*, Values and Dictionary.
class Value {
 public:
  enum Kind { kBool, kDouble, kInt, kUint, kString, kNull, kCString, kValues, kDictionary };
  Value() noexcept : kind_(kBool) { u_.b = false; }
  Value(bool b) noexcept : kind_(kBool) { u_.b = b; }
  template <typename T, typename std::enable_if<std::is_integral<T>::value && std::is_signed<T>::value && !std::is_same<T, bool>::value>::type* = nullptr>
  Value(T t) noexcept : kind_(kInt) { u_.i = static_cast<int64_t>(t); }
  template <typename T, typename std::enable_if<std::is_integral<T>::value && std::is_unsigned<T>::value && !std::is_same<T, bool>::value>::type* = nullptr>
  Value(T t) noexcept : kind_(kUint) { u_.u = static_cast<uint64_t>(t); }
  template <typename T, typename std::enable_if<std::is_floating_point<T>::value>::type* = nullptr>
  Value(T t) noexcept : kind_(kDouble) { u_.d = static_cast<double>(t); }
  Value(const char* s) noexcept : kind_(kCString) { u_.c = s; }
  Value(std::nullptr_t) noexcept : kind_(kNull) {}
  Value(const std::string& s) : kind_(kString), s_(s) {}
  Value(std::string&& s) noexcept : kind_(kString), s_(std::move(s)) {}
  Value(string_view s) : kind_(kString), s_(s.data(), s.size()) {}
  Value(const Values& v) : kind_(kValues), v_(std::make_shared<Values>(v)) {}
  Value(Values&& v) : kind_(kValues), v_(std::make_shared<Values>(std::move(v))) {}
  Value(const Dictionary& d) : kind_(kDictionary), d_(std::make_shared<Dictionary>(d)) {}
  Value(Dictionary&& d) : kind_(kDictionary), d_(std::make_shared<Dictionary>(std::move(d))) {}
  Kind kind() const noexcept { return kind_; }
  template <class T> bool is() const { return At(static_cast<T*>(nullptr)) != nullptr; }
  template <class T> const T& get() const { return *At(static_cast<T*>(nullptr)); }
  template <class F> auto visit(F&& f) const -> decltype(f(true)) {
    switch (kind_) {
      case kBool: return f(static_cast<const bool&>(u_.b));
      case kDouble: return f(static_cast<const double&>(u_.d));
      case kInt: return f(static_cast<const int64_t&>(u_.i));
      case kUint: return f(static_cast<const uint64_t&>(u_.u));
      case kString: return f(static_cast<const std::string&>(s_));
      case kNull: return f(nullptr);
      case kCString: { const char* c = u_.c; return f(c); }
      case kValues: return f(static_cast<const Values&>(*v_));
      default: return f(static_cast<const Dictionary&>(*d_));
    }
  }
  friend bool operator==(const Value& a, const Value& b);
 private:
  const bool* At(bool*) const { return kind_ == kBool ? &u_.b : nullptr; }
  const double* At(double*) const { return kind_ == kDouble ? &u_.d : nullptr; }
  const int64_t* At(int64_t*) const { return kind_ == kInt ? &u_.i : nullptr; }
  const uint64_t* At(uint64_t*) const { return kind_ == kUint ? &u_.u : nullptr; }
  const std::string* At(std::string*) const { return kind_ == kString ? &s_ : nullptr; }
  const Values* At(Values*) const { return kind_ == kValues ? v_.get() : nullptr; }
  const Dictionary* At(Dictionary*) const { return kind_ == kDictionary ? d_.get() : nullptr; }
  Kind kind_;
  union { bool b; double d; int64_t i; uint64_t u; const char* c; } u_{};
  std::string s_;
  std::shared_ptr<Values> v_;
  std::shared_ptr<Dictionary> d_;
};
inline bool operator==(const Value& a, const Value& b) {
  if (a.kind_ != b.kind_) return false;
  switch (a.kind_) {
    case Value::kBool: return a.u_.b == b.u_.b;
    case Value::kDouble: return a.u_.d == b.u_.d;
    case Value::kInt: return a.u_.i == b.u_.i;
    case Value::kUint: return a.u_.u == b.u_.u;
    case Value::kString: return a.s_ == b.s_;
    case Value::kNull: return true;
    case Value::kCString: return a.u_.c == b.u_.c;
    case Value::kValues: return *a.v_ == *b.v_;
    default: return *a.d_ == *b.d_;
  }
}
inline bool operator!=(const Value& a, const Value& b) { return !(a == b); }
template <class F>
auto apply_visitor(F&& f, const Value& v) -> decltype(v.visit(f)) { return v.visit(f); }
END_OPENTRACING_ABI_NAMESPACE
}  // namespace opentracing
