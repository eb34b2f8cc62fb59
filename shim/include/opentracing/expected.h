#pragma once
#include <opentracing/version.h>
#include <new>
#include <stdexcept>
#include <string>
#include <system_error>
#include <type_traits>
#include <utility>
namespace opentracing {
BEGIN_OPENTRACING_ABI_NAMESPACE
template <typename E = std::error_code>
class unexpected_type {
 public:
  unexpected_type() = delete;
  explicit unexpected_type(const E& e) : error_(e) {}
  explicit unexpected_type(E&& e) : error_(std::move(e)) {}
  const E& value() const { return error_; }
  E& value() { return error_; }
 private:
  E error_;
};
inline unexpected_type<std::error_code> make_unexpected(std::error_code ec) {
  return unexpected_type<std::error_code>(ec);
}
class bad_expected_access : public std::logic_error {
 public:
  explicit bad_expected_access(std::error_code e)
      : std::logic_error("Found an error instead of the expected value."), error_(e) {}
  std::error_code& error() { return error_; }
 private:
  std::error_code error_;
};
template <typename T>
class expected {
 public:
  typedef T value_type;
  typedef std::error_code error_type;
  expected() : has_(true) { new (&v_) T(); }
  expected(const T& v) : has_(true) { new (&v_) T(v); }
  expected(T&& v) : has_(true) { new (&v_) T(std::move(v)); }
  template <class U, class = typename std::enable_if<std::is_convertible<U&&, T>::value &&
      !std::is_same<typename std::decay<U>::type, T>::value &&
      !std::is_same<typename std::decay<U>::type, expected>::value>::type>
  expected(U&& u) : has_(true) { new (&v_) T(std::forward<U>(u)); }
  expected(const unexpected_type<std::error_code>& u) : has_(false), e_(u.value()) {}
  expected(const expected& o) : has_(o.has_), e_(o.e_) { if (has_) new (&v_) T(o.ref()); }
  expected(expected&& o) : has_(o.has_), e_(o.e_) { if (has_) new (&v_) T(std::move(o.ref())); }
  expected& operator=(expected o) {
    clear();
    has_ = o.has_; e_ = o.e_;
    if (has_) new (&v_) T(std::move(o.ref()));
    return *this;
  }
  ~expected() { clear(); }
  explicit operator bool() const noexcept { return has_; }
  bool has_value() const noexcept { return has_; }
  const T& operator*() const { return ref(); }
  T& operator*() { return ref(); }
  T* operator->() { return &ref(); }
  const T* operator->() const { return &ref(); }
  const T& value() const { check(); return ref(); }
  T& value() { check(); return ref(); }
  const std::error_code& error() const { return e_; }
  template <class U> T value_or(U&& u) const { return has_ ? ref() : static_cast<T>(std::forward<U>(u)); }
 private:
  bool has_;
  std::error_code e_;
  typename std::aligned_storage<sizeof(T), alignof(T)>::type v_;
  T& ref() { return *reinterpret_cast<T*>(&v_); }
  const T& ref() const { return *reinterpret_cast<const T*>(&v_); }
  void check() const { if (!has_) throw bad_expected_access(e_); }
  void clear() { if (has_) { ref().~T(); has_ = false; } }
};
template <>
class expected<void> {
 public:
  expected() : has_(true) {}
  expected(const unexpected_type<std::error_code>& u) : has_(false), e_(u.value()) {}
  explicit operator bool() const noexcept { return has_; }
  bool has_value() const noexcept { return has_; }
  void value() const { if (!has_) throw bad_expected_access(e_); }
  const std::error_code& error() const { return e_; }
 private:
  bool has_;
  std::error_code e_;
};
template <class T> bool operator==(const expected<T>& a, const expected<T>& b) {
  return bool(a) == bool(b) && (a ? *a == *b : a.error() == b.error());
}
END_OPENTRACING_ABI_NAMESPACE
}  // namespace opentracing
