#pragma once
#include <opentracing/version.h>
#include <algorithm>
#include <cstring>
#include <functional>
#include <limits>
#include <ostream>
#include <stdexcept>
#include <string>
namespace opentracing {
BEGIN_OPENTRACING_ABI_NAMESPACE
class string_view {
 public:
  typedef std::size_t size_type;
  typedef const char* iterator;
  typedef const char* const_iterator;
  static constexpr size_type npos = size_type(-1);
  constexpr string_view() noexcept : data_(nullptr), length_(0) {}
  string_view(const char* str) noexcept
      : data_(str), length_(str == nullptr ? 0 : std::strlen(str)) {}
  constexpr string_view(const char* str, size_type len) noexcept
      : data_(str), length_(len) {}
  string_view(const std::string& str) noexcept
      : data_(str.c_str()), length_(str.length()) {}
  operator std::string() const { return {data_, length_}; }
  constexpr const char* data() const noexcept { return data_; }
  constexpr bool empty() const noexcept { return length_ == 0; }
  constexpr size_type length() const noexcept { return length_; }
  constexpr size_type size() const noexcept { return length_; }
  constexpr const char* begin() const noexcept { return data_; }
  constexpr const char* end() const noexcept { return data_ + length_; }
  constexpr const char& operator[](size_type i) const { return *(data_ + i); }
  string_view substr(size_type pos, size_type n = npos) const {
    if (pos > length_) throw std::out_of_range{"string_view::substr"};
    return {data_ + pos, std::min(n, length_ - pos)};
  }
 private:
  const char* data_;
  size_type length_;
};
inline bool operator==(string_view l, string_view r) noexcept {
  return l.length() == r.length() &&
         std::equal(l.data(), l.data() + l.length(), r.data());
}
inline bool operator==(string_view l, const std::string& r) noexcept { return l == string_view(r); }
inline bool operator==(const std::string& l, string_view r) noexcept { return string_view(l) == r; }
inline bool operator==(string_view l, const char* r) noexcept { return l == string_view(r); }
inline bool operator==(const char* l, string_view r) noexcept { return string_view(l) == r; }
inline bool operator!=(string_view l, string_view r) noexcept { return !(l == r); }
inline bool operator!=(string_view l, const std::string& r) noexcept { return !(l == r); }
inline bool operator!=(const std::string& l, string_view r) noexcept { return !(l == r); }
inline bool operator!=(string_view l, const char* r) noexcept { return !(l == r); }
inline bool operator!=(const char* l, string_view r) noexcept { return !(l == r); }
inline std::ostream& operator<<(std::ostream& os, string_view s) {
  return os.write(s.data(), static_cast<std::streamsize>(s.length()));
}
END_OPENTRACING_ABI_NAMESPACE
}  // namespace opentracing
namespace std {
template <> struct hash<opentracing::string_view> {
  size_t operator()(opentracing::string_view s) const {
    return std::hash<std::string>{}(std::string(s.data(), s.size()));
  }
};
}
