#pragma once
#include <exception>
#include <memory>
#include <stdexcept>
#include <string>
#include <algorithm>
#include <array>
#include <functional>
#include <future>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <variant>
#include <vector>
#include "absl/types/span.h"
#include "absl/strings/str_split.h"
#include "absl/strings/escaping.h"
#include "fmt/format.h"
#include "fmt/ostream.h"
#include "fmt/ranges.h"
#include "yacl/base/int128.h"
namespace yacl {
namespace internal {
inline std::string Format() { return ""; }
template <typename S, typename... A>
std::string Format(const S& s, const A&... a) {
  if constexpr (sizeof...(A) == 0 && !std::is_convertible_v<const S&, fmt::string_view>) {
    return fmt::format("{}", s);
  } else {
    return fmt::format(fmt::runtime(fmt::string_view(s)), a...);
  }
}
inline std::string* CheckNotNullMsg() { return nullptr; }
}  // namespace internal
class Exception : public std::exception {
 public:
  Exception() = default;
  explicit Exception(std::string m) : msg_(std::move(m)) {}
  explicit Exception(const char* m) : msg_(m) {}
  Exception(const std::string& m, void** , int) : msg_(m) {}
  const char* what() const noexcept override { return msg_.c_str(); }
  const std::string& stack_trace() const noexcept { return stack_; }
 private:
  std::string msg_, stack_;
};
#define VERIF_EXC(N) class N : public Exception { using Exception::Exception; }
VERIF_EXC(RuntimeError);
VERIF_EXC(LogicError);
VERIF_EXC(NotImplementedError);
VERIF_EXC(InvalidFormat);
VERIF_EXC(ArgumentError);
VERIF_EXC(IoError);
VERIF_EXC(NetworkError);
VERIF_EXC(EnforceNotMet);
#undef VERIF_EXC
class LinkError : public NetworkError {
 public:
  using NetworkError::NetworkError;
  LinkError(std::string m, int code, int http) : NetworkError(std::move(m)), code_(code), http_(http) {}
  int code() const { return code_; }
  int http_code() const { return http_; }
 private:
  int code_ = 0, http_ = 0;
};
template <typename T>
T CheckNotNull(T t, const char* = nullptr) {
  if (t == nullptr) throw LogicError("Expect not null");
  return t;
}
}  // namespace yacl
#define YACL_ERROR_MSG(...) (::yacl::internal::Format(__VA_ARGS__))
#define YACL_THROW_HELPER(E, ...) throw E(fmt::format("[{}:{}] {}", __FILE__, __LINE__, ::yacl::internal::Format(__VA_ARGS__)))
#define YACL_THROW(...) YACL_THROW_HELPER(::yacl::RuntimeError, ##__VA_ARGS__)
#define YACL_THROW_WITH_STACK(...) YACL_THROW_HELPER(::yacl::RuntimeError, ##__VA_ARGS__)
#define YACL_THROW_LOGIC_ERROR(...) YACL_THROW_HELPER(::yacl::LogicError, ##__VA_ARGS__)
#define YACL_THROW_IO_ERROR(...) YACL_THROW_HELPER(::yacl::IoError, ##__VA_ARGS__)
#define YACL_THROW_INVALID_FORMAT(...) YACL_THROW_HELPER(::yacl::InvalidFormat, ##__VA_ARGS__)
#define YACL_THROW_ARGUMENT_ERROR(...) YACL_THROW_HELPER(::yacl::ArgumentError, ##__VA_ARGS__)
#define YACL_THROW_NETWORK_ERROR(...) YACL_THROW_HELPER(::yacl::NetworkError, ##__VA_ARGS__)
#define YACL_THROW_LINK_ERROR(code, http, ...) throw ::yacl::LinkError(::yacl::internal::Format(__VA_ARGS__), code, http)
#define YACL_ENFORCE(COND, ...)                                                                          \
  do {                                                                                                   \
    if (!(COND)) {                                                                                       \
      throw ::yacl::EnforceNotMet(                                                                       \
          fmt::format("[Enforce fail at {}:{}] {}. {}", __FILE__, __LINE__, #COND, ::yacl::internal::Format(__VA_ARGS__))); \
    }                                                                                                    \
  } while (false)
#define YACL_ENFORCE_OP_(A, B, OP, ...) YACL_ENFORCE((A)OP(B), ##__VA_ARGS__)
#define YACL_ENFORCE_EQ(A, B, ...) YACL_ENFORCE_OP_(A, B, ==, ##__VA_ARGS__)
#define YACL_ENFORCE_NE(A, B, ...) YACL_ENFORCE_OP_(A, B, !=, ##__VA_ARGS__)
#define YACL_ENFORCE_GT(A, B, ...) YACL_ENFORCE_OP_(A, B, >, ##__VA_ARGS__)
#define YACL_ENFORCE_GE(A, B, ...) YACL_ENFORCE_OP_(A, B, >=, ##__VA_ARGS__)
#define YACL_ENFORCE_LT(A, B, ...) YACL_ENFORCE_OP_(A, B, <, ##__VA_ARGS__)
#define YACL_ENFORCE_LE(A, B, ...) YACL_ENFORCE_OP_(A, B, <=, ##__VA_ARGS__)
#ifndef WEAK_ENFORCE
#define WEAK_ENFORCE(...) YACL_ENFORCE(__VA_ARGS__)
#endif
