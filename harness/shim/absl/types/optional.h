#pragma once
#include <optional>
namespace absl { template <class T> using optional = std::optional<T>; using std::nullopt; using std::make_optional; }
