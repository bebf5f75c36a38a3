#pragma once
// The few APSI types that the CSV utilities mention.
#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
namespace apsi {
class Item { public: Item() = default; Item(const std::string& s) : s_(s) {} template <class T> T get_as() const; const std::string& str() const { return s_; } bool operator==(const Item& o) const { return s_ == o.s_; } private: std::string s_; };
class HashedItem : public Item { public: using Item::Item; };
using Label = std::vector<unsigned char>;
class PSIParams { public: static PSIParams Load(const std::string&) { return {}; } };
namespace receiver { struct LabelData { std::string to_string() const { return s; } operator bool() const { return has; } std::string s; bool has = false; };
struct MatchRecord { bool found = false; LabelData label; operator bool() const { return found; } }; }
}  // namespace apsi
