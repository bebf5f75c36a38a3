#pragma once
// Reading string members of a JSON object.
#include <nlohmann/json.hpp>
#include <stdexcept>
#include <string>
namespace rapidjson {
using SizeType = unsigned;
class Value {
 public:
  Value() = default;
  explicit Value(nlohmann::json j) : j_(std::move(j)) { if (j_.is_string()) s_ = j_.get<std::string>(); }
  bool IsString() const { return j_.is_string(); }
  bool IsObject() const { return j_.is_object(); }
  bool HasMember(const char* k) const { return j_.is_object() && j_.contains(k); }
  const char* GetString() const { need(j_.is_string()); return s_.c_str(); }
  SizeType GetStringLength() const { need(j_.is_string()); return (SizeType)s_.size(); }
  Value operator[](const char* k) const { need(HasMember(k)); return Value(j_.at(k)); }
 protected:
  static void need(bool b) { if (!b) throw std::runtime_error("rapidjson: assertion"); }
  nlohmann::json j_;
  std::string s_;
};
// members live as long as the document, as they do in rapidjson
class Document : public Value {
 public:
  Document& Parse(const char* t) { j_ = nlohmann::json::parse(t, nullptr, false); bad_ = j_.is_discarded(); if (bad_) j_ = nullptr; return *this; }
  bool HasParseError() const { return bad_; }
  const Value& operator[](const char* k) const {
    need(HasMember(k));
    auto it = kids_.find(k);
    if (it == kids_.end()) it = kids_.emplace(k, Value(j_.at(k))).first;
    return it->second;
  }
 private:
  bool bad_ = false;
  mutable std::map<std::string, Value> kids_;
};
}  // namespace rapidjson
