#pragma once
#include "yacl/io/stream/interface.h"
namespace yacl::io {
class MemInputStream : public InputStream {
 public:
  explicit MemInputStream(std::string d) : d_(std::move(d)), in_(d_) {}
  std::istream& s() override { return in_; }
  const std::string& GetName() const override { static std::string n = "mem"; return n; }
  size_t GetLength() const override { return d_.size(); }
  std::unique_ptr<InputStream> Spawn() override { return std::make_unique<MemInputStream>(d_); }
  void Close() override {}
 private:
  std::string d_; std::istringstream in_;
};
class MemOutputStream : public OutputStream {
 public:
  explicit MemOutputStream(std::string* o) : o_(o) {}
  void Write(const void* p, size_t n) override { b_.append((const char*)p, n); }
  using OutputStream::Write;
  const std::string& GetName() const override { static std::string n = "mem"; return n; }
  void Flush() override {}
  void Close() override { *o_ = b_; }
  size_t Tellp() override { return b_.size(); }
 private:
  std::string* o_; std::string b_;
};
}
