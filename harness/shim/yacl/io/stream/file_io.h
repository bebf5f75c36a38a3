#pragma once
#include "yacl/io/stream/interface.h"
namespace yacl::io {
class FileInputStream : public InputStream {
 public:
  explicit FileInputStream(std::string f) : name_(std::move(f)), in_(name_, std::ios::binary) {
    if (!in_.good()) YACL_THROW_IO_ERROR("open file={} failed", name_);
    in_.seekg(0, std::ios::end); len_ = in_.tellg(); in_.seekg(0);
    if (len_ == (size_t)-1) YACL_THROW_IO_ERROR("file={} can not be read", name_);
  }
  std::istream& s() override { return in_; }
  const std::string& GetName() const override { return name_; }
  size_t GetLength() const override { return len_; }
  std::unique_ptr<InputStream> Spawn() override { return std::make_unique<FileInputStream>(name_); }
  void Close() override { in_.close(); }
 private:
  std::string name_; std::ifstream in_; size_t len_ = 0;
};
class FileOutputStream : public OutputStream {
 public:
  explicit FileOutputStream(std::string f, bool trunc = true, bool exit_on_fail = true)
      : name_(std::move(f)), out_(name_, std::ios::binary | (trunc ? std::ios::trunc : std::ios::app)) {
    if (!out_.good()) YACL_THROW_IO_ERROR("open file={} failed", name_);
  }
  ~FileOutputStream() override { if (out_.is_open()) out_.close(); }
  void Write(const void* p, size_t n) override { out_.write((const char*)p, n); if (!out_) YACL_THROW_IO_ERROR("write {} failed", name_); }
  using OutputStream::Write;
  const std::string& GetName() const override { return name_; }
  void Flush() override { out_.flush(); }
  void Close() override { if (out_.is_open()) out_.close(); }
  size_t Tellp() override { return out_.tellp(); }
 private:
  std::string name_; std::ofstream out_;
};
}
