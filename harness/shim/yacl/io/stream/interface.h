#pragma once
#include <cstring>
#include <fstream>
#include <memory>
#include <sstream>
#include <string>
#include <string_view>
#include "spdlog/spdlog.h"
#include "yacl/base/exception.h"
namespace yacl::io {
class InputStream {
 public:
  virtual ~InputStream() = default;
  virtual std::istream& s() = 0;
  virtual const std::string& GetName() const = 0;
  virtual size_t GetLength() const = 0;
  virtual std::unique_ptr<InputStream> Spawn() = 0;
  virtual void Close() = 0;
  InputStream& GetLine(std::string* r, char delim = '\n') { std::getline(s(), *r, delim); return *this; }
  InputStream& Read(void* b, size_t n) { s().read((char*)b, n); return *this; }
  InputStream& Seekg(size_t p) { s().clear(); s().seekg(p); return *this; }
  size_t Tellg() { return s().tellg(); }
  size_t GetCount() { return s().gcount(); }
  bool Eof() { return s().eof(); }
  explicit operator bool() { return !!s(); }
  bool operator!() { return !s(); }
};
class OutputStream {
 public:
  virtual ~OutputStream() = default;
  virtual void Write(const void* p, size_t n) = 0;
  void Write(std::string_view v) { Write(v.data(), v.size()); }
  virtual const std::string& GetName() const = 0;
  virtual void Flush() = 0;
  virtual void Close() = 0;
  virtual size_t Tellp() = 0;
};
}
