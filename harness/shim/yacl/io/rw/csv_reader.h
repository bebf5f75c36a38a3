#pragma once
#include "absl/strings/str_split.h"
#include "absl/strings/numbers.h"
#include "absl/strings/ascii.h"
#include "yacl/io/rw/reader.h"
namespace yacl::io {
class CsvReader : public Reader {
 public:
  CsvReader(ReaderOptions o, std::unique_ptr<InputStream> in, char fd = ',', char ld = '\n') : o_(std::move(o)), in_(std::move(in)), fd_(fd), ld_(ld) {}
  void Init() override {
    std::string line; in_->GetLine(&line, ld_);
    std::vector<std::string> h = absl::StrSplit(line, fd_);
    for (auto& x : h) { x = std::string(absl::StripAsciiWhitespace(x)); }
    cols_ = h.size();
    for (auto& n : o_.file_schema.feature_names) {
      size_t i = 0; while (i < h.size() && h[i] != n) ++i;
      YACL_ENFORCE(i < h.size(), "can not find feature {} in file", n);
      pick_.push_back(i);
    }
  }
  bool Next(ColumnVectorBatch* b) override { return Next(o_.batch_size, b); }
  bool Next(size_t n, ColumnVectorBatch* b) override {
    b->Clear();
    std::vector<std::vector<std::string>> v(pick_.size());
    std::string line; size_t rows = 0;
    while (rows < n && in_->GetLine(&line, ld_)) {
      if (!line.empty() && line.back() == '\r') line.pop_back();
      std::vector<std::string> t = absl::StrSplit(line, fd_);
      if (t.size() != cols_) YACL_THROW_INVALID_FORMAT("bad format, row has {} fields, header has {}", t.size(), cols_);
      for (size_t k = 0; k < pick_.size(); ++k) v[k].push_back(std::string(absl::StripAsciiWhitespace(t[pick_[k]])));
      ++rows;
    }
    if (!rows) return false;
    for (size_t k = 0; k < v.size(); ++k) {
      auto ty = o_.file_schema.feature_types.at(k);
      if (ty == Schema::STRING) b->AppendCol(std::move(v[k]));
      else if (ty == Schema::DOUBLE) { DoubleColumnVector d; for (auto& s : v[k]) { double x; YACL_ENFORCE(absl::SimpleAtod(s, &x)); d.push_back(x); } b->AppendCol(std::move(d)); }
      else { FloatColumnVector d; for (auto& s : v[k]) { float x; YACL_ENFORCE(absl::SimpleAtof(s, &x)); d.push_back(x); } b->AppendCol(std::move(d)); }
    }
    return true;
  }
 private:
  ReaderOptions o_; std::unique_ptr<InputStream> in_; char fd_, ld_; size_t cols_ = 0; std::vector<size_t> pick_;
};
}
