#pragma once
#include "yacl/io/rw/writer.h"
namespace yacl::io {
class CsvWriter : public Writer {
 public:
  CsvWriter(WriterOptions o, std::unique_ptr<OutputStream> out, char fd = ',', char ld = '\n') : o_(std::move(o)), out_(std::move(out)), fd_(fd), ld_(ld) {}
  void Init() override { std::string l; for (auto& n : o_.file_schema.feature_names) { if (!l.empty()) l += fd_; l += n; } out_->Write(l + ld_); }
  bool Add(const ColumnVectorBatch& b) override {
    auto sh = b.Shape();
    for (size_t r = 0; r < sh.rows; ++r) {
      std::string l;
      for (size_t c = 0; c < sh.cols; ++c) {
        if (c) l += fd_;
        auto ty = o_.file_schema.feature_types.at(c);
        l += ty == Schema::STRING ? b.At<std::string>(r, c) : ty == Schema::DOUBLE ? fmt::format("{:.{}f}", b.At<double>(r, c), o_.float_precision) : fmt::format("{:.{}f}", b.At<float>(r, c), o_.float_precision);
      }
      out_->Write(l + ld_);
    }
    return true;
  }
  void Flush() override { out_->Flush(); }
  void Close() override { out_->Close(); }
 private:
  WriterOptions o_; std::unique_ptr<OutputStream> out_; char fd_, ld_;
};
}
