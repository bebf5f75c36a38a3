#pragma once
#include <any>
#include <variant>
#include "yacl/io/stream/interface.h"
#include <vector>
namespace yacl::io {
struct Schema {
  enum Type { FLOAT = 0, STRING = 1, DOUBLE = 2 };
  std::vector<Type> feature_types; std::vector<std::string> feature_names;
};
struct ReaderOptions { Schema file_schema; bool use_header_order = false; bool column_reader = false; size_t batch_size = 50; size_t row_reader_count = 1; };
struct WriterOptions { Schema file_schema; unsigned float_precision = 6; };
template <class S> using ColumnVector = std::vector<S>;
using FloatColumnVector = ColumnVector<float>;
using DoubleColumnVector = ColumnVector<double>;
using StringColumnVector = ColumnVector<std::string>;
using ColumnType = std::variant<FloatColumnVector, DoubleColumnVector, StringColumnVector>;
class ColumnVectorBatch {
 public:
  struct BatchShape { size_t rows = 0, cols = 0; };
  BatchShape Shape() const { return {cols_.empty() ? 0 : std::visit([](auto& v) { return v.size(); }, cols_[0]), cols_.size()}; }
  template <class T> const T& At(size_t r, size_t c) const { return std::get<ColumnVector<T>>(cols_.at(c)).at(r); }
  template <class T> const ColumnVector<T>& Col(size_t c) const { return std::get<ColumnVector<T>>(cols_.at(c)); }
  template <class V> void AppendCol(V&& v) { cols_.emplace_back(std::forward<V>(v)); }
  void Clear() { cols_.clear(); }
  void Reserve(size_t n) { cols_.reserve(n); }
 private:
  std::vector<ColumnType> cols_;
};
class Reader {
 public:
  virtual ~Reader() = default;
  virtual void Init() = 0;
  virtual bool Next(ColumnVectorBatch* b) = 0;
  virtual bool Next(size_t n, ColumnVectorBatch* b) = 0;
  virtual size_t Rows() const { return 0; }
};
}
