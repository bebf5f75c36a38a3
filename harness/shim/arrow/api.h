// Stand-in for the part of Apache Arrow the repository uses (CSV streaming reader/writer, record batches, file streams).
#pragma once
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <memory>
#include <optional>
#include <ostream>
#include <string>
#include <string_view>
#include <unordered_map>
#include <vector>
#include <stdexcept>
namespace arrow {
enum class StatusCode { OK, Invalid, KeyError, IOError };
class Status {
 public:
  Status() = default;
  Status(StatusCode c, std::string m) : c_(c), m_(std::move(m)) {}
  static Status OK() { return {}; }
  static Status Invalid(std::string m) { return {StatusCode::Invalid, m}; }
  static Status IOError(std::string m) { return {StatusCode::IOError, m}; }
  bool ok() const { return c_ == StatusCode::OK; }
  std::string ToString() const { return ok() ? "OK" : m_; }
  std::string message() const { return m_; }
  StatusCode code() const { return c_; }
 private:
  StatusCode c_ = StatusCode::OK; std::string m_;
};
inline std::ostream& operator<<(std::ostream& os, const Status& s) { return os << s.ToString(); }
template <typename T>
class Result {
 public:
  Result(Status s) : s_(std::move(s)) {}
  template <typename U, typename = std::enable_if_t<std::is_constructible_v<T, U&&> && !std::is_same_v<std::decay_t<U>, Status> && !std::is_same_v<std::decay_t<U>, Result>>>
  Result(U&& v) : v_(std::forward<U>(v)) {}
  bool ok() const { return s_.ok(); }
  const Status& status() const { return s_; }
  // real Arrow aborts the process here
  T ValueOrDie() && { if (!ok()) Die(); return std::move(*v_); }
  const T& ValueOrDie() const& { if (!ok()) Die(); return *v_; }
  T& ValueOrDie() & { if (!ok()) Die(); return *v_; }
  T ValueUnsafe() && { return std::move(*v_); }
  T MoveValueUnsafe() { return std::move(*v_); }
  T operator*() && { return ValueOrDie(); }
  const T& operator*() const& { return ValueOrDie(); }
 private:
  [[noreturn]] void Die() const { throw std::runtime_error("ValueOrDie called on an error: " + s_.ToString()); }
  Status s_; std::optional<T> v_;
};
struct Type { enum type { NA, INT64, UINT64, DOUBLE, STRING }; };
class DataType {
 public:
  explicit DataType(Type::type t) : t_(t) {}
  Type::type id() const { return t_; }
  std::string ToString() const { switch (t_) { case Type::NA: return "null"; case Type::INT64: return "int64"; case Type::UINT64: return "uint64"; case Type::DOUBLE: return "double"; default: return "string"; } }
  std::string name() const { return ToString(); }
  bool Equals(const DataType& o) const { return t_ == o.t_; }
  bool Equals(const std::shared_ptr<DataType>& o) const { return t_ == o->t_; }
 private:
  Type::type t_;
};
inline std::shared_ptr<DataType> null() { return std::make_shared<DataType>(Type::NA); }
inline std::shared_ptr<DataType> int64() { return std::make_shared<DataType>(Type::INT64); }
inline std::shared_ptr<DataType> uint64() { return std::make_shared<DataType>(Type::UINT64); }
inline std::shared_ptr<DataType> float64() { return std::make_shared<DataType>(Type::DOUBLE); }
inline std::shared_ptr<DataType> utf8() { return std::make_shared<DataType>(Type::STRING); }
class Field {
 public:
  Field(std::string n, std::shared_ptr<DataType> t) : n_(std::move(n)), t_(std::move(t)) {}
  const std::string& name() const { return n_; }
  const std::shared_ptr<DataType>& type() const { return t_; }
 private:
  std::string n_; std::shared_ptr<DataType> t_;
};
inline std::shared_ptr<Field> field(std::string n, std::shared_ptr<DataType> t) { return std::make_shared<Field>(std::move(n), std::move(t)); }
class Schema {
 public:
  explicit Schema(std::vector<std::shared_ptr<Field>> f) : f_(std::move(f)) {}
  const std::vector<std::shared_ptr<Field>>& fields() const { return f_; }
  const std::shared_ptr<Field>& field(int i) const { return f_[i]; }
  int num_fields() const { return f_.size(); }
  std::vector<std::string> field_names() const { std::vector<std::string> r; for (auto& x : f_) r.push_back(x->name()); return r; }
  std::shared_ptr<Field> GetFieldByName(const std::string& n) const { for (auto& x : f_) if (x->name() == n) return x; return nullptr; }
  int GetFieldIndex(const std::string& n) const { for (size_t i = 0; i < f_.size(); ++i) if (f_[i]->name() == n) return i; return -1; }
 private:
  std::vector<std::shared_ptr<Field>> f_;
};
inline std::shared_ptr<Schema> schema(std::vector<std::shared_ptr<Field>> f) { return std::make_shared<Schema>(std::move(f)); }
class MemoryPool {};
inline MemoryPool* default_memory_pool() { static MemoryPool p; return &p; }
class Array {
 public:
  virtual ~Array() = default;
  virtual int64_t length() const = 0;
  const std::shared_ptr<DataType>& type() const { return t_; }
  Type::type type_id() const { return t_->id(); }
  bool IsNull(int64_t) const { return false; }
  bool IsValid(int64_t) const { return true; }
 protected:
  std::shared_ptr<DataType> t_;
};
class StringArray : public Array {
 public:
  explicit StringArray(std::vector<std::string> v) : v_(std::move(v)) { t_ = utf8(); }
  int64_t length() const override { return v_.size(); }
  std::string_view Value(int64_t i) const { return v_[i]; }
  std::string_view GetView(int64_t i) const { return v_[i]; }
  std::string GetString(int64_t i) const { return v_[i]; }
 private:
  std::vector<std::string> v_;
};
// int64 and uint64 arrays share their layout, as in Arrow (both are 8-byte value buffers)
template <typename T, Type::type K>
class NumArray : public Array {
 public:
  explicit NumArray(std::vector<int64_t> v) : v_(std::move(v)) { t_ = std::make_shared<DataType>(K); }
  int64_t length() const override { return v_.size(); }
  T Value(int64_t i) const { return static_cast<T>(v_[i]); }
  T GetView(int64_t i) const { return Value(i); }
 private:
  std::vector<int64_t> v_;
};
using Int64Array = NumArray<int64_t, Type::INT64>;
using UInt64Array = NumArray<uint64_t, Type::UINT64>;
class DoubleArray : public Array {
 public:
  explicit DoubleArray(std::vector<double> v) : v_(std::move(v)) { t_ = float64(); }
  int64_t length() const override { return v_.size(); }
  double Value(int64_t i) const { return v_[i]; }
 private:
  std::vector<double> v_;
};
class NullArray : public Array {
 public:
  explicit NullArray(int64_t n) : n_(n) { t_ = null(); }
  int64_t length() const override { return n_; }
 private:
  int64_t n_;
};
class RecordBatch {
 public:
  static std::shared_ptr<RecordBatch> Make(std::shared_ptr<Schema> s, int64_t n, std::vector<std::shared_ptr<Array>> c) {
    auto r = std::make_shared<RecordBatch>(); r->s_ = std::move(s); r->n_ = n; r->c_ = std::move(c); return r; }
  int64_t num_rows() const { return n_; }
  int num_columns() const { return c_.size(); }
  const std::shared_ptr<Schema>& schema() const { return s_; }
  std::shared_ptr<Array> column(int i) const { return c_[i]; }
  const std::vector<std::shared_ptr<Array>>& columns() const { return c_; }
  std::shared_ptr<Array> GetColumnByName(const std::string& n) const { int i = s_->GetFieldIndex(n); return i < 0 ? nullptr : c_[i]; }
 private:
  std::shared_ptr<Schema> s_; int64_t n_ = 0; std::vector<std::shared_ptr<Array>> c_;
};
struct Scalar { virtual ~Scalar() = default; };
struct UInt64Scalar : Scalar { uint64_t value; explicit UInt64Scalar(uint64_t v) : value(v) {} };
struct Int64Scalar : Scalar { int64_t value; explicit Int64Scalar(int64_t v) : value(v) {} };
struct StringScalar : Scalar { std::string value; explicit StringScalar(std::string v) : value(std::move(v)) {} };
class ArrayBuilder {
 public:
  explicit ArrayBuilder(std::shared_ptr<DataType> t) : t_(std::move(t)) {}
  virtual ~ArrayBuilder() = default;
  Status Resize(int64_t) { return {}; }
  Status Reserve(int64_t) { return {}; }
  Status AppendScalar(const Scalar& s) {
    if (auto* u = dynamic_cast<const UInt64Scalar*>(&s)) { if (t_->id() != Type::UINT64) return Status::Invalid("type"); n_.push_back((int64_t)u->value); }
    else if (auto* i = dynamic_cast<const Int64Scalar*>(&s)) { if (t_->id() != Type::INT64) return Status::Invalid("type"); n_.push_back(i->value); }
    else if (auto* x = dynamic_cast<const StringScalar*>(&s)) { if (t_->id() != Type::STRING) return Status::Invalid("type"); s_.push_back(x->value); }
    return {};
  }
  Result<std::shared_ptr<Array>> Finish() {
    std::shared_ptr<Array> a;
    if (t_->id() == Type::UINT64) a = std::make_shared<UInt64Array>(std::move(n_));
    else if (t_->id() == Type::INT64) a = std::make_shared<Int64Array>(std::move(n_));
    else a = std::make_shared<StringArray>(std::move(s_));
    Reset();
    return a;
  }
  void Reset() { n_.clear(); s_.clear(); }
  int64_t length() const { return n_.size() + s_.size(); }
 protected:
  std::shared_ptr<DataType> t_; std::vector<int64_t> n_; std::vector<std::string> s_;
};
template <typename A, Type::type K> class TypedBuilder : public ArrayBuilder {
 public:
  TypedBuilder() : ArrayBuilder(std::make_shared<DataType>(K)) {}
  template <typename V> Status Append(V v) { if constexpr (K == Type::STRING) s_.emplace_back(v); else n_.push_back(v); return {}; }
};
using UInt64Builder = TypedBuilder<UInt64Array, Type::UINT64>;
using Int64Builder = TypedBuilder<Int64Array, Type::INT64>;
using StringBuilder = TypedBuilder<StringArray, Type::STRING>;
inline Result<std::unique_ptr<ArrayBuilder>> MakeBuilder(std::shared_ptr<DataType> t, MemoryPool* = nullptr) { return std::make_unique<ArrayBuilder>(t); }
namespace io {
class IOContext {};
inline IOContext default_io_context() { return {}; }
class InputStream { public: virtual ~InputStream() = default; };
class RandomAccessFile : public InputStream {};
class ReadableFile : public RandomAccessFile {
 public:
  static Result<std::shared_ptr<ReadableFile>> Open(const std::string& p, MemoryPool* = nullptr) {
    int fd = ::open(p.c_str(), O_RDONLY | O_CLOEXEC);
    if (fd < 0) return Status::IOError("Failed to open local file '" + p + "'");
    auto f = std::make_shared<ReadableFile>(); f->fd_ = fd; return f;
  }
  ~ReadableFile() override { (void)Close(); }
  Status Close() { if (fd_ >= 0) ::close(fd_); fd_ = -1; return {}; }
  bool closed() const { return fd_ < 0; }
  Result<int64_t> GetSize() { struct stat st; fstat(fd_, &st); return (int64_t)st.st_size; }
  int64_t ReadSome(char* b, size_t n) { return ::read(fd_, b, n); }
  Status Read(std::string* out) { char b[65536]; ssize_t n; while ((n = ::read(fd_, b, sizeof b)) > 0) out->append(b, n); return n < 0 ? Status::IOError("read") : Status(); }
 private:
  int fd_ = -1;
};
class OutputStream { public: virtual ~OutputStream() = default; virtual Status Write(const void*, int64_t) = 0; Status Write(const std::string& s) { return Write(s.data(), s.size()); }
  virtual Status Flush() { return {}; } virtual Status Close() = 0; virtual bool closed() const = 0; };
class FileOutputStream : public OutputStream {
 public:
  static Result<std::shared_ptr<FileOutputStream>> Open(const std::string& p, bool append = false) {
    int fd = ::open(p.c_str(), O_WRONLY | O_CREAT | O_CLOEXEC | (append ? O_APPEND : O_TRUNC), 0666);
    if (fd < 0) return Status::IOError("Failed to open local file '" + p + "'");
    auto f = std::make_shared<FileOutputStream>(); f->fd_ = fd; return f;
  }
  ~FileOutputStream() override { (void)Close(); }
  using OutputStream::Write;
  Status Write(const void* d, int64_t n) override {
    if (fd_ < 0) return Status::Invalid("Operation on closed file");
    auto* c = (const char*)d;
    while (n > 0) { ssize_t k = ::write(fd_, c, n); if (k < 0) return Status::IOError("write"); c += k; n -= k; }
    return {};
  }
  Status Close() override { if (fd_ >= 0) ::close(fd_); fd_ = -1; return {}; }
  bool closed() const override { return fd_ < 0; }
  Result<int64_t> Tell() const { return (int64_t)lseek(fd_, 0, SEEK_CUR); }
 private:
  int fd_ = -1;
};
}  // namespace io
class RecordBatchReader {
 public:
  virtual ~RecordBatchReader() = default;
  virtual std::shared_ptr<Schema> schema() const = 0;
  virtual Status ReadNext(std::shared_ptr<RecordBatch>* out) = 0;
  virtual Status Close() { return {}; }
};
namespace ipc { using ::arrow::RecordBatchReader; }
}  // namespace arrow
namespace arrow::csv {
struct ReadOptions {
  static ReadOptions Defaults() { return {}; }
  bool use_threads = true; int32_t block_size = 1 << 20; int32_t skip_rows = 0, skip_rows_after_names = 0;
  std::vector<std::string> column_names; bool autogenerate_column_names = false;
};
struct ParseOptions {
  static ParseOptions Defaults() { return {}; }
  char delimiter = ','; bool quoting = true; char quote_char = '"'; bool double_quote = true; bool escaping = false; char escape_char = '\\';
  bool newlines_in_values = false; bool ignore_empty_lines = true;
};
struct ConvertOptions {
  static ConvertOptions Defaults() { return {}; }
  bool check_utf8 = true;
  std::unordered_map<std::string, std::shared_ptr<DataType>> column_types;
  std::vector<std::string> null_values; bool strings_can_be_null = false; bool quoted_strings_can_be_null = true;
  std::vector<std::string> include_columns; bool include_missing_columns = false; bool auto_dict_encode = false;
};
enum class QuotingStyle { Needed, AllValid, None };
struct WriteOptions {
  static WriteOptions Defaults() { return {}; }
  bool include_header = true; int32_t batch_size = 1024; char delimiter = ','; std::string null_string; std::string eol = "\n"; QuotingStyle quoting_style = QuotingStyle::Needed;
};
// Blocks: the real reader hands out one record batch per parsed block; VERIF_ARROW_BLOCK (bytes) makes the
// blocks small so that block boundaries fall everywhere.
class StreamingReader : public ::arrow::RecordBatchReader {
 public:
  static Result<std::shared_ptr<StreamingReader>> Make(io::IOContext, std::shared_ptr<io::ReadableFile> f, ReadOptions ro, ParseOptions po, ConvertOptions co) {
    auto r = std::shared_ptr<StreamingReader>(new StreamingReader());
    r->f_ = std::move(f); r->po_ = po; r->co_ = co;
    r->block_ = ro.block_size;
    if (const char* e = getenv("VERIF_ARROW_BLOCK")) r->block_ = std::max(1, atoi(e));
    for (int i = 0; i < ro.skip_rows; ++i) { std::string l; r->Line(&l); }
    std::vector<std::string> row;
    if (!ro.column_names.empty()) row = ro.column_names;
    else {
      std::string l;
      if (!r->Line(&l)) return Status::Invalid("Empty CSV file");
      if (!r->Split(l, &row)) return Status::Invalid("CSV parse error");
    }
    r->names_ = row;
    if (co.include_columns.empty()) for (size_t i = 0; i < row.size(); ++i) r->pick_.push_back(i);
    else for (auto& n : co.include_columns) {
      int at = -1, cnt = 0;
      for (size_t i = 0; i < row.size(); ++i) if (row[i] == n) { if (at < 0) at = i; cnt++; }
      if (at < 0) return Status(StatusCode::KeyError, "Column '" + n + "' in include_columns does not exist in CSV file");
      r->pick_.push_back(at);
    }
    auto st = r->Parse();   // the first block fixes the column types
    if (!st.ok()) return st;
    std::vector<std::shared_ptr<Field>> fs;
    for (size_t k = 0; k < r->pick_.size(); ++k) {
      auto& n = r->names_[r->pick_[k]];
      auto it = co.column_types.find(n);
      fs.push_back(arrow::field(n, it != co.column_types.end() ? it->second : r->Infer(k)));
    }
    r->schema_ = arrow::schema(fs);
    return r;
  }
  std::shared_ptr<Schema> schema() const override { return schema_; }
  Status ReadNext(std::shared_ptr<RecordBatch>* out) override {
    *out = nullptr;
    if (!have_) { auto st = Parse(); if (!st.ok()) return st; }
    have_ = false;
    if (rows_.empty()) return {};
    std::vector<std::shared_ptr<Array>> cols;
    for (size_t k = 0; k < pick_.size(); ++k) {
      auto t = schema_->field(k)->type()->id();
      if (t == Type::STRING) { std::vector<std::string> v; for (auto& r : rows_) v.push_back(std::move(r[k])); cols.push_back(std::make_shared<StringArray>(std::move(v))); }
      else if (t == Type::NA) { for (auto& r : rows_) if (!IsNull(r[k])) return Status::Invalid("conversion error to null"); cols.push_back(std::make_shared<NullArray>(rows_.size())); }
      else if (t == Type::DOUBLE) { std::vector<double> v; for (auto& r : rows_) { double d = 0; if (!IsNull(r[k]) && !ToD(r[k], &d)) return Status::Invalid("conversion error to double"); v.push_back(d); } cols.push_back(std::make_shared<DoubleArray>(std::move(v))); }
      else {
        std::vector<int64_t> v;
        for (auto& r : rows_) { int64_t x = 0; if (!IsNull(r[k]) && !ToI(r[k], &x, t == Type::UINT64)) return Status::Invalid("In CSV column #" + std::to_string(k) + ": CSV conversion error to int64: invalid value '" + r[k] + "'"); v.push_back(x); }
        if (t == Type::UINT64) cols.push_back(std::make_shared<UInt64Array>(std::move(v))); else cols.push_back(std::make_shared<Int64Array>(std::move(v)));
      }
    }
    *out = RecordBatch::Make(schema_, rows_.size(), std::move(cols));
    rows_.clear();
    return {};
  }
  Status Close() override { return f_->Close(); }
  int64_t bytes_read() const { return 0; }
 private:
  StreamingReader() = default;
  static bool IsNull(const std::string& s) { for (auto* n : {"", "#N/A", "#N/A N/A", "#NA", "-1.#IND", "-1.#QNAN", "-NaN", "-nan", "1.#IND", "1.#QNAN", "N/A", "NA", "NULL", "NaN", "n/a", "nan", "null"}) if (s == n) return true; return false; }
  static bool ToI(const std::string& s, int64_t* o, bool uns = false) { if (s.empty() || isspace((unsigned char)s[0]) || s[0] == '+') return false; char* e; errno = 0; *o = uns ? (int64_t)strtoull(s.c_str(), &e, 10) : strtoll(s.c_str(), &e, 10); return !*e && !errno; }
  static bool ToD(const std::string& s, double* o) { if (s.empty() || isspace((unsigned char)s[0])) return false; char* e; *o = strtod(s.c_str(), &e); return !*e; }
  std::shared_ptr<DataType> Infer(size_t k) {
    bool i = true, d = true, n = true;
    for (auto& r : rows_) { if (IsNull(r[k])) continue; n = false; int64_t x; double y; if (!ToI(r[k], &x)) i = false; if (!ToD(r[k], &y)) d = false; }
    return n ? arrow::null() : i ? arrow::int64() : d ? arrow::float64() : arrow::utf8();
  }
  bool Line(std::string* l) {
    l->clear();
    for (;;) {
      auto p = buf_.find('\n', pos_);
      if (p != std::string::npos) { l->assign(buf_, pos_, p - pos_); pos_ = p + 1; consumed_ += l->size() + 1; break; }
      if (eof_) { if (pos_ >= buf_.size()) return false; l->assign(buf_, pos_); pos_ = buf_.size(); consumed_ += l->size(); break; }
      buf_.erase(0, pos_); pos_ = 0;
      char b[65536]; ssize_t n = f_->ReadSome(b, sizeof b);
      if (n <= 0) eof_ = true; else buf_.append(b, n);
    }
    if (!l->empty() && l->back() == '\r') l->pop_back();
    return true;
  }
  bool Split(const std::string& l, std::vector<std::string>* out) {
    out->clear(); std::string cur; size_t i = 0; bool q = false;
    for (;; ++i) {
      if (i >= l.size()) { if (q) return false; out->push_back(cur); return true; }
      char c = l[i];
      if (q) { if (c == po_.quote_char) { if (i + 1 < l.size() && l[i + 1] == po_.quote_char) { cur += c; ++i; } else q = false; } else cur += c; }
      else if (c == po_.quote_char && po_.quoting && cur.empty()) q = true;
      else if (c == po_.delimiter) { out->push_back(cur); cur.clear(); }
      else cur += c;
    }
  }
  Status Parse() {
    rows_.clear(); have_ = true;
    int64_t used = 0; std::string l; std::vector<std::string> row;
    while (used < block_) {
      if (!Line(&l)) break;
      used += l.size() + 1;
      if (l.empty() && po_.ignore_empty_lines && names_.size() >= 1) continue;
      if (!Split(l, &row)) return Status::Invalid("CSV parse error: unterminated quote");
      if (row.size() != names_.size()) return Status::Invalid("CSV parse error: Expected " + std::to_string(names_.size()) + " columns, got " + std::to_string(row.size()) + ": " + l);
      std::vector<std::string> p; for (auto k : pick_) p.push_back(row[k]);
      rows_.push_back(std::move(p));
    }
    return {};
  }
  std::shared_ptr<io::ReadableFile> f_; ParseOptions po_; ConvertOptions co_; int64_t block_ = 1 << 20;
  std::vector<std::string> names_; std::vector<size_t> pick_; std::shared_ptr<Schema> schema_;
  std::string buf_; size_t pos_ = 0; bool eof_ = false; int64_t consumed_ = 0;
  std::vector<std::vector<std::string>> rows_; bool have_ = false;
};
}  // namespace arrow::csv
namespace arrow {
namespace ipc {
class RecordBatchWriter {
 public:
  virtual ~RecordBatchWriter() = default;
  virtual Status WriteRecordBatch(const RecordBatch& b) = 0;
  virtual Status Close() = 0;
};
}
namespace csv {
class ShimCsvWriter : public ipc::RecordBatchWriter {
 public:
  ShimCsvWriter(std::shared_ptr<io::OutputStream> o, std::shared_ptr<Schema> s, WriteOptions w) : o_(std::move(o)), s_(std::move(s)), w_(w) {
    if (w.include_header) { std::string l; for (auto& f : s_->fields()) l += (l.empty() ? "\"" : std::string(1, w.delimiter) + "\"") + f->name() + "\""; (void)o_->Write(l + w.eol); } }
  Status WriteRecordBatch(const RecordBatch& b) override {
    std::string out;
    for (int64_t i = 0; i < b.num_rows(); ++i) {
      for (int c = 0; c < b.num_columns(); ++c) {
        if (c) out += w_.delimiter;
        auto a = b.column(c);
        if (auto* u = dynamic_cast<UInt64Array*>(a.get())) out += std::to_string(u->Value(i));
        else if (auto* n = dynamic_cast<Int64Array*>(a.get())) out += std::to_string(n->Value(i));
        else if (auto* s = dynamic_cast<StringArray*>(a.get())) { out += '"'; for (char ch : s->Value(i)) { if (ch == '"') out += '"'; out += ch; } out += '"'; }
      }
      out += w_.eol;
    }
    return o_->Write(out.data(), out.size());
  }
  Status Close() override { return {}; }
 private:
  std::shared_ptr<io::OutputStream> o_; std::shared_ptr<Schema> s_; WriteOptions w_;
};
inline Result<std::shared_ptr<ipc::RecordBatchWriter>> MakeCSVWriter(std::shared_ptr<io::OutputStream> o, const std::shared_ptr<Schema>& s, const WriteOptions& w = WriteOptions::Defaults()) {
  return std::shared_ptr<ipc::RecordBatchWriter>(std::make_shared<ShimCsvWriter>(o, s, w));
}
}  // namespace csv
}  // namespace arrow
