#pragma once
#include "yacl/io/rw/reader.h"
namespace yacl::io {
class Writer {
 public:
  virtual ~Writer() = default;
  virtual void Init() = 0;
  virtual bool Add(const ColumnVectorBatch& b) = 0;
  virtual void Flush() = 0;
  virtual void Close() = 0;
};
}
