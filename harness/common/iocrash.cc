// write() and writev() of this executable and of the libraries it uses: every write to a file is a step at which the
// running party may be made to die, just before the bytes reach the file.
#include <dlfcn.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include "procnet.h"
extern "C" {
ssize_t write(int fd, const void* b, size_t n) {
  if (fd > 2) verif::Step("write");
  return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (fd > 2) verif::Step("writev");
  return syscall(SYS_writev, fd, v, c);
}
}
