// In-memory streams. Natively a std::stringstream; in the engine a flat buffer behind ostream::write / istream::read.
#pragma once
#include "sym.h"
struct VBuf { char *data; size_t cap, n, pos; };
extern "C" VBuf *__rt_vbuf;      // buffer behind the fake streams
struct FakeStream { const void *vptr; int64_t gcount; char ios[280]; };
extern const int64_t __rt_vt_os[8], __rt_vt_is[8];
class VStream {
#ifdef SYM_NATIVE
  std::stringstream ss_;
public:
  explicit VStream(size_t = 0) {}
  VStream(char *, size_t) {}
  std::ostream &os() { return ss_; }
  std::istream &is() { return ss_; }
  size_t written() { return ss_.str().size(); }
  uint8_t byte(size_t i) { return (uint8_t)ss_.str()[i]; }
  size_t left() { auto p = ss_.tellg(); return p < 0 ? 0 : ss_.str().size() - (size_t)p; }
  bool good() { return ss_.good(); }
  void rewind() { ss_.clear(); ss_.seekg(0); } // to read it again
#else
  VBuf b_; FakeStream fo_, fi_; bool own_;
public:
  explicit VStream(size_t cap = 4096) : VStream(new char[cap], cap) { own_ = true; }
  VStream(char *mem, size_t cap) : own_(false) { b_.cap = cap; b_.data = mem; b_.n = b_.pos = 0; std::memset(&fo_, 0, sizeof fo_); std::memset(&fi_, 0, sizeof fi_); fo_.vptr = &__rt_vt_os[3]; fi_.vptr = &__rt_vt_is[3]; }
  ~VStream() { if (own_) delete[] b_.data; }
  std::ostream &os() { __rt_vbuf = &b_; return *reinterpret_cast<std::ostream *>(&fo_); }
  std::istream &is() { __rt_vbuf = &b_; return *reinterpret_cast<std::istream *>(&fi_); }
  size_t written() { return b_.n; }
  uint8_t byte(size_t i) { return (uint8_t)b_.data[i]; }
  size_t left() { return b_.n - b_.pos; }
  bool good() { return *(int *)(fi_.ios + 32) == 0; }
  void rewind() { b_.pos = 0; *(int *)(fi_.ios + 32) = 0; }
#endif
};
