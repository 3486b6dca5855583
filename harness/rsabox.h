// The library's RSA keys of several widths behind one interface (implemented in rsabox.cpp).
#pragma once
#include "rsaref.h"
namespace vf {
enum Scheme { PKCS1_256, PKCS1_384, PKCS1_512, PSS_256, PSS_384, PSS_512, kSchemes };
inline const char* hash_of(int s) { static const char* n[] = {"SHA256", "SHA384", "SHA512"}; return n[s % 3]; }
inline bool is_pss(int s) { return s >= PSS_256; }
inline size_t hash_len(int s) { static const size_t n[] = {32, 48, 64}; return n[s % 3]; }
inline bool fits(int s, size_t bits) { return is_pss(s) ? (bits - 1 + 7) / 8 >= 2 * hash_len(s) + 2 : (bits + 7) / 8 >= hash_len(s) + 19 + 11; }
struct RsaBox {
  virtual ~RsaBox() = default;
  virtual size_t width() const = 0;
  virtual Z rsaep(const Z& m) const = 0;
  virtual Z rsadp(const Z& c) const = 0;
  virtual bytes sign(int scheme, cspan msg, cspan salt) const = 0;        // PSS: message hashed here, salt given
  virtual bool verify(int scheme, cspan msg, cspan sig) const = 0;
  static std::unique_ptr<RsaBox> make(const Key& k, size_t width);         // width 512, 1024, 2048, 4096
  static size_t width_for(size_t bits) { return bits <= 512 ? 512 : bits <= 1024 ? 1024 : bits <= 2048 ? 2048 : 4096; }
};
} // namespace vf
