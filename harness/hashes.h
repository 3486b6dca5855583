#pragma once
#include "refs.h"
#include <caligo/crc.h>
#include <caligo/md5.h>
#include <caligo/sha1.h>
#include <caligo/sha2.h>
#include <caligo/sha3.h>

namespace vf {
template <typename H> struct HashInfo;
#define VF_HASH(T, NAME, BLOCK, OUT) \
  template <> struct HashInfo<T> { static constexpr const char* name = NAME; static constexpr size_t block = BLOCK, out = OUT; };
VF_HASH(Caligo::MD5, "MD5", 64, 16)
VF_HASH(Caligo::SHA1, "SHA1", 64, 20)
VF_HASH(Caligo::SHA2<224>, "SHA224", 64, 28)
VF_HASH(Caligo::SHA2<256>, "SHA256", 64, 32)
VF_HASH(Caligo::SHA2<384>, "SHA384", 128, 48)
VF_HASH(Caligo::SHA2<512>, "SHA512", 128, 64)
VF_HASH(Caligo::SHA3<224>, "SHA3-224", 144, 28)
VF_HASH(Caligo::SHA3<256>, "SHA3-256", 136, 32)
VF_HASH(Caligo::SHA3<384>, "SHA3-384", 104, 48)
VF_HASH(Caligo::SHA3<512>, "SHA3-512", 72, 64)
VF_HASH(Caligo::CRC32, "CRC32", 64, 4)
#undef VF_HASH
inline constexpr size_t kHashes = 10;   // without CRC-32

// Calls f.template operator()<H>() for the i-th hash.
template <typename F> auto with_hash(size_t i, F&& f) {
  switch (i % kHashes) {
    case 0: return f.template operator()<Caligo::MD5>();
    case 1: return f.template operator()<Caligo::SHA1>();
    case 2: return f.template operator()<Caligo::SHA2<224>>();
    case 3: return f.template operator()<Caligo::SHA2<256>>();
    case 4: return f.template operator()<Caligo::SHA2<384>>();
    case 5: return f.template operator()<Caligo::SHA2<512>>();
    case 6: return f.template operator()<Caligo::SHA3<224>>();
    case 7: return f.template operator()<Caligo::SHA3<256>>();
    case 8: return f.template operator()<Caligo::SHA3<384>>();
    default: return f.template operator()<Caligo::SHA3<512>>();
  }
}

// The hash classes behind one interface; every call goes straight to the class under observation.
struct AnyHash {
  const char* name; size_t block, out;
  AnyHash(const char* n, size_t b, size_t o) : name(n), block(b), out(o) {}
  virtual ~AnyHash() = default;
  virtual void add(cspan d) = 0;
  virtual void add_text(std::string_view d) = 0;
  virtual bytes data() const = 0;        // the array accessor
  virtual bytes converted() const = 0;   // the conversion to std::array
  virtual std::string text() const = 0;  // the conversion to std::string
  virtual size_t hashsize() const = 0;
  virtual std::unique_ptr<AnyHash> clone() const = 0;
  virtual void assign(const AnyHash& o) = 0;
  virtual void restart_with(const std::vector<bytes>& parts) = 0;  // *this = H(parts...)
};
template <typename H> struct HashBox final : AnyHash {
  using I = HashInfo<H>;
  H h;
  HashBox() : AnyHash(I::name, I::block, I::out) {}
  HashBox(const HashBox& o) = default;
  void add(cspan d) override { h.add(d); }
  void add_text(std::string_view d) override { h.add(d); }
  bytes data() const override { auto a = h.data(); return bytes(a.begin(), a.end()); }
  bytes converted() const override { std::array<uint8_t, H::hashsize> a = h; return bytes(a.begin(), a.end()); }
  std::string text() const override { std::string s = h; return s; }
  size_t hashsize() const override { return H::hashsize; }
  std::unique_ptr<AnyHash> clone() const override { return std::make_unique<HashBox>(*this); }
  void assign(const AnyHash& o) override { h = static_cast<const HashBox&>(o).h; }
  void restart_with(const std::vector<bytes>& p) override {
    switch (p.size()) {
      case 0: h = H(); break;
      case 1: h = H(cspan(p[0])); break;
      case 2: h = H(p[0], cspan(p[1])); break;
      case 3: h = H(cspan(p[0]), std::string(p[1].begin(), p[1].end()), p[2]); break;
      default: h = H(p[0], p[1], std::string_view((const char*)p[2].data(), p[2].size()), cspan(p[3])); break;
    }
  }
};
inline std::unique_ptr<AnyHash> make_hash(size_t i) {
  if (i == kHashes) return std::make_unique<HashBox<Caligo::CRC32>>();
  return with_hash(i, []<typename H>() -> std::unique_ptr<AnyHash> { return std::make_unique<HashBox<H>>(); });
}

// Sizes of pieces that together make n bytes, biased to block boundaries.
inline std::vector<size_t> pieces(Rng& r, size_t n, size_t block) {
  std::vector<size_t> out;
  size_t left = n;
  unsigned style = r.below(7);
  while (left) {
    size_t k;
    switch (style) {
      case 0: k = left; break;
      case 1: k = 1; break;
      case 2: k = block; break;
      case 3: k = r.range(1, 2 * block); break;
      case 4: k = block * r.range(1, 3) + r.range(0, 2) - 1; break;
      case 5: k = r.chance(1, 3) ? 0 : r.range(1, left); break;
      default: k = r.below(block + 2); break;
    }
    if (k > left) k = left;
    out.push_back(k);
    left -= k;
    if (out.size() > 5000) style = 0;
  }
  if (r.chance(1, 4)) out.insert(out.begin() + r.below(out.size() + 1), 0);
  return out;
}
// Lengths biased to the neighbourhood of block and padding boundaries.
inline size_t length(Rng& r, size_t block, size_t max = 200000) {
  switch (r.below(6)) {
    case 0: return r.below(3 * block);
    case 1: { size_t k = block * r.range(1, 20), d = r.range(0, 40); return d > 20 ? k + d - 20 : k - std::min(k, d); }
    case 2: return r.below(2000);
    case 3: return r.chance(1, 6) ? r.below(max) : r.below(300);
    case 4: return r.below(20);
    default: return r.below(700);
  }
}
} // namespace vf
