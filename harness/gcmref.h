// AES-GCM and AES-CTR models on OpenSSL's AES-ECB, with own GF(2^128) arithmetic (also inverses, to choose counter blocks).
#pragma once
#include "refs.h"

namespace ref {
using u128 = unsigned __int128;
// A block as polynomial: bit 127 of the integer is the coefficient of x^0 (SP 800-38D order).
inline u128 load(const uint8_t* p) { u128 v = 0; for (int i = 0; i < 16; i++) v = (v << 8) | p[i]; return v; }
inline void store(uint8_t* p, u128 v) { for (int i = 15; i >= 0; i--) { p[i] = (uint8_t)v; v >>= 8; } }
inline u128 gmul(u128 x, u128 y) {
  u128 z = 0, v = y;
  const u128 R = (u128)0xe1 << 120;
  for (int i = 127; i >= 0; i--) {
    if ((x >> i) & 1) z ^= v;
    v = (v & 1) ? (v >> 1) ^ R : v >> 1;
  }
  return z;
}
inline u128 ginv(u128 x) {  // x^(2^128-2)
  u128 r = (u128)1 << 127, s = x;
  for (int i = 1; i < 128; i++) { s = gmul(s, s); r = gmul(r, s); }
  return r;
}
inline u128 ghash(u128 h, cspan aad, cspan ct) {
  u128 y = 0;
  auto absorb = [&](cspan d) {
    for (size_t o = 0; o < d.size(); o += 16) {
      uint8_t b[16] = {};
      memcpy(b, d.data() + o, std::min<size_t>(16, d.size() - o));
      y = gmul(y ^ load(b), h);
    }
  };
  absorb(aad); absorb(ct);
  return gmul(y ^ ((u128)(uint64_t)(aad.size() * 8) << 64 | (uint64_t)(ct.size() * 8)), h);
}
inline u128 hash_key(cspan key) { bytes z(16, 0), e = aes_ecb(key, z); return load(e.data()); }
inline u128 j0(cspan key, cspan iv) {
  if (iv.size() == 12) { uint8_t b[16] = {}; memcpy(b, iv.data(), 12); b[15] = 1; return load(b); }
  return ghash(hash_key(key), {}, iv);
}
// The 16-byte IV whose derived initial counter block is `want`.
inline bytes iv_for_counter_block(cspan key, u128 want) {
  u128 h = hash_key(key), hi = ginv(h);
  u128 t = gmul(want, hi) ^ (u128)128;      // before the length block
  bytes iv(16);
  store(iv.data(), gmul(t, hi));
  return iv;
}
inline u128 with_message_number(u128 block, uint64_t n) { return block ^ ((u128)n << 32); }
inline u128 inc32(u128 b, uint32_t k) { return (b & ~(u128)0xffffffff) | (uint32_t)((uint32_t)b + k); }
// XORs `data` with the keystream of counter blocks first, first+1, ... (32-bit increments).
inline bytes ctr32(cspan key, u128 first, cspan data) {
  size_t nb = (data.size() + 15) / 16;
  bytes c(nb * 16);
  for (size_t i = 0; i < nb; i++) store(&c[16 * i], inc32(first, (uint32_t)i));
  bytes ks = aes_ecb(key, c), out(data.begin(), data.end());
  for (size_t i = 0; i < out.size(); i++) out[i] ^= ks[i];
  return out;
}
struct Sealed { bytes ct; std::array<uint8_t, 16> tag; };
inline Sealed gcm_block(cspan key, u128 j, cspan pt, cspan aad) {
  Sealed s;
  s.ct = ctr32(key, inc32(j, 1), pt);
  u128 t = ghash(hash_key(key), aad, s.ct);
  bytes jb(16); store(jb.data(), j);
  bytes e = aes_ecb(key, jb);
  store(s.tag.data(), t ^ load(e.data()));
  return s;
}
// The n-th message of a Caligo GCM object.
inline Sealed gcm(cspan key, cspan iv, uint64_t n, cspan pt, cspan aad) { return gcm_block(key, with_message_number(j0(key, iv), n), pt, aad); }
// OpenSSL's own GCM, for messages whose nonce can be given to it.
Sealed gcm_openssl(cspan key, cspan iv, cspan pt, cspan aad);
} // namespace ref
