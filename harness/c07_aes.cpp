// C07: AES block encryption against OpenSSL; refusal of wrong key sizes, observed with guard pages.
#include "refs.h"
#include <caligo/aes.h>
using namespace vf;

template <size_t bits> static bytes caligo(cspan key, cspan block) {
  Caligo::AesKeySchedule<bits> ks(key);
  __m128i b = _mm_loadu_si128((const __m128i*)block.data());
  __m128i c = Caligo::AES<bits>::Encrypt(ks, b), d = Caligo::AesEncrypt(ks, b);
  bytes r(16), s(16);
  _mm_storeu_si128((__m128i*)r.data(), c);
  _mm_storeu_si128((__m128i*)s.data(), d);
  if (r != s) fail("aes-entry-points-disagree", hex(key));
  return r;
}
static bytes enc(size_t bits, cspan key, cspan block) { return bits == 128 ? caligo<128>(key, block) : caligo<256>(key, block); }

static void blocks(Rng& r, uint64_t i) {
  size_t bits = i % 2 ? 128 : 256;
  for (int k = 0; k < 3000; k++) {
    bytes key, block;
    switch (r.below(4)) {
      case 0: key = r.data(bits / 8); block = r.data(16); break;
      case 1: key = bytes(bits / 8, 0); key[r.below(key.size())] = uint8_t(1 << r.below(8)); block = bytes(16, 0); break;
      case 2: key = r.raw(bits / 8); block = bytes(16, 0); block[r.below(16)] = uint8_t(1 << r.below(8)); break;
      default: key = r.raw(bits / 8); block = r.raw(16);
    }
    bytes want = ref::aes_ecb(key, block);
    bytes buf(r.below(16)); size_t off = buf.size();
    buf.insert(buf.end(), key.begin(), key.end());
    require_same(enc(bits, cspan(buf).subspan(off), block), want, "aes" + std::to_string(bits), [&] { return "key=" + hex(key) + " block=" + hex(block); });
    observed("aes" + std::to_string(bits) + "/" + std::to_string(key[0]) + "/" + std::to_string(block[0]) + "/" + std::to_string(off));
    count("blocks AES-" + std::to_string(bits));
    sample([&] { return "AES-" + std::to_string(bits) + " key=" + hex(key) + " " + hex(block) + " -> " + hex(want); });
  }
  // one schedule used for many blocks keeps giving the same function
  bytes key = r.raw(bits / 8);
  bytes data = r.raw(16 * 500), want = ref::aes_ecb(key, data), got;
  auto many = [&]<size_t B>() {
    Caligo::AesKeySchedule<B> ks(key);
    for (size_t o = 0; o < data.size(); o += 16) {
      __m128i c = Caligo::AES<B>::Encrypt(ks, _mm_loadu_si128((const __m128i*)(data.data() + o)));
      bytes t(16); _mm_storeu_si128((__m128i*)t.data(), c); got.insert(got.end(), t.begin(), t.end());
    }
  };
  if (bits == 128) many.template operator()<128>(); else many.template operator()<256>();
  require_same(got, want, "aes-schedule-reuse", [&] { return "key=" + hex(key); });
  observed("reuse", 500);
}
static void sizes(Rng& r, uint64_t i) {
  size_t bits = i % 2 ? 128 : 256;
  for (size_t j = 0; j <= 1100; j++) {
    size_t n = j; if (j > 600) n = r.chance(1, 2) ? 8 * r.below(1 << 13) : r.below(1 << 16);   // every size to 600, larger ones at random
    if (j > 600 && j < 612) n = (size_t)(j % 2 ? 16 : 32) + ((size_t)1 << (8 + (j - 601) / 2 * 2)) * (j % 3 ? 1 : 3);
    if (n == bits / 8) { Guarded g(r.raw(n)), b(r.raw(16)); require_same(enc(bits, g.get(), b.get()), ref::aes_ecb(g.get(), b.get()), "aes-guarded", [&] { return "size " + std::to_string(n); }); continue; }
    Guarded g(r.data(n), r.chance(1, 2)), b(r.raw(16));
    bool threw = false;
    try { enc(bits, g.get(), b.get()); } catch (const Violation&) { throw; } catch (const std::exception&) { threw = true; }
    require(threw, "aes-wrong-key-size-accepted", [&] { return "AES-" + std::to_string(bits) + " accepted a key of " + std::to_string(n) + " bytes"; });
    count("wrong key sizes refused");
    observed("size/" + std::to_string(bits) + "/" + std::to_string(n < 600 ? n : 600 + __builtin_clzll(n)));
  }
}
VF_MAIN({ {"blocks", 1680, 6000, blocks}, {"sizes", 16, 40, sizes} })
