// C20: PKCS#1 v1.5 blocks, digest identifiers, MGF1 and PSS encodings against an RFC 8017 reference.
#include "hashes.h"
#include "rsaref.h"
#include <caligo/rsa.h>
#include <sys/mman.h>
using namespace vf;

template <typename H> static void pkcs1(Rng& r, size_t mlen) {
  using I = HashInfo<H>;
  bytes id = H::getAsn1Id(), want = rfc8017::digest_info(I::name);
  require_same(id, want, "digest-identifier", [] { return std::string(I::name); });
  bytes m = r.data(mlen);
  size_t min = want.size() + I::out + 11;
  for (size_t len : {min, min + 1, min + (size_t)r.below(5), min + (size_t)r.below(600), (size_t)256, (size_t)512}) {
    if (len < min) continue;
    require_same(Caligo::PKCS1<H>(m, len), rfc8017::pkcs1(I::name, m, len), "pkcs1-block", [&] { return std::string(I::name) + " size=" + std::to_string(len) + " message of " + std::to_string(mlen) + " bytes " + hex(m); });
    observed(std::string("pkcs1/") + I::name + "/" + std::to_string(mlen < 300 ? mlen : 300 + mlen / 20000) + "/" + std::to_string(len % 64)); count("PKCS#1 blocks");
  }
  for (size_t len : {(size_t)0, (size_t)1, (size_t)10, want.size() + I::out, min - 1, (size_t)r.below(min)}) {
    bytes b = Caligo::PKCS1<H>(m, len);
    require(b.empty(), "pkcs1-block-too-small", [&] { return std::string(I::name) + " size=" + std::to_string(len) + " gives " + hex(b); });
    observed(std::string("small/") + I::name + "/" + std::to_string(len)); count("insufficient sizes");
  }
}
static void blocks(Rng& r, uint64_t i) {
  static const size_t edge[] = {0, 1, 126, 127, 128, 129, 254, 255, 256, 257, 65534, 65535, 65536, 65537};
  for (size_t h = 0; h < kHashes; h++) with_hash(h, [&]<typename H>() { pkcs1<H>(r, i < 14 ? edge[i] : r.chance(1, 5) ? r.below(100000) : r.below(700)); });
  sample([] { return std::string("PKCS#1 blocks and identifiers of ten hashes"); });
}
static void long_messages(Rng& r, uint64_t i) {
  static const size_t n[] = {(1 << 24) - 1, 1 << 24, (1 << 24) + 5};
  with_hash(i, [&]<typename H>() {
    bytes m = r.raw(n[i % 3]); size_t len = 256;
    require_same(Caligo::PKCS1<H>(m, len), rfc8017::pkcs1(HashInfo<H>::name, m, len), "pkcs1-block", [&] { return std::string(HashInfo<H>::name) + " message of " + std::to_string(m.size()) + " bytes"; });
    observed(std::string("long/") + HashInfo<H>::name); count("messages of 2^24 bytes");
  });
}
// Messages whose length takes 29 and more than 32 bits; the pages are mostly the shared zero page.
static void enormous(Rng& r, uint64_t i) {
  size_t n = i == 0 ? ((size_t)1 << 32) + r.below(1000) : ((size_t)1 << 28) + (r.chance(1, 2) ? r.below(1000) : r.below(1u << 28));
  uint8_t* p = (uint8_t*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { count("messages that could not be mapped"); observed("nomap"); return; }
  for (int k = 0; k < 50; k++) p[r.below(n)] = (uint8_t)r.u64();
  p[0] = p[n - 1] = 0x5a;
  with_hash(i == 0 ? 1 : i, [&]<typename H>() {
    using I = HashInfo<H>;
    ref::Digest d(I::name);
    bytes head{0x30, (uint8_t)(n >> 32 ? 0x85 : 0x84)}; for (int b = n >> 32 ? 4 : 3; b >= 0; b--) head.push_back((uint8_t)(n >> (8 * b)));
    d.add(head); d.add(cspan(p, n));
    require_same(Caligo::PKCS1<H>(cspan(p, n), 256), rfc8017::pkcs1_of_digest(I::name, d.get(), 256), "pkcs1-block", [&] { return std::string(I::name) + " message of " + std::to_string(n) + " bytes"; });
    observed(std::string("enormous/") + I::name + "/" + std::to_string(64 - __builtin_clzll(n))); count("messages of 2^28 to 2^32 bytes");
  });
  munmap(p, n);
}
static void mgf(Rng& r, uint64_t) {
  for (size_t h = 0; h < kHashes; h++) with_hash(h, [&]<typename H>() {
    using I = HashInfo<H>;
    for (int k = 0; k < 6; k++) {
      bytes seed = r.data(r.chance(1, 3) ? I::out : r.below(200)); size_t len = k == 0 ? r.below(3) : k == 1 ? I::out * r.below(5) + r.below(3) : k == 2 && r.chance(1, 3) ? I::out * 256 + r.below(300) : r.below(1500);
      Guarded g(seed, r.chance(1, 2));
      require_same(Caligo::MGF1<H>::MGF(g.get(), len), rfc8017::mgf1(I::name, seed, len), "mgf1", [&] { return std::string(I::name) + " seed=" + hex(seed) + " length=" + std::to_string(len); });
      require(Caligo::MGF1<H>::hashsize == I::out, "mgf1-hashsize", [] { return std::string(I::name); });
      observed(std::string("mgf/") + I::name + "/" + std::to_string(len % I::out) + "/" + std::to_string(len / I::out) + "/" + std::to_string(seed.size() % 8)); count("masks");
    }
  });
}
static void mgf_long(Rng& r, uint64_t i) {
  with_hash(i, [&]<typename H>() {
    using I = HashInfo<H>; bytes seed = r.raw(I::out); size_t len = I::out * (65536 + r.below(600)) + r.below(I::out);
    require_same(Caligo::MGF1<H>::MGF(seed, len), rfc8017::mgf1(I::name, seed, len), "mgf1", [&] { return std::string(I::name) + " seed=" + hex(seed) + " length=" + std::to_string(len); });
    observed(std::string("mgf-long/") + I::name); count("masks past 2^16 blocks");
  });
}
// Masks of more than 2^24 blocks: the counter's bytes seen at every order of size, blocks near the carries and at random.
static void mgf_huge(Rng& r, uint64_t i) {
  static const size_t which[] = {1, 0, 3};
  with_hash(which[i % 3], [&]<typename H>() {
    using I = HashInfo<H>; bytes seed = r.raw(r.range(4, 40)); size_t blocks = ((size_t)1 << 24) + r.range(2, 600), len = I::out * blocks - r.below(I::out);
    bytes got = Caligo::MGF1<H>::MGF(seed, len);
    require(got.size() == len, "mgf1", [&] { return std::string(I::name) + " asked for " + std::to_string(len) + " bytes, got " + std::to_string(got.size()); });
    auto block = [&](size_t b) {
      bytes s = seed; for (int k = 3; k >= 0; k--) s.push_back((uint8_t)(b >> (8 * k)));
      bytes want = ref::digest(I::name, s); size_t n = std::min<size_t>(I::out, len - b * I::out); want.resize(n);
      require_same(cspan(got.data() + b * I::out, n), want, "mgf1", [&] { return std::string(I::name) + " seed=" + hex(seed) + " length=" + std::to_string(len) + " block " + std::to_string(b); });
      observed(std::string("mgf-huge/") + I::name + "/" + std::to_string(64 - __builtin_clzll(b | 1)) + "/" + std::to_string(b & 3));
    };
    for (size_t b = 0; b < 600; b++) { block(b); block(blocks - 1 - b); }
    for (unsigned p = 10; p <= 24; p++) for (size_t b = ((size_t)1 << p) - 3; b < ((size_t)1 << p) + 3 && b < blocks; b++) block(b);
    for (int k = 0; k < 60000; k++) block(r.below(blocks));
    count("masks past 2^24 blocks");
  });
}
template <typename H, size_t S> static void salt(Rng& r, size_t len) {
  using I = HashInfo<H>;
  bytes mh = r.data(I::out), s = r.data(S), em = rfc8017::pss(I::name, mh, s, 8 * len);
  auto ctx = [&] { return std::string(I::name) + " salt=" + hex(s) + " hash=" + hex(mh) + " size=" + std::to_string(len); };
  bytes got = Caligo::generatePssData<H>(mh, s, len);
  require_same(got, em, "pss-encoding", ctx);
  if (S == I::out) require_same(Caligo::generatePssData<H>(s, s, len), rfc8017::pss(I::name, s, s, 8 * len), "pss-encoding", [&] { return ctx() + " salt and hash the same memory"; });
  if (em.empty()) { bytes b = r.raw(len), x = Caligo::getSalt<H, S>(b); require(x.empty(), "pss-salt-too-small", ctx); }
  else { Guarded g(em, r.chance(1, 2)); require_same(Caligo::getSalt<H, S>(g.get()), s, "pss-salt", ctx); }
  observed(std::string("pss/") + I::name + "/" + std::to_string(S) + "/" + std::to_string(len), 2); count(em.empty() ? "insufficient sizes" : "PSS encodings");
}
template <typename H> static void pss_of(Rng& r) {
  size_t o = HashInfo<H>::out;
  for (int k = 0; k < 6; k++) {
    auto len = [&](size_t s) { return k == 0 ? o + s + 2 : k == 1 ? o + s + 1 : k == 2 ? (size_t)r.below(o + s + 2) : o + s + 2 + r.below(k == 3 ? 4 : 500); };
    salt<H, 0>(r, len(0)); salt<H, 20>(r, len(20)); salt<H, 32>(r, len(32)); salt<H, H::hashsize>(r, len(o)); salt<H, 137>(r, len(137));
    bytes m = r.data(r.below(300)), s = r.data(r.below(200)); size_t l = o + s.size() + 2 + r.below(300);
    require_same(Caligo::generatePssData<H>(m, s, l), [&] { bytes mp(8, 0); mp.insert(mp.end(), m.begin(), m.end()); mp.insert(mp.end(), s.begin(), s.end()); bytes Hh = ref::digest(HashInfo<H>::name, mp), db(l - o - 1, 0); db[db.size() - s.size() - 1] = 1; std::copy(s.begin(), s.end(), db.end() - s.size()); bytes mk = rfc8017::mgf1(HashInfo<H>::name, Hh, db.size()); for (size_t j = 0; j < db.size(); j++) db[j] ^= mk[j]; db.insert(db.end(), Hh.begin(), Hh.end()); db.push_back(0xbc); return db; }(), "pss-encoding", [&] { return std::string(HashInfo<H>::name) + " data=" + hex(m) + " salt=" + hex(s) + " size=" + std::to_string(l); });
    observed(std::string("pssg/") + HashInfo<H>::name + "/" + std::to_string(s.size())); count("PSS encodings");
  }
}
static void pss(Rng& r, uint64_t) { for (size_t h = 0; h < kHashes; h++) with_hash(h, [&]<typename H>() { pss_of<H>(r); }); }
// Messages, masks, seeds and encodings of every order of size.
static void sizes(Rng& r, uint64_t i) {
  with_hash(i, [&]<typename H>() {
    using I = HashInfo<H>;
    for (int k = 0; k < 4; k++) {
      bytes m = r.raw(biglen(r, k ? 20 : 23)); size_t len = rfc8017::digest_info(I::name).size() + I::out + 11 + (r.chance(1, 2) ? r.below(400) : biglen(r, 17));
      require_same(Caligo::PKCS1<H>(m, len), rfc8017::pkcs1(I::name, m, len), "pkcs1-block", [&] { return std::string(I::name) + " message of " + std::to_string(m.size()) + " bytes, size=" + std::to_string(len); });
      bytes seed = r.raw(k == 3 ? biglen(r, 19) : r.chance(1, 3) ? biglen(r, 14) : r.below(200)); size_t ml = seed.size() > 20000 ? r.below(5 * I::out) : biglen(r, seed.size() > 1000 ? 14 : 18);
      require_same(Caligo::MGF1<H>::MGF(seed, ml), rfc8017::mgf1(I::name, seed, ml), "mgf1", [&] { return std::string(I::name) + " seed of " + std::to_string(seed.size()) + " bytes, length=" + std::to_string(ml); });
      bytes mh = r.raw(I::out), s = r.raw(r.chance(1, 2) ? r.below(400) : biglen(r, 14)); size_t el = I::out + s.size() + 2 + (r.chance(1, 2) ? r.below(600) : biglen(r, 15));
      bytes em = rfc8017::pss(I::name, mh, s, 8 * el);
      require_same(Caligo::generatePssData<H>(mh, s, el), em, "pss-encoding", [&] { return std::string(I::name) + " salt of " + std::to_string(s.size()) + " bytes, size=" + std::to_string(el); });
      bytes s2 = r.raw(I::out); el = 2 * I::out + 2 + biglen(r, 15); em = rfc8017::pss(I::name, mh, s2, 8 * el);
      Guarded g(em, r.chance(1, 2));
      require_same(Caligo::getSalt<H, H::hashsize>(g.get()), s2, "pss-salt", [&] { return std::string(I::name) + " size=" + std::to_string(el); });
      observed(std::string("size/") + I::name + "/" + std::to_string(64 - __builtin_clzll(m.size())) + "/" + std::to_string(64 - __builtin_clzll(ml)) + "/" + std::to_string(64 - __builtin_clzll(el)), 4); count("large messages, masks and encodings", 4);
    }
  });
}
VF_MAIN({ {"enormous", 2, 10, enormous, 200}, {"mgf-huge", 1, 6, mgf_huge, 200}, {"sizes", 80, 1500, sizes}, {"long", 10, 30, long_messages}, {"mgf-long", 10, 40, mgf_long}, {"blocks", 360, 6000, blocks}, {"mgf", 600, 6000, mgf}, {"pss", 400, 4000, pss} })
