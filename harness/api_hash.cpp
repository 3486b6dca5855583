#include "api_part.h"
#include "hashes.h"
#include <caligo/aes.h>
#include <caligo/hash.h>
#include <caligo/hkdf.h>
#include <caligo/rsa.h>
namespace vf {
using namespace Caligo;
template <typename H> static void hash_op(Rng& r, Call& c) {
  H h;
  bytes d = r.data(len(r) + (r.chance(1, 6) ? r.below(1500) : 0));
  size_t o = 0;
  for (size_t k : pieces(r, d.size(), HashInfo<H>::block)) {
    cspan p = c.in(cspan(d).subspan(o, k));
    if (r.chance(1, 3)) h.add(std::string_view((const char*)p.data(), p.size())); else h.add(p);
    o += k;
    if (r.chance(1, 10)) { auto a = h.data(); c.out(a); }
    if (r.chance(1, 12)) { H g = h; h = g; }
  }
  std::array<uint8_t, H::hashsize> a = h;
  c.out(a); c.out(std::string(h));
  H two(c.in(d), std::string_view("x")); c.out(two.data());
  c.num(H::MaxLength());
  if constexpr (!std::is_same_v<H, CRC32>) c.out(H::getAsn1Id());
}
template <typename H> static void mac_op(Rng& r, Call& c) {
  c.out(HMAC<H>(c.in(r.data(len(r))), c.in(r.data(len(r)))));
  auto prk = HKDF_Extract<H>(c.in(r.data(len(r))), c.in(r.data(len(r))));
  c.out(HKDF_Expand<H>(c.in(prk), c.in(r.data(len(r) % 120)), large_inputs && r.chance(1, 2) ? r.below(255 * H::hashsize + 1) : r.below(5 * H::hashsize)));
  c.out(HKDF_Expand_Label<H>(c.in(prk), std::string(c.text(std::string(r.below(40), 'l'))), c.in(r.data(r.below(60))), r.below(100)));
  auto hs = HKDF_HandshakeSecret<H>(c.in(r.data(32)));
  bytes th = r.raw(H::hashsize);
  auto k = hs.template get_key_iv<AES<256>>(c.in(th), r.chance(1, 2), true);
  c.out(k.key); c.out(k.iv); c.out(hs.get_finished_key(c.in(th), r.chance(1, 2)));
  auto ms = HKDF_MasterSecret(hs); auto up = HKDF_UpdateSecret(ms);
  c.out(up.data); c.out(exporter_master(ms, c.in(th))); c.out(resumption_master(ms, c.in(th)));
}
template <typename H> static void enc_op(Rng& r, Call& c) {
  c.out(PKCS1<H>(c.in(r.data(len(r))), upto(r, 300)));
  c.out(MGF1<H>::MGF(c.in(r.data(r.below(80))), upto(r, 300)));  c.out(MGF1<H>::MGF(c.in(r.data(len(r))), r.below(100)));
  bytes salt = r.data(20), em = generatePssData<H>(c.in(r.data(len(r))), c.in(salt), upto(r, 300));
  c.out(em); c.out(getSalt<H, 20>(c.in(em)));
}
static void named_op(Rng& r, Call& c) {
  static const std::vector<std::string> names = {"md5", "sha1", "sha224", "sha256", "sha384", "sha512", "sha2-224", "sha2-256", "sha2-384", "sha2-512", "sha3-224", "sha3-256", "sha3-384", "sha3-512", "sha-1", "", "sha4", "MD5"};
  Hash h(c.text(r.pick(names)));
  h.add(c.in(r.data(len(r)))); h.add(c.text("abc"));
  c.out(h.data()); c.out(std::string(h)); c.num(h.hashsize()); c.num(h.MaxLength()); c.out(h.getAsn1Id());
}

const std::vector<SizedOp>& sized_ops() {
  static const std::vector<SizedOp> v = [] {
    std::vector<SizedOp> v;
    auto add = [&](std::string n, std::function<void(Rng&, Call&, size_t)> f, size_t max = ~(size_t)0) { v.push_back({std::move(n), std::move(f), max}); };
    for (size_t i = 0; i < kHashes; i++) with_hash(i, [&]<typename H>() {
      std::string n = HashInfo<H>::name;
      add(n + " message", [](Rng& r, Call& c, size_t n) { H h; h.add(c.in(r.raw(n))); c.out(h.data()); });
      add(n + " second piece", [](Rng& r, Call& c, size_t n) { H h; h.add(c.in(r.raw(r.below(200)))); h.add(c.in(r.raw(n))); h.add(c.in(r.raw(3))); c.out(h.data()); });
      add("HMAC key " + n, [](Rng& r, Call& c, size_t n) { c.out(HMAC<H>(c.in(r.raw(9)), c.in(r.raw(n)))); });
      add("HMAC text " + n, [](Rng& r, Call& c, size_t n) { c.out(HMAC<H>(c.in(r.raw(n)), c.in(r.raw(9)))); });
      add("HKDF info " + n, [](Rng& r, Call& c, size_t n) { c.out(HKDF_Expand<H>(c.in(r.raw(H::hashsize)), c.in(r.raw(n)), 3 * H::hashsize - 1)); });
      add("HKDF output " + n, [](Rng& r, Call& c, size_t n) { c.out(HKDF_Expand<H>(c.in(r.raw(H::hashsize)), c.in(r.raw(5)), n)); }, 255 * H::hashsize);
      add("PKCS1 message " + n, [](Rng& r, Call& c, size_t n) { c.out(PKCS1<H>(c.in(r.raw(n)), 200)); });
      add("PKCS1 size " + n, [](Rng& r, Call& c, size_t n) { c.out(PKCS1<H>(c.in(r.raw(7)), n)); });
      add("MGF1 seed " + n, [](Rng& r, Call& c, size_t n) { c.out(MGF1<H>::MGF(c.in(r.raw(n)), 150)); });
      add("MGF1 length " + n, [](Rng& r, Call& c, size_t n) { c.out(MGF1<H>::MGF(c.in(r.raw(33)), n)); });
      add("PSS size " + n, [](Rng& r, Call& c, size_t n) { bytes em = generatePssData<H>(c.in(r.raw(H::hashsize)), c.in(r.raw(20)), n); c.out(em); c.out(getSalt<H, 20>(c.in(em))); c.out(getSalt<H, 20>(c.in(r.raw(n)))); });
    });
    add("CRC32", [](Rng& r, Call& c, size_t n) { CRC32 h; h.add(c.in(r.raw(n))); c.out(h.data()); });
    add_sized_ciphers(v);
    return v; }();
  return v;
}
void add_hashes(Ops& v) {
  for (size_t i = 0; i < kHashes; i++) with_hash(i, [&]<typename H>() {
    std::string n = HashInfo<H>::name;
    add(v, n, hash_op<H>, 8); add(v, "HMAC/HKDF " + n, mac_op<H>, 4); add(v, "encodings " + n, enc_op<H>, 4); });
  add(v, "CRC32", hash_op<CRC32>, 6); add(v, "Hash by name", named_op, 10);
}
} // namespace vf
