#include "api_part.h"
#include <caligo/aes.h>
#include <caligo/base64.h>
#include <caligo/chacha20.h>
#include <caligo/ctr.h>
#include <caligo/gcm.h>
namespace vf {
using namespace Caligo;
thread_local bool large_inputs = false;
std::span<uint8_t> Call::make(cspan d, bool fixed) {
  auto b = std::make_unique<Buf>();
  b->raw = (uint8_t*)malloc(d.size() + place.shift);
  b->p = b->raw + place.shift; b->n = d.size(); b->fixed = fixed;
  if (!d.empty()) memcpy(b->p, d.data(), d.size());
  if (fixed) b->was.assign(d.begin(), d.end());
  std::span<uint8_t> s(b->p, b->n);
  bufs.push_back(std::move(b));
  return s;
}
void Call::intact() const {
  for (auto& b : bufs) if (b->fixed && b->n && memcmp(b->p, b->was.data(), b->n)) fail("input-changed", "an input of " + std::to_string(b->n) + " bytes was changed from " + hex(b->was) + " to " + hex(cspan(b->p, b->n)));
}

template <size_t K> static void aes_op(Rng& r, Call& c) {
  size_t n = r.chance(1, 8) ? r.below(40) : K / 8;
  AesKeySchedule<K> s(c.in(r.data(n)));
  cspan b = c.in(r.data(16));
  __m128i o = AES<K>::Encrypt(s, _mm_loadu_si128((const __m128i*)b.data()));
  uint8_t t[16]; _mm_storeu_si128((__m128i*)t, o); c.out(cspan(t, 16));
}
template <size_t K> static void gcm_op(Rng& r, Call& c) {
  size_t ivn = r.chance(1, 3) ? r.below(40) : 12;
  bytes key = r.data(K / 8), iv = r.data(ivn);
  GCM<AES<K>> e(key_iv_pair<AES<K>>(c.in(key), c.in(iv))), d(key_iv_pair<AES<K>>(c.in(key), c.in(iv)));
  for (int m = (int)r.range(1, 4); m--;) {
    bytes pt = r.data(len(r)), aad = r.data(len(r));
    auto [ct, tag] = e.Encrypt(c.in(pt), c.in(aad));
    c.out(ct); c.out(tag);
    if (r.chance(1, 5)) tag[r.below(16)] ^= 1;
    auto [back, ok] = d.Decrypt(c.in(ct), c.in(aad), tag);
    c.out(back); c.out(ok);
  }
}
template <size_t K> static void ctr_op(Rng& r, Call& c) {
  CTR<AES<K>> e(key_iv_pair<AES<K>>(c.in(r.data(K / 8)), c.in(r.data(r.chance(1, 10) ? r.below(20) : 16))));
  for (int m = (int)r.range(1, 4); m--;) {
    auto b = c.inout(r.data(len(r)));
    if (r.chance(1, 2)) e.Encrypt(b); else e.Decrypt(b);
    c.out(b); c.out(e.GenerateKeystream(len(r)));
  }
}
static void chacha_op(Rng& r, Call& c) {
  ChaCha20 s(c.in(r.data(r.chance(1, 10) ? r.below(40) : 32)), c.in(r.data(r.chance(1, 10) ? r.below(20) : 12)));
  for (int m = (int)r.range(1, 6); m--;) { auto b = c.inout(r.data(len(r))); if (r.chance(1, 2)) s.Encrypt(b); else s.Decrypt(b); c.out(b); }
}
static void base64_op(Rng& r, Call& c) {
  std::string t = base64(c.in(r.data(len(r))), r.chance(1, 2), r.chance(1, 2), (Base64CharSet)r.below(3));
  c.out(t);
  if (!t.empty() && r.chance(1, 2)) t[r.below(t.size())] = (char)r.u32();
  c.out(base64d(c.text(t)));
  bytes g = r.data(len(r)); c.out(base64d(std::string_view((const char*)c.in(g).data(), g.size())));
}
void add_sized_ciphers(std::vector<SizedOp>& v) {
  auto add = [&](std::string n, std::function<void(Rng&, Call&, size_t)> f) { v.push_back({std::move(n), std::move(f)}); };
  auto gcm = [](Rng& r, Call& c, size_t pn, size_t an, size_t ivn) {
    bytes key = r.raw(32), iv = r.raw(ivn); GCM<AES<256>> e(key_iv_pair<AES<256>>(c.in(key), c.in(iv))), d(key_iv_pair<AES<256>>(c.in(key), c.in(iv)));
    bytes aad = r.raw(an); auto [ct, tag] = e.Encrypt(c.in(r.raw(pn)), c.in(aad)); c.out(ct); c.out(tag); auto [b, ok] = d.Decrypt(c.in(ct), c.in(aad), tag); c.out(b); c.out(ok); };
  add("GCM text", [=](Rng& r, Call& c, size_t n) { gcm(r, c, n, 5, 12); });
  add("GCM associated data", [=](Rng& r, Call& c, size_t n) { gcm(r, c, 5, n, 12); });
  add("GCM IV", [=](Rng& r, Call& c, size_t n) { gcm(r, c, 5, 5, n); });
  add("CTR", [](Rng& r, Call& c, size_t n) { CTR<AES<128>> e(key_iv_pair<AES<128>>(c.in(r.raw(16)), c.in(r.raw(16)))); auto b = c.inout(r.raw(n)); e.Encrypt(b); c.out(b); auto b2 = c.inout(r.raw(n)); e.Decrypt(b2); c.out(b2); c.out(e.GenerateKeystream(n)); });
  add("ChaCha20", [](Rng& r, Call& c, size_t n) { ChaCha20 s(c.in(r.raw(32)), c.in(r.raw(12))); auto b = c.inout(r.raw(n)); s.Encrypt(b); c.out(b); auto b2 = c.inout(r.raw(n)); s.Decrypt(b2); c.out(b2); });
  for (int f = 0; f < 12; f++) add("base64 " + std::to_string(f), [f](Rng& r, Call& c, size_t n) { std::string t = base64(c.in(r.raw(n)), f & 1, f & 2, (Base64CharSet)(f / 4)); c.out(t); c.out(base64d(c.text(t))); });
  add("base64d", [](Rng& r, Call& c, size_t n) { std::string t; for (size_t i = 0; i < n; i++) t += "ABCDabcd0189+/-_,=\n "[r.below(20)]; c.out(base64d(c.text(t))); });
}
void add_ciphers(Ops& v) {
  add(v, "AES-128", aes_op<128>, 6); add(v, "AES-256", aes_op<256>, 6); add(v, "GCM-128", gcm_op<128>, 15); add(v, "GCM-256", gcm_op<256>, 15); add(v, "CTR-128", ctr_op<128>, 8); add(v, "CTR-256", ctr_op<256>, 8);
  add(v, "ChaCha20", chacha_op, 12); add(v, "base64", base64_op, 12);
}
const std::vector<ApiOp>& api_ops() {
  static const std::vector<ApiOp> v = [] { Ops v; add_hashes(v); add_ciphers(v); add_numbers(v); add_x509(v); return v; }();
  return v;
}
const ApiOp& pick_op(Rng& r, bool store) {
  auto& v = api_ops();
  unsigned total = 0; for (auto& o : v) if (store || o.kind != ApiOp::Store) total += o.weight;
  unsigned k = (unsigned)r.below(total);
  for (auto& o : v) if (store || o.kind != ApiOp::Store) { if (k < o.weight) return o; k -= o.weight; }
  return v[0];
}
bytes call(const ApiOp& op, uint64_t seed, Place p) {
  Rng r(seed);
  large_inputs = wants_large(seed);
  Call c(p);
  try { op.run(r, c); } catch (const Violation&) { throw; } catch (const std::exception& e) { c.out(std::string(e.what())); }
  c.intact();
  return std::move(c.result);
}
} // namespace vf
