// C27: secrets are marked undefined for memcheck, which then reports every branch and address computed from them.
// Built with the project's own optimisation flags, so that it is the real machine code that is observed.
#include "hashes.h"
#include "rsaref.h"
#include <caligo/aes.h>
#include <caligo/chacha20.h>
#include <caligo/ctr.h>
#include <caligo/gcm.h>
#include <caligo/hash.h>
#include <caligo/hkdf.h>
#include <caligo/rsa.h>
#include <caligo/x25519.h>
#include <caligo/X509Certificate.h>
#include <valgrind/memcheck.h>
using namespace vf;
using namespace Caligo;

static void hide(void* p, size_t n) { if (n) VALGRIND_MAKE_MEM_UNDEFINED(p, n); }
static void show(const void* p, size_t n) { if (n) VALGRIND_MAKE_MEM_DEFINED(p, n); }
static bytes hidden(Rng& r, size_t n) { bytes b = r.data(n); hide(b.data(), n); return b; }
static void reveal(bytes& b) { show(b.data(), b.size()); }
// What came out must really have depended on the secret: otherwise nothing was observed.
static bool tainted(const void* p, size_t n) {
  static uint8_t v[8192];
  for (size_t i = 0; i < n; i += sizeof v) { size_t k = std::min(sizeof v, n - i); if (VALGRIND_GET_VBITS((const uint8_t*)p + i, v, k) == 1) for (size_t j = 0; j < k; j++) if (v[j]) return true; }
  return false;
}
static void expect_tainted(bool t, const char* what) {
  if (!t) count(std::string("outputs without secrets in ") + what); else count(std::string("secret-dependent outputs of ") + what);
}
static size_t len(Rng& r) { if (r.chance(1, 24)) return biglen(r, 14); switch (r.below(5)) { case 0: return r.below(5); case 1: return 16 * r.below(6) + r.below(3); case 2: return r.below(260); case 3: return 64 * r.range(1, 4) + r.below(17) - 8; default: return r.below(70); } }

template <size_t K> static void aes_one(Rng& r) {
  bytes k = hidden(r, K / 8), b = hidden(r, 16);
  AesKeySchedule<K> s{cspan(k)};
  uint8_t t[16]; _mm_storeu_si128((__m128i*)t, AES<K>::Encrypt(s, _mm_loadu_si128((const __m128i*)b.data())));
  expect_tainted(tainted(t, 16), "AES");
  observed("aes" + std::to_string(K));
}
template <size_t K> static void gcm_one(Rng& r) {
  size_t ivn = r.chance(1, 2) ? 12 : r.pick(std::vector<size_t>{8, 13, 16, 17, 32, 40});
  bytes k = hidden(r, K / 8), iv = r.data(ivn);
  if (r.chance(1, 4)) std::fill(iv.begin(), iv.end(), 0xff);
  GCM<AES<K>> e(key_iv_pair<AES<K>>{cspan(k), cspan(iv)}), d(key_iv_pair<AES<K>>{cspan(k), cspan(iv)});
  // The counter block is public: it is made of the IV and the message's position.
  if constexpr (requires { show(e.iv.data(), e.iv.size()); }) { show(e.iv.data(), e.iv.size()); show(d.iv.data(), d.iv.size()); }
  else if (ivn != 12) return;
  for (int m = (int)r.range(1, 3); m--;) {
    size_t n = r.chance(1, 12) ? 16 * 260 + r.below(20) : len(r), an = len(r);
    bytes pt = hidden(r, n), aad = r.data(an);
    auto [ct, tag] = e.Encrypt(pt, aad);
    expect_tainted(tainted(tag.data(), 16), "GCM encryption");
    reveal(ct); show(tag.data(), 16);
    bytes forged = r.raw(16); std::array<uint8_t, 16> t = tag;
    bool ruin = r.chance(1, 3); if (ruin) memcpy(t.data() + r.below(16), forged.data(), 1);
    auto [back, ok] = d.Decrypt(ct, aad, t);
    expect_tainted(tainted(&ok, 1), "GCM verdicts");
    show(&ok, sizeof ok);
    observed("gcm" + std::to_string(K) + "/" + std::to_string(ivn) + "/" + std::to_string(n) + "/" + std::to_string(an % 16) + (ok ? "ok" : "bad"));
  }
}
template <size_t K> static void ctr_one(Rng& r) {
  bytes k = hidden(r, K / 8), iv = r.data(16);
  CTR<AES<K>> e(key_iv_pair<AES<K>>{cspan(k), cspan(iv)});
  for (int m = (int)r.range(1, 3); m--;) {
    bytes b = hidden(r, len(r));
    if (r.chance(1, 2)) e.Encrypt(b); else e.Decrypt(b);
    expect_tainted(b.empty() || tainted(b.data(), b.size()), "CTR");
    observed("ctr" + std::to_string(K) + "/" + std::to_string(b.size()));
  }
}
static void ciphers(Rng& r, uint64_t) {
  for (int k = 0; k < 4; k++) { aes_one<128>(r); aes_one<256>(r); gcm_one<128>(r); gcm_one<256>(r); ctr_one<128>(r); ctr_one<256>(r); }
  for (int k = 0; k < 6; k++) {
    bytes key = hidden(r, 32), nonce = r.data(12);
    ChaCha20 s{cspan(key), cspan(nonce)};
    for (int m = (int)r.range(1, 4); m--;) { bytes b = hidden(r, len(r)); if (r.chance(1, 2)) s.Encrypt(b); else s.Decrypt(b); expect_tainted(b.empty() || tainted(b.data(), b.size()), "ChaCha20"); observed("chacha/" + std::to_string(b.size())); }
  }
  sample([&] { return "secret keys and texts through AES, GCM, CTR and ChaCha20"; });
}
template <typename H> static void hash_one(Rng& r, const char* n) {
  H h;
  size_t total = len(r) + (r.chance(1, 4) ? r.below(600) : 0);
  for (size_t k : pieces(r, total, HashInfo<H>::block)) { bytes d = hidden(r, k); h.add(cspan(d)); }
  auto a = h.data();
  expect_tainted(total == 0 || tainted(a.data(), a.size()), "hashes");
  observed(std::string(n) + "/" + std::to_string(total % HashInfo<H>::block));
}
template <typename H> static void mac_one(Rng& r, const char* n) {
  bytes key = hidden(r, r.chance(1, 3) ? len(r) : H::hashsize), msg = hidden(r, len(r));
  auto a = HMAC<H>(msg, key);
  expect_tainted(key.empty() || tainted(a.data(), a.size()), "HMAC");
  bytes salt = hidden(r, len(r)), ikm = hidden(r, 32), info = r.data(r.below(50)), th = r.raw(H::hashsize);
  auto prk = HKDF_Extract<H>(salt, ikm);
  auto okm = HKDF_Expand<H>(prk, info, r.below(3 * H::hashsize));
  auto hs = HKDF_HandshakeSecret<H>(ikm);
  auto kv = hs.template get_key_iv<AES<256>>(th, r.chance(1, 2), true);
  expect_tainted(tainted(kv.key.data(), kv.key.size()), "TLS key schedule");
  auto fin = hs.get_finished_key(th, true);
  auto ms = HKDF_MasterSecret(hs); auto up = HKDF_UpdateSecret(ms);
  auto ex = exporter_master(ms, th), re = resumption_master(ms, th);
  expect_tainted(tainted(up.data.data(), up.data.size()) && tainted(ex.data(), ex.size()) && tainted(re.data(), re.size()) && tainted(fin.data(), fin.size()) , "TLS key schedule");
  observed(std::string("mac ") + n + "/" + std::to_string(key.size()) + "/" + std::to_string(msg.size() % 64));
}
static void hashes(Rng& r, uint64_t) {
  for (size_t i = 2; i < kHashes; i++) with_hash(i, [&]<typename H>() { for (int k = 0; k < 3; k++) hash_one<H>(r, HashInfo<H>::name); mac_one<H>(r, HashInfo<H>::name); });
  sample([&] { return "secret messages and keys through SHA-2, SHA-3, HMAC and HKDF"; });
}
static void x25519(Rng& r, uint64_t) {
  bytes k = hidden(r, 32), u = r.data(32);
  bool both = r.chance(1, 3);
  if (both) hide(u.data(), 32);
  ec_value K{bignum<256>(cspan(k))}, U{bignum<256>(cspan(u))};
  bytes s = X25519(K, U).as_bytes();
  expect_tainted(tainted(s.data(), s.size()), "X25519");
  reveal(s);
  observed("x25519/" + std::to_string(both) + "/" + hex(cspan(s).first(1)));
  sample([&] { return "X25519 with a secret scalar, result " + hex(s); });
}
template <size_t N> static void rsa_one(Rng& r, const Key& key) {
  bytes d = toBytesBE(key.d, N / 8); std::reverse(d.begin(), d.end());
  if (r.chance(1, 2)) { d = r.data(N / 8); }
  hide(d.data(), d.size());
  rsa_private_key<N> k(fromZ<N>(key.n), bignum<N>(cspan(d)));
  bytes m = r.data(N / 8); if (r.chance(1, 2)) hide(m.data(), m.size());
  bytes out;
  switch (r.below(3)) {
    case 0: out = k.rsadp(bignum<N>(cspan(m))).as_bytes(); break;
    case 1: out = k.template signPkcs1_5Signature<SHA2<256>>(r.raw(20)); break;
    default: { bytes h = r.raw(32), salt = hidden(r, key.bits >= 800 ? 32 : 8); out = k.template signPssSignature<SHA2<256>, MGF1<SHA2<256>>>(h, salt); }
  }
  expect_tainted(out.empty() || tainted(out.data(), out.size()), "RSA");
  observed("rsa" + std::to_string(N) + "/" + std::to_string(key.bits) + "/" + std::to_string(out.size()));
  sample([&] { return "RSA private operation of " + std::to_string(key.bits) + " bits with a secret exponent"; });
}
static void rsa(Rng& r, uint64_t j) {
  if (j % 8 == 7) rsa_one<1024>(r, key_where(r, [](const Key& k) { return k.bits > 700 && k.bits <= 1024; }));
  else rsa_one<512>(r, key_where(r, [](const Key& k) { return k.bits <= 512; }));
}
// The key a parsed PEM file gives: 4096 bits wide whatever the modulus.
static void rsa_parsed(Rng& r, uint64_t j) {
  const Key& key = key_where(r, [](const Key& k) { return k.bits > 1024 && k.bits <= 4096; });
  bytes d = toBytesBE(key.d, 512); std::reverse(d.begin(), d.end());
  hide(d.data(), d.size());
  RsaPrivateKey k(rsa_private_key<4096>(fromZ<4096>(key.n), bignum<4096>(cspan(d))));
  bytes out = static_cast<PrivateKey&>(k).sign(j & 1 ? (Tls13SignatureScheme)0x804 : (Tls13SignatureScheme)0x401, r.raw(40));
  expect_tainted(tainted(out.data(), out.size()), "private keys of 4096 bits");
  observed("rsa-parsed/" + std::to_string(key.bits) + "/" + std::to_string(out.size()));
}
static void rsa_big(Rng& r, uint64_t) { rsa_one<2048>(r, key_where(r, [](const Key& k) { return k.bits > 1024 && k.bits <= 2048; })); }
int main(int argc, char** argv) {
  if (!RUNNING_ON_VALGRIND) { fprintf(stderr, "needs memcheck\n"); return 97; }
  keys();
  return run_main(argc, argv, { {"rsa-parsed", 1, 6, rsa_parsed, 600}, {"rsa-big", 2, 12, rsa_big, 300}, {"rsa", 24, 160, rsa, 60}, {"x25519", 32, 1200, x25519, 30}, {"ciphers", 40, 1200, ciphers, 30}, {"hashes", 40, 1200, hashes, 30} });
}
