// C18: produced signatures verify here and by independent verifiers; independent signatures are accepted.
#include "rsabox.h"
#include <caligo/X509Certificate.h>
#include <openssl/bn.h>
#include <openssl/evp.h>
#include <openssl/param_build.h>
#include <openssl/core_names.h>
#include <openssl/rsa.h>
using namespace vf;

static BIGNUM* bn(const Z& z) { return BN_bin2bn(toBytesBE(z, (mpz_sizeinbase(z.get_mpz_t(), 2) + 7) / 8).data(), (int)((mpz_sizeinbase(z.get_mpz_t(), 2) + 7) / 8), nullptr); }
static bool openssl_takes(const Key& k) { return k.e < pow2(60); }
static EVP_PKEY* pkey(const Key& k) {
  static std::map<std::string, EVP_PKEY*> cache;
  EVP_PKEY*& p = cache[str(k.n)];
  if (p) return p;
  OSSL_PARAM_BLD* b = OSSL_PARAM_BLD_new();
  Z dp = k.d % (k.p - 1), dq = k.d % (k.q - 1), qi; mpz_invert(qi.get_mpz_t(), k.q.get_mpz_t(), k.p.get_mpz_t());
  OSSL_PARAM_BLD_push_BN(b, OSSL_PKEY_PARAM_RSA_N, bn(k.n)); OSSL_PARAM_BLD_push_BN(b, OSSL_PKEY_PARAM_RSA_E, bn(k.e)); OSSL_PARAM_BLD_push_BN(b, OSSL_PKEY_PARAM_RSA_D, bn(k.d));
  OSSL_PARAM_BLD_push_BN(b, OSSL_PKEY_PARAM_RSA_FACTOR1, bn(k.p)); OSSL_PARAM_BLD_push_BN(b, OSSL_PKEY_PARAM_RSA_FACTOR2, bn(k.q));
  OSSL_PARAM_BLD_push_BN(b, OSSL_PKEY_PARAM_RSA_EXPONENT1, bn(dp)); OSSL_PARAM_BLD_push_BN(b, OSSL_PKEY_PARAM_RSA_EXPONENT2, bn(dq)); OSSL_PARAM_BLD_push_BN(b, OSSL_PKEY_PARAM_RSA_COEFFICIENT1, bn(qi));
  OSSL_PARAM* pr = OSSL_PARAM_BLD_to_param(b);
  EVP_PKEY_CTX* c = EVP_PKEY_CTX_new_from_name(nullptr, "RSA", nullptr);
  if (EVP_PKEY_fromdata_init(c) <= 0 || EVP_PKEY_fromdata(c, &p, EVP_PKEY_KEYPAIR, pr) <= 0) { fprintf(stderr, "reference cannot import a key\n"); _exit(98); }
  EVP_PKEY_CTX_free(c); OSSL_PARAM_free(pr); OSSL_PARAM_BLD_free(b);
  return p;
}
static EVP_PKEY_CTX* context(const Key& k, int s, bool sign) {
  EVP_PKEY_CTX* c = EVP_PKEY_CTX_new(pkey(k), nullptr);
  if (sign) EVP_PKEY_sign_init(c); else EVP_PKEY_verify_init(c);
  EVP_PKEY_CTX_set_rsa_padding(c, is_pss(s) ? RSA_PKCS1_PSS_PADDING : RSA_PKCS1_PADDING);
  EVP_PKEY_CTX_set_signature_md(c, EVP_get_digestbyname(hash_of(s)));
  if (is_pss(s)) EVP_PKEY_CTX_set_rsa_pss_saltlen(c, RSA_PSS_SALTLEN_DIGEST);
  return c;
}
static bytes signed_digest(int s, cspan m) { return is_pss(s) ? ref::digest(hash_of(s), m) : ref::digest(hash_of(s), rfc8017::der_wrap(0x30, m)); }
static bool openssl_verify(const Key& k, int s, cspan m, cspan sig) {
  EVP_PKEY_CTX* c = context(k, s, false); bytes d = signed_digest(s, m);
  bool ok = EVP_PKEY_verify(c, sig.data(), sig.size(), d.data(), d.size()) == 1;
  EVP_PKEY_CTX_free(c); return ok;
}
static bytes openssl_sign(const Key& k, int s, cspan m) {
  EVP_PKEY_CTX* c = context(k, s, true); bytes d = signed_digest(s, m), o(k.len() + 8); size_t n = o.size();
  if (EVP_PKEY_sign(c, o.data(), &n, d.data(), d.size()) != 1) { fprintf(stderr, "reference cannot sign\n"); _exit(98); }
  EVP_PKEY_CTX_free(c); o.resize(n); return o;
}
static std::string name(int s) { return std::string(is_pss(s) ? "PSS-" : "PKCS1-") + hash_of(s); }
static bool ref_valid(const Key& k, int s, cspan m, cspan sig) { return is_pss(s) ? rfc8017::pss_valid(k, hash_of(s), m, sig, hash_len(s)) : rfc8017::pkcs1_valid(k, hash_of(s), m, sig); }

static bytes message(Rng& r) { return r.data(r.chance(1, 3) ? r.below(4) : r.chance(1, 8) ? r.range(65530, 65545) : r.chance(1, 10) ? biglen(r, 21) : r.chance(1, 3) ? r.range(120, 135) + 128 * r.below(2) : r.below(600)); }
static void judge(const RsaBox& box, const Key& k, int s, const bytes& m, const bytes& sig, const char* who) {
  auto ctx = [&] { return std::string(who) + " " + name(s) + " width=" + std::to_string(box.width()) + " n=" + str(k.n) + " message=" + hex(m) + " signature=" + hex(sig, 600); };
  require(sig.size() == k.len(), "signature-length", ctx);
  require(ref_valid(k, s, m, sig), "signature-not-rfc8017", ctx);
  if (openssl_takes(k)) require(openssl_verify(k, s, m, sig), "signature-refused-by-openssl", ctx);
  require(box.verify(s, m, sig), "signature-not-accepted", ctx);
  observed(std::string(who) + name(s) + "/" + std::to_string(k.bits) + "/" + std::to_string(box.width()) + "/" + std::to_string(m.size() < 3 ? m.size() : m.size() < 128 ? 3 : m.size() < 256 ? 4 : m.size() < 65536 ? 5 : 6), 4);
  count(std::string(who) + " " + name(s));
}
static void one(Rng& r, const RsaBox& box, const Key& k, int s, bool check_foreign) {
  bytes m = message(r), salt = r.data(is_pss(s) ? hash_len(s) : 0), sig;
  if (r.chance(1, 2)) {   // aim for signatures with leading zero bytes
    for (int t = 0; t < 700; t++) {
      m = r.raw(r.below(40)); salt = r.raw(salt.size());
      bytes em = is_pss(s) ? rfc8017::pss(hash_of(s), ref::digest(hash_of(s), m), salt, k.bits - 1) : rfc8017::pkcs1(hash_of(s), m, k.len());
      bytes e = rfc8017::raw_sign(k, em);
      if (e[0] == 0) { count("signatures with a leading zero byte"); break; }
      if (k.bits > 1600 && t > 40) break;
    }
  }
  Guarded gm(m, r.chance(1, 2));
  sig = box.sign(s, gm.get(), salt);
  judge(box, k, s, m, sig, "made here:");
  bytes em = is_pss(s) ? rfc8017::pss(hash_of(s), ref::digest(hash_of(s), m), salt, k.bits - 1) : rfc8017::pkcs1(hash_of(s), m, k.len());
  require_same(sig, rfc8017::raw_sign(k, em), "signature-value", [&] { return name(s) + " n=" + str(k.n) + " message=" + hex(m) + " salt=" + hex(salt); });
  if (check_foreign) {
    if (openssl_takes(k)) judge(box, k, s, m, openssl_sign(k, s, m), "made by OpenSSL:");
    bytes m2 = message(r), salt2 = r.data(salt.size());
    em = is_pss(s) ? rfc8017::pss(hash_of(s), ref::digest(hash_of(s), m2), salt2, k.bits - 1) : rfc8017::pkcs1(hash_of(s), m2, k.len());
    judge(box, k, s, m2, rfc8017::raw_sign(k, em), "made by the reference:");
  }
}
static void small(Rng& r, uint64_t) {
  for (int i = 0; i < 6; i++) {
    int s = (int)r.below(kSchemes);
    const Key& k = key_where(r, [&](const Key& k) { return k.bits <= 1600 && fits(s, k.bits); });
    auto box = RsaBox::make(k, RsaBox::width_for(k.bits));
    if (r.chance(1, 4)) {   // the same key with a longer private exponent, in a wider key object
      Key l = k; Z lam = (k.p - 1) * (k.q - 1); size_t w = r.chance(1, 2) ? box->width() : 2 * box->width();
      if (Z room = (pow2(w) - 1 - l.d) / lam; room > 0 && w <= 2048) { l.d += lam * (r.chance(1, 2) ? room : Z(1 + modp(uniform(r, w), room))); box = RsaBox::make(l, w); count("private exponents longer than needed"); }
    }
    one(r, *box, k, s, true);
  }
}
static void large(Rng& r, uint64_t i) {
  int s = (int)(i % kSchemes);
  const Key& k = key_where(r, [&](const Key& k) { return k.bits > 1600 && fits(s, k.bits); });
  auto box = RsaBox::make(k, RsaBox::width_for(k.bits));
  one(r, *box, k, s, true);
  sample([&] { return name(s) + " with a key of " + std::to_string(k.bits) + " bits"; });
}
// Through the certificate module's key objects and TLS scheme numbers; the PSS salt comes from the random source.
static void objects(Rng& r, uint64_t i) {
  using namespace Caligo;
  static const Tls13SignatureScheme t[] = {rsa_pkcs1_sha256, rsa_pkcs1_sha384, rsa_pkcs1_sha512, rsa_pss_rsae_sha256, rsa_pss_rsae_sha384, rsa_pss_rsae_sha512, rsa_pss_pss_sha256, rsa_pss_pss_sha384, rsa_pss_pss_sha512};
  size_t ti = i % 9; int s = ti < 6 ? (int)ti : (int)ti - 3;
  const Key& k = key_where(r, [&](const Key& k) { return fits(s, k.bits); });
  RsaPrivateKey priv(rsa_private_key<4096>(fromZ<4096>(k.n), fromZ<4096>(k.d))); RsaPubkey pub(rsa_public_key<4096>(fromZ<4096>(k.n), fromZ<4096>(k.e)));
  bytes m = message(r), sig = static_cast<PrivateKey&>(priv).sign(t[ti], m);
  auto ctx = [&] { return name(s) + " scheme " + std::to_string(t[ti]) + " n=" + str(k.n) + " message=" + hex(m) + " signature=" + hex(sig, 600); };
  require(sig.size() == k.len(), "signature-length", ctx);
  require(ref_valid(k, s, m, sig), "signature-not-rfc8017", ctx);
  if (openssl_takes(k)) require(openssl_verify(k, s, m, sig), "signature-refused-by-openssl", ctx);
  PublicKey& pk = pub;
  require(pk.validateSignature(t[ti], m, sig), "signature-not-accepted", ctx);
  if (openssl_takes(k)) require(pk.validateSignature(t[ti], m, openssl_sign(k, s, m)), "signature-not-accepted", ctx);
  if (is_pss(s) && i % 3 == 0) { bytes sig2 = static_cast<PrivateKey&>(priv).sign(t[ti], m); require(sig2 != sig, "pss-salt-repeats", ctx); require(pk.validateSignature(t[ti], m, sig2), "signature-not-accepted", ctx); }
  observed("object/" + std::to_string(t[ti]) + "/" + std::to_string(k.bits), 5); count("through key objects");
}
// Messages of every order of size up to 2^24 bytes through the key objects, each scheme.
static void objects_large(Rng& r, uint64_t i) {
  using namespace Caligo;
  static const Tls13SignatureScheme t[] = {rsa_pkcs1_sha256, rsa_pkcs1_sha384, rsa_pkcs1_sha512, rsa_pss_rsae_sha256, rsa_pss_rsae_sha384, rsa_pss_rsae_sha512, rsa_pss_pss_sha256, rsa_pss_pss_sha384, rsa_pss_pss_sha512};
  size_t ti = i % 9; int s = ti < 6 ? (int)ti : (int)ti - 3;
  const Key& k = key_where(r, [&](const Key& k) { return fits(s, k.bits) && openssl_takes(k) && k.bits <= 2048; });
  RsaPrivateKey priv(rsa_private_key<4096>(fromZ<4096>(k.n), fromZ<4096>(k.d))); RsaPubkey pub(rsa_public_key<4096>(fromZ<4096>(k.n), fromZ<4096>(k.e)));
  size_t len = ((size_t)1 << (12 + i / 9 % 13)) + r.below(300);
  bytes m = r.raw(len), sig = static_cast<PrivateKey&>(priv).sign(t[ti], m);
  auto ctx = [&] { return name(s) + " scheme " + std::to_string(t[ti]) + " n=" + str(k.n) + " random message of " + std::to_string(len) + " bytes signature=" + hex(sig, 600); };
  require(ref_valid(k, s, m, sig), "signature-not-rfc8017", ctx);
  require(openssl_verify(k, s, m, sig), "signature-refused-by-openssl", ctx);
  require(static_cast<PublicKey&>(pub).validateSignature(t[ti], m, openssl_sign(k, s, m)), "signature-not-accepted", ctx);
  observed("object-large/" + std::to_string(t[ti]) + "/" + std::to_string(64 - __builtin_clzll(len))); count("messages of every order of size up to 16 MiB through key objects");
}
VF_MAIN({ {"objects_large", 117, 700, objects_large}, {"objects", 54, 2000, objects}, {"large", 24, 1500, large}, {"small", 120, 6000, small} })
