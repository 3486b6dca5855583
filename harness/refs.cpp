#include "refs.h"
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/kdf.h>

namespace ref {
const EVP_MD* md(const char* name) {
  static std::map<std::string, EVP_MD*> cache;
  auto& m = cache[name];
  if (!m) m = EVP_MD_fetch(nullptr, name, nullptr);
  if (!m) { fprintf(stderr, "no reference digest %s\n", name); _exit(98); }
  return m;
}
Digest::Digest(const char* name) : c(EVP_MD_CTX_new()) { EVP_DigestInit_ex(c, md(name), nullptr); }
Digest::Digest(const Digest& o) : c(EVP_MD_CTX_new()) { EVP_MD_CTX_copy_ex(c, o.c); }
Digest& Digest::operator=(const Digest& o) { if (this != &o) EVP_MD_CTX_copy_ex(c, o.c); return *this; }
Digest::~Digest() { EVP_MD_CTX_free(c); }
void Digest::add(cspan d) { if (d.size()) EVP_DigestUpdate(c, d.data(), d.size()); }
bytes Digest::get() const {
  EVP_MD_CTX* t = EVP_MD_CTX_new();
  EVP_MD_CTX_copy_ex(t, c);
  bytes r(EVP_MAX_MD_SIZE); unsigned n = 0;
  EVP_DigestFinal_ex(t, r.data(), &n);
  r.resize(n);
  EVP_MD_CTX_free(t);
  return r;
}
bytes digest(const char* name, cspan d) { Digest x(name); x.add(d); return x.get(); }
bytes hmac(const char* name, cspan key, cspan data) {
  bytes r(EVP_MAX_MD_SIZE); unsigned n = 0;
  static const uint8_t z = 0;
  HMAC(md(name), key.size() ? key.data() : &z, (int)key.size(), data.size() ? data.data() : &z, data.size(), r.data(), &n);
  r.resize(n);
  return r;
}
// HKDF-Extract / HKDF-Expand (RFC 5869) on OpenSSL's HMAC.
bytes hkdf_extract(const char* name, cspan salt, cspan ikm) { return hmac(name, salt, ikm); }
bytes hkdf_expand(const char* name, cspan prk, cspan info, size_t len) {
  bytes out, t;
  for (unsigned i = 1; out.size() < len; i++) {
    bytes in = t;
    in.insert(in.end(), info.begin(), info.end());
    in.push_back((uint8_t)i);
    t = hmac(name, prk, in);
    out.insert(out.end(), t.begin(), t.end());
  }
  out.resize(len);
  return out;
}
bytes aes_ecb(cspan key, cspan data) {
  EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new();
  EVP_EncryptInit_ex(c, key.size() == 16 ? EVP_aes_128_ecb() : EVP_aes_256_ecb(), nullptr, key.data(), nullptr);
  EVP_CIPHER_CTX_set_padding(c, 0);
  bytes r(data.size() + 16); int n = 0;
  if (data.size()) EVP_EncryptUpdate(c, r.data(), &n, data.data(), (int)data.size());
  r.resize(n);
  EVP_CIPHER_CTX_free(c);
  return r;
}
std::string hexlow(cspan b) { return vf::hex(b, (size_t)-1); }
} // namespace ref

#include "gcmref.h"
namespace ref {
Sealed gcm_openssl(cspan key, cspan iv, cspan pt, cspan aad) {
  Sealed s;
  EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new();
  EVP_EncryptInit_ex(c, key.size() == 16 ? EVP_aes_128_gcm() : EVP_aes_256_gcm(), nullptr, nullptr, nullptr);
  EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_GCM_SET_IVLEN, (int)iv.size(), nullptr);
  EVP_EncryptInit_ex(c, nullptr, nullptr, key.data(), iv.data());
  int n = 0;
  const size_t step = 1u << 28;
  for (size_t o = 0; o < aad.size(); o += step) EVP_EncryptUpdate(c, nullptr, &n, aad.data() + o, (int)std::min(step, aad.size() - o));
  s.ct.resize(pt.size() + 16);
  size_t w = 0;
  for (size_t o = 0; o < pt.size(); o += step) { EVP_EncryptUpdate(c, s.ct.data() + w, &n, pt.data() + o, (int)std::min(step, pt.size() - o)); w += n; }
  EVP_EncryptFinal_ex(c, s.ct.data() + w, &n);
  s.ct.resize(pt.size());
  EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_GCM_GET_TAG, 16, s.tag.data());
  EVP_CIPHER_CTX_free(c);
  return s;
}
} // namespace ref
