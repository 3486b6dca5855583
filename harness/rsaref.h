// RSA test keys and an independent RFC 8017 reference (GMP integers, OpenSSL digests).
#pragma once
#include "num.h"
#include "refs.h"
#include <fstream>

namespace vf {
struct Key { size_t bits; Z e, n, d, p, q; size_t len() const { return (bits + 7) / 8; } };
inline const std::vector<Key>& keys() {
  static std::vector<Key> v = [] {
    std::vector<Key> k;
    std::ifstream f(std::string(getenv("VERIF_DATA")) + "/rsa_keys.txt");
    size_t b; std::string e, n, d, p, q;
    while (f >> b >> e >> n >> d >> p >> q) k.push_back({b, Z(e, 16), Z(n, 16), Z(d, 16), Z(p, 16), Z(q, 16)});
    if (k.size() < 40) { fprintf(stderr, "key pool missing\n"); _exit(97); }
    return k;
  }();
  return v;
}
template <typename F> const Key& key_where(Rng& r, F&& f) { for (int t = 0; t < 100000; t++) { const Key& k = r.pick(keys()); if (f(k)) return k; } fprintf(stderr, "no such key\n"); _exit(97); }

namespace rfc8017 {
inline bytes cat(std::initializer_list<bytes> l) { bytes o; for (auto& b : l) o.insert(o.end(), b.begin(), b.end()); return o; }
inline const bytes& digest_info(const std::string& h) {   // RFC 8017 9.2 note 1, RFC 8702 / NIST for SHA-3
  static const std::map<std::string, bytes> m = [] {
    std::map<std::string, bytes> m;
    m["MD5"] = {0x30, 0x20, 0x30, 0x0c, 0x06, 0x08, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x02, 0x05, 0x05, 0x00, 0x04, 0x10};
    m["SHA1"] = {0x30, 0x21, 0x30, 0x09, 0x06, 0x05, 0x2b, 0x0e, 0x03, 0x02, 0x1a, 0x05, 0x00, 0x04, 0x14};
    auto nist = [&](const char* n, uint8_t arc, uint8_t len) { m[n] = {0x30, (uint8_t)(17 + len), 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, arc, 0x05, 0x00, 0x04, len}; };
    nist("SHA256", 1, 32); nist("SHA384", 2, 48); nist("SHA512", 3, 64); nist("SHA224", 4, 28);
    nist("SHA3-224", 7, 28); nist("SHA3-256", 8, 32); nist("SHA3-384", 9, 48); nist("SHA3-512", 10, 64);
    return m;
  }();
  return m.at(h);
}
inline bytes der_wrap(uint8_t tag, cspan d) {
  bytes o{tag}; size_t n = d.size();
  if (n < 0x80) o.push_back((uint8_t)n);
  else { bytes l; for (size_t x = n; x; x >>= 8) l.insert(l.begin(), (uint8_t)x); o.push_back((uint8_t)(0x80 | l.size())); o.insert(o.end(), l.begin(), l.end()); }
  o.insert(o.end(), d.begin(), d.end());
  return o;
}
// EMSA-PKCS1-v1_5 of an already hashed message; empty when it does not fit.
inline bytes pkcs1_of_digest(const std::string& h, cspan digest, size_t len) {
  bytes t = digest_info(h); t.insert(t.end(), digest.begin(), digest.end());
  if (len < t.size() + 11) return {};
  bytes o{0, 1}; o.resize(len - t.size() - 1, 0xff); o.push_back(0); o.insert(o.end(), t.begin(), t.end());
  return o;
}
inline bytes pkcs1(const std::string& h, cspan m, size_t len) { return pkcs1_of_digest(h, ref::digest(h.c_str(), der_wrap(0x30, m)), len); }
inline bytes mgf1(const std::string& h, cspan seed, size_t len) {
  bytes o;
  for (uint32_t c = 0; o.size() < len; c++) {
    bytes in(seed.begin(), seed.end()); for (int s = 24; s >= 0; s -= 8) in.push_back((uint8_t)(c >> s));
    bytes d = ref::digest(h.c_str(), in); o.insert(o.end(), d.begin(), d.end());
  }
  o.resize(len);
  return o;
}
// EMSA-PSS of an already hashed message, before the leftmost bits are cleared when bits == 8*len.
inline bytes pss(const std::string& h, cspan mhash, cspan salt, size_t emBits, const bytes& lead = {}, uint8_t sep = 1, uint8_t trailer = 0xbc) {
  size_t emLen = (emBits + 7) / 8, hl = mhash.size();
  if (emLen < hl + salt.size() + 2) return {};
  bytes mp(8, 0); mp.insert(mp.end(), mhash.begin(), mhash.end()); mp.insert(mp.end(), salt.begin(), salt.end());
  bytes H = ref::digest(h.c_str(), mp);
  bytes db(emLen - hl - 1, 0); db[db.size() - salt.size() - 1] = sep;
  for (size_t i = 0; i < lead.size() && i + salt.size() + 1 < db.size(); i++) db[i] ^= lead[i];
  std::copy(salt.begin(), salt.end(), db.end() - salt.size());
  bytes mask = mgf1(h, H, db.size()); for (size_t i = 0; i < db.size(); i++) db[i] ^= mask[i];
  db[0] &= 0xff >> (8 * emLen - emBits);
  db.insert(db.end(), H.begin(), H.end()); db.push_back(trailer);
  return db;
}
inline Z os2ip(cspan b) { return fromBytesBE(b); }
inline bytes raw_sign(const Key& k, cspan em) { return toBytesBE(powm(os2ip(em), k.d, k.n), k.len()); }
inline bytes open(const Key& k, cspan sig, size_t len) { return toBytesBE(powm(os2ip(sig), k.e, k.n), len); }
inline bool pkcs1_valid(const Key& k, const std::string& h, cspan m, cspan sig) {
  if (sig.size() != k.len() || os2ip(sig) >= k.n) return false;
  bytes em = pkcs1(h, m, k.len());
  return !em.empty() && open(k, sig, k.len()) == em;
}
inline bool pss_valid(const Key& k, const std::string& h, cspan m, cspan sig, size_t sLen) {
  if (sig.size() != k.len() || os2ip(sig) >= k.n) return false;
  size_t emBits = k.bits - 1, emLen = (emBits + 7) / 8;
  bytes mh = ref::digest(h.c_str(), m); size_t hl = mh.size();
  Z s = powm(os2ip(sig), k.e, k.n);
  if (s >= pow2(8 * emLen)) return false;
  bytes em = toBytesBE(s, emLen);
  if (emLen < hl + sLen + 2 || em.back() != 0xbc) return false;
  size_t dbl = emLen - hl - 1;
  if (em[0] & ~(0xff >> (8 * emLen - emBits))) return false;
  bytes H(em.begin() + dbl, em.end() - 1), db(em.begin(), em.begin() + dbl), mask = mgf1(h, H, dbl);
  for (size_t i = 0; i < dbl; i++) db[i] ^= mask[i];
  db[0] &= 0xff >> (8 * emLen - emBits);
  for (size_t i = 0; i + sLen + 1 < dbl; i++) if (db[i]) return false;
  if (db[dbl - sLen - 1] != 1) return false;
  bytes mp(8, 0); mp.insert(mp.end(), mh.begin(), mh.end()); mp.insert(mp.end(), db.end() - sLen, db.end());
  return ref::digest(h.c_str(), mp) == H;
}
} // namespace rfc8017
} // namespace vf
