// Builds DER certificates and keys from a description, and states what a parser has to report for them.
#pragma once
#include "rsaref.h"
#include <time.h>

namespace vf {
using rfc8017::der_wrap;
inline void app(bytes& o, const bytes& b) { o.insert(o.end(), b.begin(), b.end()); }
inline bytes seq(std::initializer_list<bytes> l) { return der_wrap(0x30, rfc8017::cat(l)); }
inline bytes der_int(const Z& z) { size_t n = z == 0 ? 1 : (mpz_sizeinbase(z.get_mpz_t(), 2) + 7) / 8; bytes b = toBytesBE(z, n); if (b[0] & 0x80) b.insert(b.begin(), 0); return der_wrap(2, b); }
inline bytes der_bits(const bytes& b) { bytes t{0}; app(t, b); return der_wrap(3, t); }

struct Attr { int kind; uint8_t tag; std::string text; };   // kind: index into attrs()
struct AttrKind { const char* label; bytes oid; };
inline const std::vector<AttrKind>& attrs() {   // in the order the textual name lists them
  static const std::vector<AttrKind> a = {
    {"S#", {0x55, 4, 5}}, {"C", {0x55, 4, 6}}, {"L", {0x55, 4, 7}}, {"STREET", {0x55, 4, 9}}, {"ST", {0x55, 4, 8}},
    {"E", {0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 9, 1}}, {"GN", {0x55, 4, 0x2a}}, {"SN", {0x55, 4, 4}}, {"T", {0x55, 4, 0x0c}},
    {"O", {0x55, 4, 0x0a}}, {"OI", {0x55, 4, 0x61}}, {"OU", {0x55, 4, 0x0b}}, {"CN", {0x55, 4, 3}} };
  return a;
}
inline constexpr int kCN = 12;
using Name = std::vector<Attr>;
inline bytes name_der(const Name& n) {
  bytes o;
  for (auto& a : n) { bytes t(a.text.begin(), a.text.end()); app(o, der_wrap(0x31, seq({der_wrap(6, attrs()[a.kind].oid), der_wrap(a.tag, t)}))); }
  return der_wrap(0x30, o);
}
inline std::string name_text(const Name& n) {
  std::string o;
  for (size_t k = 0; k < attrs().size(); k++) for (auto& a : n) if (a.kind == (int)k && !a.text.empty()) { if (!o.empty()) o += ' '; o += std::string(attrs()[k].label) + "=" + a.text; }
  return o;
}
inline std::string common_name(const Name& n) { for (auto& a : n) if (a.kind == kCN) return a.text; return ""; }
inline Name simple_name(const std::string& cn) { return {{9, 0x0c, "Org of " + cn}, {kCN, 0x0c, cn}}; }
inline Name random_name(Rng& r, const std::string& cn) {
  Name n; std::vector<int> ks; for (int k = 0; k < 13; k++) if (k == kCN ? true : r.chance(1, 3)) ks.push_back(k);
  for (size_t i = ks.size(); i > 1; i--) std::swap(ks[i - 1], ks[r.below(i)]);
  for (int k : ks) {
    uint8_t tag = r.chance(1, 2) ? 0x0c : r.chance(1, 2) ? 0x13 : 0x16; std::string t;
    if (k == kCN) { t = cn; if (std::any_of(t.begin(), t.end(), [](char c) { return c < 32; })) tag = 0x0c; }
    else { size_t len = r.chance(1, 8) ? 0 : r.chance(1, 8) ? r.range(100, 400) : r.chance(1, 60) ? biglen(r, 18) : r.range(1, 30);
      bool odd = tag == 0x0c && r.chance(1, 6);   // any character, NUL included
      for (size_t i = 0; i < len; i++) t += odd && r.chance(1, 4) ? std::string(1, (char)(r.chance(1, 3) ? 0 : r.below(128))) : odd && r.chance(1, 6) ? "\xf0\x9f\x98\x80" : tag == 0x0c && r.chance(1, 6) ? "\xc3\xa9" : std::string(1, "abcXYZ019 '()+,-./:=?"[r.below(21)]); }
    n.push_back({k, tag, t});
  }
  return n;
}
struct When { uint8_t tag = 23; int Y = 2020, M = 1, D = 1, h = 0, m = 0, s = 0;
  bytes der() const { char b[40]; if (tag == 23) snprintf(b, sizeof b, "%02d%02d%02d%02d%02d%02dZ", Y % 100, M, D, h, m, s); else snprintf(b, sizeof b, "%04d%02d%02d%02d%02d%02dZ", Y, M, D, h, m, s); return der_wrap(tag, bytes(b, b + strlen(b))); }
  int64_t unix_time() const { struct tm t = {}; t.tm_year = Y - 1900; t.tm_mon = M - 1; t.tm_mday = D; t.tm_hour = h; t.tm_min = m; t.tm_sec = s; return (int64_t)timegm(&t); }
  uint64_t expected() const { int64_t u = unix_time(); return u < 0 ? 0 : (uint64_t)u; }
  static When at(int64_t u) { time_t t = u; struct tm g; gmtime_r(&t, &g); When w{0, g.tm_year + 1900, g.tm_mon + 1, g.tm_mday, g.tm_hour, g.tm_min, g.tm_sec}; w.tag = w.Y >= 1950 && w.Y < 2050 ? 23 : 24; return w; }
};
inline bool leap(int y) { return (y % 4 == 0 && y % 100) || y % 400 == 0; }
inline When random_when(Rng& r) {
  When w; w.tag = r.chance(1, 2) ? 23 : 24;
  w.Y = w.tag == 23 ? (int)r.range(1950, 2049) : r.chance(1, 2) ? (int)r.range(1960, 2110) : r.chance(1, 3) ? (int)r.range(0, 1990) : (int)r.range(1970, 9999);
  if (w.tag == 24 && r.chance(1, 6)) w.Y = std::vector<int>{1969, 1970, 1971, 1999, 2000, 2001, 2038, 2100, 2101, 2106, 2400, 9999}[r.below(12)];
  static const int days[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  w.M = (int)r.range(1, 12); if (r.chance(1, 4)) w.M = (int)r.range(1, 3);
  int n = days[w.M - 1] + (w.M == 2 && leap(w.Y)); w.D = r.chance(1, 4) ? n : r.chance(1, 4) ? 1 : (int)r.range(1, n);
  w.h = r.chance(1, 4) ? 23 : (int)r.below(24); w.m = r.chance(1, 4) ? 59 : (int)r.below(60); w.s = r.chance(1, 4) ? 59 : r.chance(1, 4) ? 0 : (int)r.below(60);
  return w;
}
enum KeyKind { RSA_KEY, EC_KEY, ED_KEY, X25519_KEY };
struct CertSpec {
  int version = 3; Z serial = 1; Name issuer, subject; When from, to; KeyKind kind = RSA_KEY; const Key* key = nullptr; bytes extensions; bool issuer_uid = false, subject_uid = false;
  int hash = 0;                 // 0..2: SHA-256/384/512
  bytes inner_algo;             // overrides the algorithm inside the signed part
};
inline bytes algo(int hash) { return seq({der_wrap(6, bytes{0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, (uint8_t)(0x0b + hash)}), bytes{5, 0}}); }
inline bytes spki(Rng& r, KeyKind kind, const Key* k) {
  switch (kind) {
    case RSA_KEY: return seq({seq({bytes{6, 9, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 1}, bytes{5, 0}}), der_bits(seq({der_int(k->n), der_int(k->e)}))});
    case EC_KEY: { bytes p = r.raw(65); p[0] = 4; return seq({seq({bytes{6, 7, 0x2a, 0x86, 0x48, 0xce, 0x3d, 2, 1}, bytes{6, 8, 0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 7}}), der_bits(p)}); }
    case ED_KEY: return seq({seq({bytes{6, 3, 0x2b, 0x65, 0x70}}), der_bits(r.raw(32))});
    default: return seq({seq({bytes{6, 3, 0x2b, 0x65, 0x6e}}), der_bits(r.raw(32))});
  }
}
inline bytes tbs(Rng& r, const CertSpec& c) {
  bytes o;
  if (c.version == 3) app(o, der_wrap(0xa0, der_int(2)));
  app(o, der_int(c.serial)); app(o, c.inner_algo.empty() ? algo(c.hash) : c.inner_algo); app(o, name_der(c.issuer));
  app(o, seq({c.from.der(), c.to.der()})); app(o, name_der(c.subject)); app(o, spki(r, c.kind, c.key));
  if (c.issuer_uid) { bytes b{0}; app(b, r.raw(9)); app(o, der_wrap(0x81, b)); }
  if (c.subject_uid) { bytes b{0}; app(b, r.raw(7)); app(o, der_wrap(0x82, b)); }
  if (!c.extensions.empty()) app(o, der_wrap(0xa3, c.extensions));
  return der_wrap(0x30, o);
}
inline bytes certificate(Rng& r, const CertSpec& c, const Key& signer) {
  bytes t = tbs(r, c); static const char* h[] = {"SHA256", "SHA384", "SHA512"};
  bytes sig = rfc8017::raw_sign(signer, rfc8017::pkcs1_of_digest(h[c.hash], ref::digest(h[c.hash], t), signer.len()));
  return seq({t, algo(c.hash), der_bits(sig)});
}
inline bytes basic_extensions(Rng& r, bool ca, const std::string& dns) {
  bytes e;
  app(e, seq({bytes{6, 3, 0x55, 0x1d, 0x13}, bytes{1, 1, 0xff}, der_wrap(4, ca ? bytes{0x30, 3, 1, 1, 0xff} : bytes{0x30, 0})}));
  if (!dns.empty()) app(e, seq({bytes{6, 3, 0x55, 0x1d, 0x11}, der_wrap(4, der_wrap(0x30, der_wrap(0x82, bytes(dns.begin(), dns.end()))))}));
  if (r.chance(1, 2)) app(e, seq({bytes{6, 3, 0x55, 0x1d, 0x0e}, der_wrap(4, der_wrap(4, r.raw(r.chance(1, 4) ? 300 : r.chance(1, 20) ? biglen(r, 18) : 20)))}));
  return der_wrap(0x30, e);
}
inline std::string b64(const bytes& d) {
  static const char* a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string o;
  for (size_t i = 0; i < d.size(); i += 3) { uint32_t v = d[i] << 16 | (i + 1 < d.size() ? d[i + 1] << 8 : 0) | (i + 2 < d.size() ? d[i + 2] : 0); o += a[v >> 18]; o += a[v >> 12 & 63]; o += i + 1 < d.size() ? a[v >> 6 & 63] : '='; o += i + 2 < d.size() ? a[v & 63] : '='; }
  return o;
}
inline std::string pem(Rng& r, const bytes& d, const std::string& label) {
  std::string t = b64(d), o = "-----BEGIN " + label + "-----", nl = r.chance(1, 4) ? "\r\n" : "\n"; size_t w = r.chance(1, 5) ? t.size() : r.chance(1, 3) ? 76 : 64;
  o += nl; for (size_t i = 0; i < t.size(); i += w) o += t.substr(i, w) + nl;
  return o + "-----END " + label + "-----" + nl;
}
inline bytes private_key(const Key& k) {
  Z qi; mpz_invert(qi.get_mpz_t(), k.q.get_mpz_t(), k.p.get_mpz_t());
  return seq({der_int(0), der_int(k.n), der_int(k.e), der_int(k.d), der_int(k.p), der_int(k.q), der_int(k.d % (k.p - 1)), der_int(k.d % (k.q - 1)), der_int(qi)});
}
inline cspan text(const std::string& s) { return cspan((const uint8_t*)s.data(), s.size()); }
} // namespace vf
