// C23: hostile DER/PEM input, under AddressSanitizer and UndefinedBehaviorSanitizer with a CPU limit per job.
#include "derfuzz.h"
#include <caligo/Truststore.h>
using namespace vf;
using namespace Caligo;

static const Key& pool(Rng& r) { return key_where(r, [](const Key& k) { return k.bits >= 800 && k.bits <= 1100 && k.e == 65537; }); }
static CertSpec spec(Rng& r, const std::string& cn, const Name& issuer, const Key& k) {
  CertSpec c; c.subject = r.chance(1, 2) ? simple_name(cn) : random_name(r, cn); c.issuer = issuer.empty() ? c.subject : issuer; c.from = r.chance(1, 2) ? random_when(r) : When::at(1500000000); c.to = r.chance(1, 2) ? random_when(r) : When::at(1900000000);
  c.key = &k; c.hash = (int)r.below(3); c.serial = number(r, 160); c.version = r.chance(1, 4) ? 1 : 3; if (r.chance(1, 2)) c.extensions = basic_extensions(r, true, "a.example"); if (r.chance(1, 6)) c.kind = (KeyKind)r.range(1, 3);
  return c;
}
struct Env { const Key* rootkey; Name rootname; bytes rootder; };
static Env& env(Rng& r) {
  static Env e; static bool done = false;
  if (!done) { done = true; e.rootkey = &keys()[6]; while (e.rootkey->bits < 1000 || e.rootkey->e != 65537) e.rootkey++; e.rootname = simple_name("Hostile Root"); CertSpec c; c.subject = c.issuer = e.rootname; c.from = When::at(1000000000); c.to = When::at(3000000000); c.key = e.rootkey; e.rootder = certificate(r, c, *e.rootkey); Truststore::Instance().addCertificate(parseCertificate(e.rootder)); }
  return e;
}
static const std::vector<bytes>& corpus() {   // certificates as installed on the system, if any
  static std::vector<bytes> v; static bool done = false;
  if (!done) { done = true; std::ifstream f("/etc/ssl/certs/ca-certificates.crt"); std::string all((std::istreambuf_iterator<char>(f)), {}), b; size_t p = 0;
    while ((p = all.find("-----BEGIN CERTIFICATE-----", p)) != std::string::npos) { p += 27; size_t q = all.find("-----END", p); if (q == std::string::npos) break; bytes o; unsigned acc = 0, n = 0; for (size_t i = p; i < q; i++) { char c = all[i]; int x = isupper(c) ? c - 'A' : islower(c) ? c - 'a' + 26 : isdigit(c) ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1; if (x < 0) continue; acc = (acc << 6 | x) & 0xfffff; n += 6; if (n >= 8) { n -= 8; o.push_back((uint8_t)(acc >> n)); } } v.push_back(o); } }
  return v;
}
// Certificates with the same lengths all the way up, so that a changed integer is really reached by the parser.
static bytes odd_key_cert(Rng& r, std::string& what) {
  Z n = r.pick(std::vector<Z>{Z(0), Z(1), Z(2), Z(3), Z(15), pow2(4096) - 1, pow2(4095), pow2(4096), pow2(4104) + 1, pow2(64) + 13, number(r, 4096), number(r, 600) | Z(1), pow2(4096) + 1});
  Z e = r.pick(std::vector<Z>{Z(0), Z(1), Z(3), Z(16), Z(17), Z(65537), pow2(4095) + 1, pow2(4096), number(r, 200)});
  what = "odd key"; bytes ints = rfc8017::cat({der_int(n), der_int(e)}); if (r.chance(1, 4)) ints = rfc8017::cat({der_wrap(2, {}), der_int(e)}); if (r.chance(1, 6)) ints = der_int(n); if (r.chance(1, 6)) ints = {};
  bytes key = seq({seq({bytes{6, 9, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 1}, bytes{5, 0}}), r.chance(1, 8) ? der_wrap(3, {}) : r.chance(1, 8) ? der_wrap(3, bytes{0}) : der_bits(der_wrap(r.chance(1, 8) ? 4 : 0x30, ints))});
  bytes t; app(t, der_wrap(0xa0, der_int(2))); app(t, r.chance(1, 5) ? der_wrap(2, r.data(r.below(40))) : der_int(5)); app(t, algo(0)); app(t, name_der(env(r).rootname));
  auto when = [&]() -> bytes { if (r.chance(1, 3)) return When::at((int64_t)1500000000).der(); if (r.chance(3, 4)) return near_date(r); std::string s; size_t k = r.below(20); for (size_t i = 0; i < k; i++) s += "0123456789Z+-.\xff\0 "[r.below(18)]; if (r.chance(1, 2)) s += 'Z'; return der_wrap(r.chance(1, 2) ? 23 : 24, bytes(s.begin(), s.end())); };
  app(t, seq({when(), when()})); app(t, name_der(simple_name("odd " + std::to_string(r.below(1000))))); app(t, key); t = der_wrap(0x30, t);
  bytes sig = rfc8017::raw_sign(*env(r).rootkey, rfc8017::pkcs1_of_digest("SHA256", ref::digest("SHA256", t), env(r).rootkey->len()));
  return seq({t, algo(0), der_bits(sig)});
}
static std::string hexall(const bytes& d) { return hex(d, 1 << 20); }
template <typename F> static bool safely(const char* what, const bytes& in, F&& f) {
  try { f(); return true; }
  catch (const std::bad_alloc&) { fail("parser-exhausts-memory", std::string(what) + " on " + hexall(in)); }
  catch (const std::exception&) { count("refused with an exception"); return false; }
  catch (...) { fail("parser-throws-oddly", std::string(what) + " on " + hexall(in)); }
}
static void use(Rng& r, std::vector<x509certificate>& v, const bytes& in) {
  for (auto& a : v) for (auto& b : v) { safely("verify", in, [&] { (void)a.verify(b); }); if (r.chance(1, 2)) break; }
  for (auto& a : v) { safely("appliesTo", in, [&] { (void)a.appliesTo("a.example"); (void)a.appliesTo(""); });
    if (a.pubkey) safely("validateSignature", in, [&] { bytes s = r.data(r.chance(1, 2) ? 128 : r.below(600)); (void)a.pubkey->validateSignature(r.pick(std::vector<Tls13SignatureScheme>{rsa_pkcs1_sha256, rsa_pss_rsae_sha256, rsa_pss_pss_sha512, rsa_pkcs1_sha384, ed25519}), r.raw(5), s); }); }
  for (uint64_t t : {(uint64_t)1600000000, (uint64_t)0, r.u64()}) safely("trust", in, [&] { (void)Truststore::Instance().trust(v, t); });
}
static bytes exact(const bytes& d) { bytes e; e.reserve(d.size()); e.assign(d.begin(), d.end()); return e; }
static void try_der(Rng& r, const bytes& in, const std::string& kind) {
  bytes e = exact(in); x509certificate c; bool ok = false;
  Guarded g(e, !r.chance(1, 4));   // also sees accesses the sanitizer's red zones would miss
  safely("parseCertificate", in, [&] { c = r.chance(1, 2) ? parseCertificate(e) : parseCertificate(g.get()); ok = true; });
  count(ok ? (c.derCert.empty() ? "empty result" : "parsed") : "refused");
  if (ok) { std::vector<x509certificate> v; v.push_back(std::move(c)); if (r.chance(1, 3)) v.push_back(parseCertificate(env(r).rootder)); if (v[0].derCert.size() || r.chance(1, 4)) use(r, v, in); }
  observed(kind + "/" + (ok ? "ok" : "ex") + "/" + std::to_string(in.size() / 16));
}
static bytes seed_cert(Rng& r, std::string& what) {
  switch (r.below(4)) {
    case 0: if (!corpus().empty()) { what = "system"; return r.pick(corpus()); } [[fallthrough]];
    case 1: return odd_key_cert(r, what);
    default: { what = "built"; Env& e = env(r); CertSpec c = spec(r, "h.example", r.chance(1, 2) ? e.rootname : Name(), pool(r)); return certificate(r, c, r.chance(1, 2) ? *e.rootkey : pool(r)); }
  }
}
static void ders(Rng& r, uint64_t) {
  for (int s = 0; s < 4; s++) {
    std::string what; bytes base = seed_cert(r, what);
    try_der(r, base, what);
    for (int k = 0; k < 12; k++) { bytes d = base; std::string m; for (size_t n = r.chance(2, 3) ? 1 : r.range(1, 5); n--;) m = mutate(r, d); try_der(r, d, what + "/" + m); }
  }
  try_der(r, r.data(r.below(200)), "random"); try_der(r, {}, "empty");
  sample([&] { return "mutated certificates (structure-aware)"; });
}
// Every truncation of one certificate and of one key.
static void prefixes(Rng& r, uint64_t i) {
  std::string what; bytes base = i % 2 ? private_key(pool(r)) : seed_cert(r, what);
  for (size_t n = 0; n < base.size(); n++) {
    bytes d(base.begin(), base.begin() + n), e = exact(d);
    safely("prefix", d, [&] { if (i % 2) (void)parsePrivateKey(e); else (void)parseCertificate(e); });
    observed("prefix/" + std::to_string(n));
  }
  count("truncations", base.size());
}
static void keys_(Rng& r, uint64_t i) {
  for (int k = 0; k < 10; k++) {
    bytes d; std::string kind = "key";
    if (r.chance(1, 3)) { Z n = r.pick(std::vector<Z>{Z(0), Z(1), Z(2), Z(3), Z(5), pow2(4096) - 1, pow2(4095), pow2(4096), number(r, 4096), number(r, 90) | Z(1)}), dd = r.pick(std::vector<Z>{Z(0), Z(1), pow2(4096), pow2(4095), number(r, 100)}); d = seq({r.chance(1, 4) ? der_int(number(r, 80)) : der_int(0), der_int(n), der_int(65537), der_int(dd)}); if (r.chance(1, 5)) d = seq({der_int(0), der_wrap(2, {}), der_wrap(2, {}), der_wrap(2, {})}); if (r.chance(1, 8)) d = seq({}); kind = "odd private key"; }
    else { d = private_key(pool(r)); for (size_t n = r.chance(2, 3) ? 1 : r.range(1, 4); n--;) kind = "key/" + mutate(r, d); }
    bytes e = exact(d); std::unique_ptr<PrivateKey> p;
    bool asPem = r.chance(1, 4); std::string t = pem(r, d, "RSA PRIVATE KEY"); if (asPem && r.chance(1, 2)) { bytes tb(t.begin(), t.end()); tb[r.below(tb.size())] = (uint8_t)r.u32(); t.assign(tb.begin(), tb.end()); }
    bytes tx(t.begin(), t.end());
    safely("parsePrivateKey", d, [&] { p = asPem ? parsePrivateKey(exact(tx), DataFormat::Pem) : parsePrivateKey(e); });
    count(p ? "keys parsed" : "keys refused");
    if (p && k == 0 && i % 4 == 0) safely("sign", d, [&] { (void)p->sign(r.chance(1, 2) ? rsa_pkcs1_sha256 : rsa_pss_rsae_sha256, r.raw(4)); count("keys used"); });
    observed(kind + "/" + (p ? "ok" : "no") + "/" + std::to_string(d.size() / 16));
  }
}
static void pems(Rng& r, uint64_t) {
  for (int k = 0; k < 8; k++) {
    std::string t; size_t n = r.below(4); std::string w;
    for (size_t j = 0; j < n; j++) { bytes d = seed_cert(r, w); if (r.chance(1, 2)) mutate(r, d); t += pem(r, d, r.chance(1, 8) ? "RSA PRIVATE KEY" : r.chance(1, 8) ? "TRUSTED CERTIFICATE" : "CERTIFICATE"); }
    for (size_t m = r.below(4); m--;) {
      static const std::vector<std::string> bits = {"-----BEGIN CERTIFICATE-----", "-----END CERTIFICATE-----", "-----BEGIN ", "-----", "-----END", "=", "\n", "-----BEGIN CERTIFICATE-----\n-----END CERTIFICATE-----", std::string("\0", 1), "MIIB"};
      size_t at = r.below(t.size() + 1);
      switch (r.below(4)) { case 0: t.insert(at, r.pick(bits)); break; case 1: t.erase(at, r.below(100)); break; case 2: t.resize(at); break; default: if (at < t.size()) t[at] = (char)r.u32(); }
    }
    bytes e(t.begin(), t.end()); e = exact(e); Guarded g(e); std::vector<x509certificate> v;
    bool ok = safely("parseCertificatesPem", e, [&] { v = parseCertificatesPem(r.chance(1, 2) ? cspan(e) : g.get()); });
    if (ok && v.size() < 8) use(r, v, e);
    safely("parseCertificate(PEM)", e, [&] { (void)parseCertificate(g.get(), DataFormat::Pem); }); safely("parsePrivateKey(PEM)", e, [&] { (void)parsePrivateKey(g.get(), DataFormat::Pem); });
    count(ok ? "bundles parsed" : "bundles refused"); observed("pem/" + std::to_string(n) + "/" + std::to_string(v.size()) + "/" + std::to_string(t.size() / 64));
  }
}
VF_MAIN({ {"keys", 80, 4000, keys_, 60}, {"prefixes", 24, 120, prefixes, 60}, {"pem", 120, 6000, pems, 60}, {"der", 240, 12000, ders, 60} })
