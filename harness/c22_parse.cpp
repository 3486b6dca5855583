// C22: certificates and keys built from a description; the parser has to report the description. The builder is
// itself checked by OpenSSL's parser.
#include "x509gen.h"
#include <caligo/X509Certificate.h>
#include <openssl/x509.h>
#include <openssl/asn1.h>
using namespace vf;
using namespace Caligo;

static void oracle_bug(const char* what, const bytes& der) { fprintf(stderr, "builder and OpenSSL disagree on %s: %s\n", what, hex(der, 5000).c_str()); _exit(98); }
static void cross_check(const CertSpec& c, const bytes& der) {
  const uint8_t* p = der.data(); X509* x = d2i_X509(nullptr, &p, (long)der.size());
  if (!x || p != der.data() + der.size()) oracle_bug("well-formedness", der);
  BIGNUM* b = ASN1_INTEGER_to_BN(X509_get0_serialNumber(x), nullptr); char* h = BN_bn2hex(b);
  if (Z(h, 16) != c.serial) oracle_bug("serial", der);
  OPENSSL_free(h); BN_free(b);
  for (int k = 0; k < 2; k++) {
    const When& w = k ? c.to : c.from; struct tm t;
    if (ASN1_TIME_to_tm(k ? X509_get0_notAfter(x) : X509_get0_notBefore(x), &t)) { if ((int64_t)timegm(&t) != w.unix_time()) oracle_bug("validity", der); count("times cross-checked"); }
  }
  if (c.kind == RSA_KEY && !X509_get0_pubkey(x)) oracle_bug("public key", der);
  if (X509_NAME_entry_count(X509_get_subject_name(x)) != (int)c.subject.size()) oracle_bug("subject", der);
  X509_free(x); count("certificates cross-checked with OpenSSL");
}
static const RsaPubkey* rsa(const x509certificate& x) { return dynamic_cast<const RsaPubkey*>(x.pubkey.get()); }
static void judge(const CertSpec& c, const bytes& der, x509certificate& x, const std::string& how) {
  auto ctx = [&] { return how + " certificate " + hex(der, 6000); };
  require(toZ(x.serialNumber) == c.serial, "cert-serial", [&] { return ctx() + " serial=" + str(toZ(x.serialNumber)); });
  require(x.issuer == name_text(c.issuer), "cert-issuer", [&] { return "got '" + x.issuer + "' want '" + name_text(c.issuer) + "' " + ctx(); });
  require(x.subject == name_text(c.subject), "cert-subject", [&] { return "got '" + x.subject + "' want '" + name_text(c.subject) + "' " + ctx(); });
  require(x.validity_start == c.from.expected(), "cert-not-before", [&] { return "got " + std::to_string(x.validity_start) + " want " + std::to_string(c.from.expected()) + " " + ctx(); });
  require(x.validity_end == c.to.expected(), "cert-not-after", [&] { return "got " + std::to_string(x.validity_end) + " want " + std::to_string(c.to.expected()) + " " + ctx(); });
  require(x.derCert == der, "cert-der", ctx);
  if (c.kind != RSA_KEY) require(!x.pubkey, "cert-non-rsa-key", ctx);
  else {
    auto k = rsa(x); require(k, "cert-no-key", ctx);
    require(toZ(k->pubkey.n) == c.key->n && toZ(k->pubkey.e) == c.key->e, "cert-key", ctx);
  }
  std::string cn = common_name(c.subject), other = cn, icn = common_name(c.issuer);
  if (!cn.empty()) {
    require(x.appliesTo(cn), "cert-applies", ctx);
    other[0] ^= 0x20; require(!x.appliesTo(other), "cert-applies-other", ctx);
    if (size_t z = cn.find('\0'); z != std::string::npos) { for (std::string o : {cn.substr(0, z), cn.substr(z + 1), cn.substr(0, z) + cn.substr(z + 1)}) require(!x.appliesTo(o), "cert-applies-other", ctx); count("names with NUL characters"); }
    for (std::string o : {cn + "x", cn + std::string(1, '\0'), std::string(1, '\0') + cn, cn + "." , "x." + cn, cn.substr(1), cn.substr(0, cn.size() - 1), "*." + cn, " " + cn, std::string(), x.subject, std::string("*")}) if (o != cn) require(!x.appliesTo(o), "cert-applies-other", [&] { return "'" + o + "' " + ctx(); });
    if (icn != cn) require(!x.appliesTo(icn), "cert-applies-other", ctx);
    std::vector<std::string> near;   // relatives of the name, in the ways of host names
    for (std::string a : {"www.", "*.", ".", "a.", "xn--", "*", "**.", "mail.", "www", "http://", "https://"}) { near.push_back(a + cn); if (cn.starts_with(a)) near.push_back(cn.substr(a.size())); if (cn.starts_with("*.")) near.push_back(a + cn.substr(2)); if (size_t d = cn.find('.'); d != std::string::npos) near.push_back(a + cn.substr(d + 1)); }
    for (std::string a : {".", ".com", "/", ":443", " ", "\n", "*", ".*"}) { near.push_back(cn + a); if (cn.ends_with(a)) near.push_back(cn.substr(0, cn.size() - a.size())); }
    for (size_t d = 0; d < cn.size(); d++) if (cn[d] == '.' || cn[d] == '-' || cn[d] == ' ' || cn[d] == ',' || cn[d] == '/' || cn[d] == '@' || cn[d] == '=' || cn[d] == ':') { if (near.size() > 200) break; near.push_back(cn.substr(0, d)); near.push_back(cn.substr(d)); near.push_back(cn.substr(d + 1)); near.push_back(cn.substr(0, d) + cn.substr(d + 1)); near.push_back("*" + cn.substr(d)); near.push_back(cn.substr(0, d + 1) + "*"); }
    { std::string u = cn, l = cn; for (auto& c : u) c = (char)toupper((unsigned char)c); for (auto& c : l) c = (char)tolower((unsigned char)c); near.push_back(u); near.push_back(l); }
    for (auto& o : near) if (o != cn) { require(!x.appliesTo(o), "cert-applies-other", [&] { return "'" + o + "' " + ctx(); }); count("relatives of names refused"); }
  }
  observed(how + "/v" + std::to_string(c.version) + "/" + std::to_string(c.kind) + "/" + std::to_string(c.from.tag) + std::to_string(c.to.tag) + "/" + std::to_string(mpz_sizeinbase(c.serial.get_mpz_t(), 2)) + "/" + std::to_string(c.subject.size()) + "/" + std::to_string(c.from.Y), 7);
  count(how);
}
static CertSpec random_spec(Rng& r) {
  CertSpec c; c.version = r.chance(1, 4) ? 1 : 3;
  c.serial = r.chance(1, 6) ? Z((unsigned long)r.below(300)) : r.chance(1, 5) ? pow2(r.below(160)) : r.chance(1, 5) ? pow2(160) - 1 - Z((unsigned long)r.below(3)) : number(r, r.range(1, 160));
  auto host = [&] { std::string s; if (r.chance(1, 10)) for (size_t n = r.chance(1, 3) ? biglen(r, 14) : r.range(40, 400); s.size() < n;) s += r.chance(1, 9) ? '.' : "abcdefghij-0123"[r.below(15)]; for (size_t n = r.range(1, 3); n--;) { for (size_t k = r.range(1, 12); k--;) s += "abcdefghij-0123"[r.below(15)]; s += '.'; } if (r.chance(1, 12)) { s.insert(s.begin() + r.below(s.size()), (char)(r.chance(2, 3) ? 0 : r.below(32))); if (r.chance(1, 3)) s.insert(s.begin() + r.below(2), '\0'); } return s + "example"; };
  auto plain = host; auto hostname = [&, plain] {   // as certificates of servers, people and organisations have them
    switch (r.below(16)) {
      case 0: return "www." + plain(); case 1: return "*." + plain(); case 2: return plain() + ".com"; case 3: return "www.example.com." + std::string(r.below(2), 'x');
      case 4: return "*"+ plain(); case 5: return "https://" + plain() + "/"; case 6: return plain() + ":8443"; case 7: return "someone@" + plain(); case 8: return std::to_string(r.below(256)) + "." + std::to_string(r.below(256)) + ".0.1"; case 9: return "CN=" + plain(); case 10: return "WWW." + plain(); case 11: return plain() + ", " + plain(); default: return plain();
    } };
  c.issuer = random_name(r, host()); c.subject = r.chance(1, 8) ? c.issuer : random_name(r, hostname());
  if (r.chance(1, 10)) c.subject.erase(std::remove_if(c.subject.begin(), c.subject.end(), [](const Attr& a) { return a.kind == kCN; }), c.subject.end());
  c.from = random_when(r); c.to = random_when(r); c.hash = (int)r.below(3);
  c.kind = r.chance(1, 6) ? (KeyKind)r.range(1, 3) : RSA_KEY;
  c.key = &key_where(r, [](const Key& k) { return k.e >= 17; });
  if (c.version == 3) { if (r.chance(3, 4)) c.extensions = basic_extensions(r, r.chance(1, 2), r.chance(1, 2) ? host() : ""); c.issuer_uid = r.chance(1, 16); c.subject_uid = r.chance(1, 16); }
  return c;
}
static const Key& signer(Rng& r) { return key_where(r, [](const Key& k) { return k.bits <= 1100 && k.bits >= 800; }); }
static x509certificate parse(const bytes& in, DataFormat f, Rng& r) {
  Guarded g(in, r.chance(1, 2));
  try { return parseCertificate(g.get(), f); } catch (const std::exception& e) { fail("cert-refused", std::string(e.what()) + ": " + hex(in, 6000)); }
}
static void certs(Rng& r, uint64_t) {
  for (int k = 0; k < 14; k++) {
    CertSpec c = random_spec(r); bytes der = certificate(r, c, signer(r));
    if (k % 3 == 0) cross_check(c, der);
    auto x = parse(der, DataFormat::Der, r); judge(c, der, x, "DER");
    if (k % 2) { std::string p = pem(r, der, "CERTIFICATE"); if (r.chance(1, 3)) p = "Issuer: someone\n" + p; if (r.chance(1, 3)) p += "trailing text\n"; auto y = parse(bytes(p.begin(), p.end()), DataFormat::Pem, r); judge(c, der, y, "PEM");
      // the first of several certificates, beside keys and other texts
      std::string q = r.chance(1, 2) ? pem(r, r.raw(r.below(300)), r.pick(std::vector<std::string>{"RSA PRIVATE KEY", "CERTIFICATE REQUEST", "X509 CRL", "PUBLIC KEY"})) : ""; q += p;
      for (size_t n = r.range(1, 3); n--;) q += r.chance(1, 3) ? pem(r, private_key(signer(r)), "RSA PRIVATE KEY") : pem(r, r.chance(1, 2) ? r.raw(r.below(500)) : certificate(r, random_spec(r), signer(r)), "CERTIFICATE");
      auto z = parse(bytes(q.begin(), q.end()), DataFormat::Pem, r); judge(c, der, z, "first PEM of several"); }
    if (k == 0) sample([&] { return "subject '" + name_text(c.subject) + "' valid " + std::to_string(c.from.expected()) + ".." + std::to_string(c.to.expected()); });
  }
}
// One fixed certificate with every day boundary of a span of years.
static void calendar(Rng& r, uint64_t i) {
  CertSpec c; c.issuer = simple_name("i"); c.subject = simple_name("s"); c.kind = ED_KEY; c.key = &keys()[0];
  const Key& sk = signer(r);
  static const int days[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  std::vector<int> years; for (int y = 1950 + (int)i * 12; y < 1950 + (int)i * 12 + 12; y++) years.push_back(y);
  years.push_back((int)r.range(2200, 9999)); years.push_back((int)r.range(21, 99) * 100); years.push_back((int)r.range(0, 1949));
  for (int y : years) for (int m = 1; m <= 12; m++) {
    int last = days[m - 1] + (m == 2 && leap(y));
    c.from = When{(uint8_t)(y >= 1950 && y < 2050 ? (r.chance(1, 2) ? 23 : 24) : 24), y, m, 1, 0, 0, 0}; c.to = When{c.from.tag, y, m, last, 23, 59, 59};
    bytes der = seq({tbs(r, c), algo(0), der_bits(bytes(64, 1))}); (void)sk;
    auto x = parse(der, DataFormat::Der, r); judge(c, der, x, "calendar");
  }
}
static void bundles(Rng& r, uint64_t i) {
  size_t n = i < 4 ? i : r.below(7); std::vector<CertSpec> cs; std::vector<bytes> ds; std::string p;
  if (r.chance(1, 2)) p += "# a bundle\r\n";
  for (size_t k = 0; k < n; k++) { cs.push_back(random_spec(r)); ds.push_back(certificate(r, cs[k], signer(r))); if (r.chance(1, 3)) p += "# certificate " + std::to_string(k) + "\n"; p += pem(r, ds[k], "CERTIFICATE"); if (r.chance(1, 3)) p += "\n\n"; }
  Guarded g(text(p), r.chance(1, 2));
  std::vector<x509certificate> got; try { got = parseCertificatesPem(g.get()); } catch (const std::exception& e) { fail("cert-refused", std::string(e.what()) + ": " + p); }
  require(got.size() == n, "bundle-count", [&] { return "got " + std::to_string(got.size()) + " of " + std::to_string(n) + ":\n" + p; });
  for (size_t k = 0; k < n; k++) judge(cs[k], ds[k], got[k], "bundle");
  observed("bundle/" + std::to_string(n)); count("bundles");
}
// Bundles of very many certificates.
static void crowds(Rng& r, uint64_t i) {
  std::vector<CertSpec> cs; std::vector<bytes> ds; std::vector<std::string> ps; std::vector<size_t> at; std::string p;
  for (size_t k = 0; k < 6; k++) { cs.push_back(random_spec(r)); ds.push_back(certificate(r, cs[k], signer(r))); ps.push_back(pem(r, ds[k], "CERTIFICATE")); }
  size_t n = i < 3 ? 100 * (i + 1) + r.below(60) : r.range(300, 2500);
  for (size_t k = 0; k < n; k++) { at.push_back(r.below(6)); p += ps[at[k]]; }
  Guarded g(text(p), r.chance(1, 2));
  std::vector<x509certificate> got; try { got = parseCertificatesPem(g.get()); } catch (const std::exception& e) { fail("cert-refused", std::string(e.what()) + " in a bundle of " + std::to_string(n)); }
  require(got.size() == n, "bundle-count", [&] { return "got " + std::to_string(got.size()) + " of " + std::to_string(n) + " certificates"; });
  for (size_t k = 0; k < n; k++) { require(got[k].derCert == ds[at[k]] && toZ(got[k].serialNumber) == cs[at[k]].serial && got[k].subject == name_text(cs[at[k]].subject), "bundle-order", [&] { return "certificate " + std::to_string(k) + " of " + std::to_string(n); }); if (n - k < 4) judge(cs[at[k]], ds[at[k]], got[k], "large bundle"); }
  observed("crowd/" + std::to_string(n / 100)); count("certificates in large bundles", n);
}
static void privates(Rng& r, uint64_t i) {
  const Key& k = keys()[i % keys().size()]; bytes der = private_key(k);
  for (int f = 0; f < 2; f++) {
    std::string p = pem(r, der, "RSA PRIVATE KEY"); if (r.chance(1, 3)) p = "key:\n" + p;
    if (r.chance(1, 3)) p = pem(r, r.raw(r.below(900)), "CERTIFICATE") + p;
    if (r.chance(1, 3)) p += r.chance(1, 2) ? pem(r, r.raw(r.below(900)), "CERTIFICATE") : pem(r, private_key(r.pick(keys())), "RSA PRIVATE KEY");
    bytes in = f ? bytes(p.begin(), p.end()) : der; Guarded g(in, r.chance(1, 2)); std::unique_ptr<PrivateKey> pk;
    auto ctx = [&] { return std::string(f ? "PEM" : "DER") + " key of " + std::to_string(k.bits) + " bits n=" + str(k.n); };
    try { pk = parsePrivateKey(g.get(), f ? DataFormat::Pem : DataFormat::Der); } catch (const std::exception& e) { fail("key-refused", std::string(e.what()) + ctx()); }
    auto q = dynamic_cast<RsaPrivateKey*>(pk.get()); require(q, "key-missing", ctx);
    require(toZ(q->privkey.n) == k.n && toZ(q->privkey.d) == k.d, "key-value", ctx);
    if (i % 8 == 0 && f) { bytes m = r.raw(40), s = pk->sign(rsa_pkcs1_sha256, m); require(rfc8017::pkcs1_valid(k, "SHA256", m, s), "key-signs-wrongly", ctx); }
    observed(std::string("key/") + (f ? "pem/" : "der/") + std::to_string(k.bits) + "/" + std::to_string(mpz_sizeinbase(k.d.get_mpz_t(), 2))); count("private keys");
  }
}
VF_MAIN({ {"crowds", 6, 120, crowds}, {"keys", 51, 510, privates}, {"calendar", 34, 34, calendar}, {"bundles", 192, 2400, bundles}, {"certificates", 720, 12000, certs} })
