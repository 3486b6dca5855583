#include "api_part.h"
#include "rsabox.h"
#include "x509gen.h"
#include <caligo/Truststore.h>
namespace vf {
using namespace Caligo;
static void rsa_op(Rng& r, Call& c) {
  const Key& k = key_where(r, [](const Key& k) { return k.bits <= 1033; });
  int s = (int)r.below(kSchemes);
  size_t w = RsaBox::width_for(k.bits);
  if (w > 1024) w = 2048;
  auto box = RsaBox::make(k, w);
  bytes msg = r.data(len(r)), salt = r.data(hash_len(s));
  bytes sig = box->sign(s, c.in(msg), c.in(salt));
  c.out(sig);
  if (!sig.empty() && r.chance(1, 3)) sig[r.below(sig.size())] ^= 1 << r.below(8);
  if (r.chance(1, 8)) sig.resize(r.below(sig.size() + 5));
  c.out(box->verify(s, c.in(msg), c.in(sig)));
}
struct Inputs { std::vector<bytes> ders; std::vector<std::string> pems; std::vector<bytes> keyders; const Key* root; };
static const Inputs& inputs() {
  static const Inputs in = [] {
    Inputs x; Rng r(77);
    const Key& root = key_where(r, [](const Key& k) { return k.bits == 1024 && k.e == 65537; });
    x.root = &root;
    for (int i = 0; i < 16; i++) {
      CertSpec c; c.issuer = simple_name("Api Root"); c.subject = i ? simple_name("Api " + std::to_string(i)) : c.issuer; c.from = When::at(1000000000); c.to = When::at(3000000000);
      c.key = i ? &key_where(r, [](const Key& k) { return k.e >= 17 && k.bits <= 1100; }) : &root; c.hash = i % 3; c.serial = number(r, 150); c.version = i % 4 == 3 ? 1 : 3;
      if (i % 5 == 4) c.kind = (KeyKind)r.range(1, 3);
      if (c.version == 3) c.extensions = basic_extensions(r, i == 0, "a.example");
      x.ders.push_back(certificate(r, c, root));
      x.pems.push_back(pem(r, x.ders.back(), "CERTIFICATE"));
    }
    for (int i = 0; i < 6; i++) x.keyders.push_back(private_key(key_where(r, [](const Key& k) { return k.e >= 17 && k.bits <= 1100; })));
    return x;
  }();
  return in;
}
void warm_inputs() { inputs(); keys(); rfc8017::digest_info("SHA256"); attrs(); }
static void cert_out(Call& c, const x509certificate& x) {
  c.out(x.derCert); c.out(x.subject); c.out(x.issuer); c.out(bool(x.pubkey));
  if (!x.derCert.empty()) { outn(c, x.serialNumber); c.num(x.validity_start); c.num(x.validity_end); c.num(x.fqdns.size()); }
}
static bytes dented(Rng& r, bytes d) { if (r.chance(1, 3)) for (int k = (int)r.range(1, 3); k--;) { if (r.chance(1, 4)) d.resize(r.below(d.size() + 1)); else if (!d.empty()) d[r.below(d.size())] ^= 1 << r.below(8); } return d; }
static void cert_op(Rng& r, Call& c) {
  auto& in = inputs();
  x509certificate x = parseCertificate(c.in(dented(r, r.pick(in.ders))));
  cert_out(c, x);
  if (!x.derCert.empty()) c.out(x.appliesTo("a.example"));
}
static void bundle_op(Rng& r, Call& c) {
  auto& in = inputs(); std::string t;
  for (size_t k = r.below(3); k--;) t += r.pick(in.pems);
  bytes b(t.begin(), t.end()); b = dented(r, b);
  for (auto& x : parseCertificatesPem(c.in(b))) cert_out(c, x);
  cert_out(c, parseCertificate(c.in(text(r.pick(in.pems))), DataFormat::Pem));
}
static void verify_op(Rng& r, Call& c) {
  auto& in = inputs();
  x509certificate a = parseCertificate(c.in(r.pick(in.ders))), root = parseCertificate(c.in(in.ders[0]));
  if (r.chance(1, 3) && a.derCert.size() > 10) a.derCert[r.below(a.derCert.size())] ^= 1;
  c.out(a.verify(root));
}
static void key_op(Rng& r, Call& c) {
  auto& in = inputs(); bytes d = dented(r, r.pick(in.keyders));
  std::unique_ptr<PrivateKey> k = r.chance(1, 3) ? parsePrivateKey(c.in(text(pem(r, d, "RSA PRIVATE KEY"))), DataFormat::Pem) : parsePrivateKey(c.in(d));
  c.out(bool(k));
}
static void keysign_op(Rng& r, Call& c) {
  auto& in = inputs();
  std::unique_ptr<PrivateKey> k = parsePrivateKey(c.in(r.pick(in.keyders)));
  if (k) c.out(k->sign(r.chance(1, 3) ? rsa_pkcs1_sha384 : r.chance(1, 2) ? rsa_pkcs1_sha256 : rsa_pkcs1_sha512, c.in(r.data(len(r)))));
}
static void asn1_op(Rng& r, Call& c) {
  bytes d = r.chance(1, 2) ? r.pick(inputs().ders) : r.data(len(r)); d = dented(r, d);
  asn1_view v(c.in(d));
  for (int k = 0; k < 20 && !v.empty(); k++) { c.num((int)v.peek()); auto [id, s] = v.read(); c.num((int)id); c.out(s); if (s.size() && r.chance(1, 2)) v = asn1_view(s); }
}
static void pssign_op(Rng& r, Call& c) {
  auto& in = inputs();
  std::unique_ptr<PrivateKey> k = parsePrivateKey(c.in(r.pick(in.keyders)));
  if (k) (void)k->sign(r.chance(1, 2) ? rsa_pss_rsae_sha256 : rsa_pss_rsae_sha384, c.in(r.data(len(r))));
}
static void trust_op(Rng& r, Call& c) {
  auto& in = inputs(); auto& ts = Truststore::Instance();
  if (!ts.get("O=Org of Api Root CN=Api Root")) ts.addCertificate(parseCertificate(in.ders[0]));
  std::vector<x509certificate> v;
  for (size_t k = r.below(3); k--;) { auto x = parseCertificate(c.in(dented(r, in.ders[1 + r.below(15)]))); if (!x.derCert.empty()) v.push_back(std::move(x)); }
  c.out(ts.trust(v, r.chance(1, 4) ? 4000000000ULL : 1700000000ULL));
  c.out(ts.get("nobody").has_value());
}
void add_x509(Ops& v) {
  add(v, "RSA signature", rsa_op, 2);
  add(v, "certificate", cert_op, 6); add(v, "PEM bundle", bundle_op, 2); add(v, "certificate signature", verify_op, 2); add(v, "private key", key_op, 2); add(v, "private key signature", keysign_op, 0); add(v, "asn1_view", asn1_op, 8);
  add(v, "PSS signature with random salt", pssign_op, 0, ApiOp::Random); add(v, "trust store", trust_op, 2, ApiOp::Store);
}
} // namespace vf
