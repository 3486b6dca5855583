// C19: verification of everything that is not (or is barely) a signature, judged by an RFC 8017 reference verifier.
#include "rsabox.h"
#include <caligo/X509Certificate.h>
using namespace vf;
using rfc8017::raw_sign;

static std::string name(int s) { return std::string(is_pss(s) ? "PSS-" : "PKCS1-") + hash_of(s); }
static bool ref_valid(const Key& k, int s, cspan m, cspan sig) { return is_pss(s) ? rfc8017::pss_valid(k, hash_of(s), m, sig, hash_len(s)) : rfc8017::pkcs1_valid(k, hash_of(s), m, sig); }
static void present(const RsaBox& box, const Key& k, int s, const bytes& m, const bytes& sig, const std::string& attack) {
  Guarded g(sig), gm(m, false);
  bool want = ref_valid(k, s, m, sig), got;
  auto ctx = [&] { return attack + ": " + name(s) + " width=" + std::to_string(box.width()) + " n=" + str(k.n) + " e=" + str(k.e) + " message=" + hex(m) + " signature=" + hex(sig, 1600); };
  try { got = box.verify(s, gm.get(), g.get()); } catch (const std::exception& e) { fail("verify-throws", ctx() + ": " + e.what()); }
  require(got == want, want ? "valid-signature-rejected" : "forged-signature-accepted", ctx);
  observed(attack + "/" + name(s) + "/" + std::to_string(k.bits));
  count(want ? "accepted rightly" : "rejected rightly"); count(attack);
}
static bytes encoded(Rng& r, const Key& k, int s, const bytes& m) {
  if (is_pss(s)) return rfc8017::pss(hash_of(s), ref::digest(hash_of(s), m), r.data(hash_len(s)), k.bits - 1);
  return rfc8017::pkcs1(hash_of(s), m, k.len());
}
static const Key& pick(Rng& r, int s, size_t max, bool mustfit = true) { return key_where(r, [&](const Key& k) { return k.bits <= max && (!mustfit || fits(s, k.bits)); }); }

// Large messages: the genuine signature, and the same one with one byte of the message changed.
static void big(Rng& r, uint64_t i) {
  int s = (int)(i % kSchemes);
  const Key& k = pick(r, s, 1600);
  auto box = RsaBox::make(k, RsaBox::width_for(k.bits));
  for (int t = 0; t < 3; t++) {
    bytes m = r.raw(biglen(r, t ? 19 : 22)), good = raw_sign(k, encoded(r, k, s, m));
    present(*box, k, s, m, good, "genuine");
    for (int u = 0; u < 4; u++) { bytes m2 = m; size_t at = u == 0 ? m2.size() - 1 : u == 1 ? 0 : r.below(m2.size()); m2[at] ^= 1 << r.below(8); if (u == 3) { m2 = m; m2.resize(r.chance(1, 2) ? m.size() - 1 : r.below(m.size())); } present(*box, k, s, m2, good, "other large message"); }
  }
  observed("big"); count("messages of 2 KiB to 4 MiB", 15);
}
static void modified(Rng& r, uint64_t i) {
  int s = (int)(i % kSchemes);
  const Key& k = pick(r, s, i % 8 == 7 ? 4096 : 1600);
  auto box = RsaBox::make(k, RsaBox::width_for(k.bits));
  bytes m = r.data(r.below(200)), good = raw_sign(k, encoded(r, k, s, m));
  int reps = k.bits > 1600 ? 3 : 16;
  present(*box, k, s, m, good, "genuine");
  for (int t = 0; t < reps; t++) { bytes b = good; size_t bit = t < 8 ? (t < 4 ? t : 8 * b.size() - 1 - t) : r.below(8 * b.size()); b[bit / 8] ^= 0x80 >> (bit % 8); present(*box, k, s, m, b, "flipped bit"); }
  for (size_t cut : {(size_t)1, (size_t)2, r.range(1, good.size()), good.size()}) {
    present(*box, k, s, m, bytes(good.begin(), good.end() - cut), "truncated");
    present(*box, k, s, m, bytes(good.begin() + cut, good.end()), "front removed");
  }
  for (size_t add : {(size_t)1, (size_t)8, (size_t)r.range(1, 600)}) {
    bytes b = good; b.resize(b.size() + add); present(*box, k, s, m, b, "zeros appended");
    b = bytes(add, 0); b.insert(b.end(), good.begin(), good.end()); present(*box, k, s, m, b, "zeros prepended");
    b = good; bytes x = r.raw(add); b.insert(b.end(), x.begin(), x.end()); present(*box, k, s, m, b, "bytes appended");
    b = x; b.insert(b.end(), good.begin(), good.end()); present(*box, k, s, m, b, "bytes prepended");
  }
  { bytes b(good.rbegin(), good.rend()); present(*box, k, s, m, b, "reversed"); }
  for (Z f = 1; f < 4; f++) { Z z = fromBytesBE(good) + f * k.n; size_t l = (mpz_sizeinbase(z.get_mpz_t(), 2) + 7) / 8; present(*box, k, s, m, toBytesBE(z, std::max(l, k.len())), "modulus added"); }
  present(*box, k, s, m, toBytesBE(k.n - fromBytesBE(good), k.len()), "negated");
  for (Z z : {Z(0), Z(1), Z(k.n - 1), k.n, Z(k.n + 1), Z(k.p), Z(pow2(8 * k.len()) - 1)}) present(*box, k, s, m, toBytesBE(z, k.len()), "special value");
  present(*box, k, s, m, {}, "empty");
  for (int t = 0; t < 4; t++) present(*box, k, s, m, r.raw(k.len()), "random");
  present(*box, k, s, m, encoded(r, k, s, m), "encoding itself");
  for (int t = 0; t < 6; t++) { bytes m2 = m; if (m2.empty() || t == 0) m2.push_back(0); else if (t == 1) m2.pop_back(); else m2[r.below(m2.size())] ^= 1 << r.below(8); present(*box, k, s, m2, good, "other message"); }
  if (!is_pss(s)) { present(*box, k, s, rfc8017::der_wrap(0x30, m), good, "wrapped message"); }
  for (int o = 0; o < kSchemes; o++) if (o != s) present(*box, k, o, m, good, "other scheme");
  const Key& k2 = pick(r, s, 1600); if (k2.n != k.n) { auto b2 = RsaBox::make(k2, RsaBox::width_for(k2.bits)); bytes b = good; b.resize(k2.len()); present(*b2, k2, s, m, b, "other key"); present(*b2, k2, s, m, good, "other key"); }
}
// Badly padded blocks, signed with the private key: the numbers are right, only the encoding is wrong.
static void padding15(Rng& r, uint64_t i) {
  int s = (int)(i % 3); std::string h = hash_of(s);
  const Key& k = pick(r, s, i % 9 == 8 ? 4096 : 1600);
  auto box = RsaBox::make(k, RsaBox::width_for(k.bits));
  bytes m = r.data(r.below(100)), em = rfc8017::pkcs1(h, m, k.len()), di = rfc8017::digest_info(h), d = ref::digest(h.c_str(), rfc8017::der_wrap(0x30, m));
  auto play = [&](const bytes& e, const std::string& what) { if (e.size() == k.len() && fromBytesBE(e) < k.n) present(*box, k, s, m, raw_sign(k, e), what); };
  size_t L = k.len(), T = di.size() + d.size(), sep = L - T - 1;
  play(em, "genuine");
  for (int b : {0, 2, 3, 0x80, 0xff}) { bytes e = em; e[1] = (uint8_t)b; play(e, "block type"); }
  { bytes e = em; e[0] = 1; play(e, "first byte"); e = em; e[0] = (uint8_t)(r.u32() | 1) & 0x7f; play(e, "first byte"); }
  for (int t = 0; t < 8; t++) { bytes e = em; size_t at = t == 0 ? 2 : t == 1 ? sep - 1 : r.range(2, sep - 1); e[at] = t & 1 ? 0 : (uint8_t)(0xff ^ (1 << r.below(8))); play(e, "padding byte"); }
  { bytes e = em; e[sep] = 1; play(e, "separator"); e[sep] = 0xff; play(e, "separator"); }
  for (size_t j = 0; j < T; j += (k.bits > 1600 ? 13 : 1)) { bytes e = em; e[sep + 1 + j] ^= 1 << r.below(8); play(e, "DigestInfo or digest byte"); }
  for (size_t pad : {(size_t)0, (size_t)1, (size_t)7, (size_t)8, sep - 3}) {   // short padding, garbage after the digest
    if (pad + 3 + T > L) continue;
    bytes e{0, 1}; e.resize(2 + pad, 0xff); e.push_back(0); e.insert(e.end(), di.begin(), di.end()); e.insert(e.end(), d.begin(), d.end());
    bytes g = r.data(L - e.size()); e.insert(e.end(), g.begin(), g.end()); if (e != em) play(e, "garbage after the digest");
    bytes x{0, 1}; x.resize(2 + pad, 0xff); x.push_back(0); bytes g2 = r.raw(L - T - x.size()); x.insert(x.end(), g2.begin(), g2.end()); x.insert(x.end(), di.begin(), di.end()); x.insert(x.end(), d.begin(), d.end()); play(x, "garbage before the DigestInfo");
  }
  auto block = [&](const bytes& t) { bytes e{0, 1}; if (t.size() + 3 > L) return bytes(); e.resize(L - t.size() - 1, 0xff); e.push_back(0); e.insert(e.end(), t.begin(), t.end()); return e; };
  play(block(d), "digest without DigestInfo");
  { bytes nd = di; nd.erase(nd.end() - 4, nd.end() - 2); nd[1] -= 2; nd[3] -= 2; bytes t = nd; t.insert(t.end(), d.begin(), d.end()); play(block(t), "DigestInfo without NULL"); }
  for (auto o : {"SHA256", "SHA384", "SHA512", "SHA1", "SHA224", "SHA3-256"}) {
    bytes t = rfc8017::digest_info(o), od = ref::digest(o, rfc8017::der_wrap(0x30, m)); bytes a = t; a.insert(a.end(), od.begin(), od.end()); play(block(a), "other hash");
    t.insert(t.end(), d.begin(), d.end()); play(block(t), "other hash's identifier");
  }
  play(rfc8017::pkcs1_of_digest(h, ref::digest(h.c_str(), m), L), "digest of the bare message");
  play(rfc8017::pkcs1_of_digest(h, ref::digest(h.c_str(), rfc8017::der_wrap(0x31, m)), L), "digest of the message as a SET");
  play(rfc8017::pkcs1_of_digest(h, ref::digest(h.c_str(), {}), L), "digest of nothing");
  { bytes t = di; t.insert(t.end(), d.begin(), d.end()); bytes e{0, 1}; e.resize(L - t.size() - 2, 0xff); e.push_back(0); e.push_back(0); e.insert(e.end(), t.begin(), t.end()); play(e, "two separators"); }
  { bytes e(L, 0); e[L - 1] = 1; play(e, "tiny value"); }
  sample([&] { return "forged PKCS#1 blocks for a key of " + std::to_string(k.bits) + " bits, " + h; });
}
static void padding_pss(Rng& r, uint64_t i) {
  int s = 3 + (int)(i % 3); std::string h = hash_of(s);
  bool tight = i % 4 == 3;   // also keys too small for this hash's salt
  const Key& k = pick(r, s, i % 9 == 8 ? 4096 : 1600, !tight);
  auto box = RsaBox::make(k, RsaBox::width_for(k.bits));
  size_t emBits = k.bits - 1, emLen = (emBits + 7) / 8, hl = hash_len(s);
  bytes m = r.data(r.below(100)), mh = ref::digest(h.c_str(), m);
  auto play = [&](const bytes& e, const std::string& what) { if (!e.empty() && fromBytesBE(e) < k.n) present(*box, k, s, m, raw_sign(k, e), what); };
  play(rfc8017::pss(h, mh, r.data(hl), emBits), "genuine");
  std::vector<size_t> sl{0, 1, hl - 1, hl + 1, 20, 32, 48, 64}; if (emLen >= hl + 2) { sl.push_back(emLen - hl - 2); sl.push_back(r.below(emLen - hl - 1)); }
  for (size_t l : sl) play(rfc8017::pss(h, mh, r.data(l), emBits), "salt length");
  if (!fits(s, k.bits)) return;
  size_t ps = emLen - 2 * hl - 2;
  for (int b : {0, 2, 3, 0x81, 0xff}) play(rfc8017::pss(h, mh, r.data(hl), emBits, {}, (uint8_t)b), "separator byte");
  for (int b : {0, 1, 0xcc, 0xbd, 0x3c, 0xff}) play(rfc8017::pss(h, mh, r.data(hl), emBits, {}, 1, (uint8_t)b), "trailer byte");
  for (int t = 0; t < 8 && ps; t++) { bytes lead(ps, 0); size_t at = t == 0 ? 0 : t == 1 ? ps - 1 : r.below(ps); lead[at] = (uint8_t)(t == 0 ? 1 : 1 << r.below(8)); play(rfc8017::pss(h, mh, r.data(hl), emBits, lead), "padding byte"); }
  { bytes e = rfc8017::pss(h, mh, r.data(hl), emBits);
    for (int b = 0; b < 8; b++) { bytes x = e; x[0] |= 0x80 >> b; if (x != e) play(x, "leftmost bits"); }
    for (int t = 0; t < (k.bits > 1600 ? 4 : 40); t++) { bytes x = e; x[t < 4 ? t : r.below(x.size())] ^= 1 << r.below(8); play(x, "encoded byte"); }
    for (int b : {1, 2, 3, 0x80}) { bytes x = e; x.insert(x.begin(), (uint8_t)b); play(x, "byte above the encoding"); }
    bytes x = e; x.erase(x.begin()); play(x, "encoding shifted"); x = e; x.push_back(0xbc); play(x, "encoding shifted"); }
  for (auto o : {"SHA256", "SHA384", "SHA512", "SHA1"}) { bytes oh = ref::digest(o, m); play(rfc8017::pss(o, oh, r.data(oh.size()), emBits), "other hash"); if (oh.size() != hl) play(rfc8017::pss(h, oh, r.data(hl), emBits), "other hash inside"); }
  { // mask made with another hash
    bytes salt = r.data(hl), mp(8, 0); mp.insert(mp.end(), mh.begin(), mh.end()); mp.insert(mp.end(), salt.begin(), salt.end());
    bytes H = ref::digest(h.c_str(), mp), db(emLen - hl - 1, 0); db[db.size() - hl - 1] = 1; std::copy(salt.begin(), salt.end(), db.end() - hl);
    bytes mask = rfc8017::mgf1("SHA1", H, db.size()); for (size_t j = 0; j < db.size(); j++) db[j] ^= mask[j];
    db[0] &= 0xff >> (8 * emLen - emBits); db.insert(db.end(), H.begin(), H.end()); db.push_back(0xbc); play(db, "mask of another hash"); }
  play(rfc8017::pss(h, m, r.data(hl), emBits), "message not hashed");
  play(rfc8017::pss(h, ref::digest(h.c_str(), mh), r.data(hl), emBits), "hashed twice");
  play(rfc8017::pss(h, ref::digest(h.c_str(), {}), r.data(hl), emBits), "hash of nothing");
}
// Small exponents: perfect cubes that start with the right padding, made without the private key.
static void cubes(Rng& r, uint64_t i) {
  int s = (int)(i % 3); std::string h = hash_of(s);
  Key k = key_where(r, [&](const Key& k) { return k.e == 3 && fits(s, k.bits) && k.bits <= 2100; });
  auto box = RsaBox::make(k, RsaBox::width_for(k.bits));
  for (int t = 0; t < 12; t++) {
    bytes m = r.data(r.below(60)), di = rfc8017::digest_info(h), d = ref::digest(h.c_str(), rfc8017::der_wrap(0x30, m));
    bytes e{0, 1}; e.resize(2 + (t % 3 == 0 ? 0 : t % 3 == 1 ? 8 : 1), 0xff); e.push_back(0); e.insert(e.end(), di.begin(), di.end()); e.insert(e.end(), d.begin(), d.end());
    if (e.size() > k.len()) continue;
    e.resize(k.len(), t & 1 ? 0xff : 0x00);
    Z z = fromBytesBE(e), c; mpz_root(c.get_mpz_t(), z.get_mpz_t(), 3); if (!(t & 1)) c += 1;
    present(*box, k, s, m, toBytesBE(c, k.len()), "cube root");
    // suffix cubes: the digest is right at the end
    bytes tail = di; tail.insert(tail.end(), d.begin(), d.end()); tail.resize(std::min<size_t>(tail.size(), k.len() / 3));
  }
}
// Scheme numbers the key type does not know are never accepted, whatever the signature.
static void schemes(Rng& r, uint64_t i) {
  using namespace Caligo;
  const Key& k = pick(r, (int)(i % 6), 1600);
  RsaPubkey pub(rsa_public_key<4096>(fromZ<4096>(k.n), fromZ<4096>(k.e)));
  int s = (int)(i % 6); bytes m = r.data(50), sig = raw_sign(k, encoded(r, k, s, m));
  static const int own[6][2] = {{0x401, 0x401}, {0x501, 0x501}, {0x601, 0x601}, {0x804, 0x809}, {0x805, 0x80a}, {0x806, 0x80b}};
  auto check = [&](int t) {
    bool want = t == own[s][0] || t == own[s][1], got = static_cast<PublicKey&>(pub).validateSignature((Tls13SignatureScheme)t, m, sig);
    require(got == want, want ? "valid-signature-rejected" : "forged-signature-accepted", [&] { return "scheme number " + std::to_string(t) + " with a " + name(s) + " signature, n=" + str(k.n); });
    observed("scheme/" + std::to_string(t) + "/" + std::to_string(s)); count("scheme numbers");
  };
  for (int t = 0; t < 0x10000; t++) check(t);
}
// A correct encoding with one byte changed, at every position of the block, signed with the private key.
static void positions(Rng& r, uint64_t i) {
  int s = (int)(i % kSchemes); size_t group = (i / kSchemes) % 3, part = (i / kSchemes / 3) % 2;
  const Key& k = key_where(r, [&](const Key& k) { return fits(s, k.bits) && (group == 0 ? k.bits <= 1600 : group == 1 ? k.bits > 1600 && k.bits <= 2048 : k.bits > 2048 && k.bits <= 4096); });
  auto box = RsaBox::make(k, group == 1 && part ? 4096 : RsaBox::width_for(k.bits));
  bytes m = r.data(r.below(100)), em = encoded(r, k, s, m);
  present(*box, k, s, m, raw_sign(k, em), "genuine");
  for (size_t at = part; at < em.size(); at += 2) {
    bytes e = em; e[at] ^= r.chance(1, 2) ? 1 << r.below(8) : (int)r.range(1, 255);
    if (fromBytesBE(e) < k.n) present(*box, k, s, m, raw_sign(k, e), "each byte of the encoding");
  }
}
// Verification alternates between a key and others that agree with it in part of their words (modulus, exponent or both),
// with the same message and signature: the verdict belongs to the whole key.
static void related(Rng& r, uint64_t i) {
  int s = (int)(i % kSchemes);
  const Key& k = pick(r, s, 1600);
  auto box = RsaBox::make(k, RsaBox::width_for(k.bits));
  bytes m = r.data(r.below(80)), good = raw_sign(k, encoded(r, k, s, m));
  for (int t = 0; t < 10; t++) {
    Key o = k; std::string what;
    size_t words = (k.bits + 31) / 32;
    switch (t < 8 ? t % 4 : r.below(4)) {
      case 0: { size_t w = 1 + r.below(words - 1); o.n ^= uniform(r, 31) << (32 * w); if (o.n == k.n || o.n < pow2(k.bits - 1) || o.n >= pow2(k.bits)) { o.n = k.n; mpz_combit(o.n.get_mpz_t(), 32 * (words / 2) + r.below(32)); } what = "modulus differs above the lowest word"; break; }
      case 1: { o.n ^= pow2(1 + r.below(31)); what = "modulus differs in the lowest word"; break; }
      case 2: { size_t w = 1 + r.below(words - 1); o.e += (1 + uniform(r, 16)) << (32 * w); if (o.e >= pow2(k.bits)) o.e = k.e + pow2(32); what = "exponent differs above the lowest word"; break; }
      default: { o.e += 2 * (1 + (unsigned long)r.below(50)); what = "exponent differs"; }
    }
    auto ob = RsaBox::make(o, box->width());
    if (r.chance(1, 2)) present(*box, k, s, m, good, "genuine");
    present(*ob, o, s, m, good, what);
    if (r.chance(1, 2)) present(*ob, o, s, m, good, what);
    if (r.chance(1, 3)) { bytes m2 = m; if (m2.empty()) m2.push_back(1); else m2[r.below(m2.size())] ^= 1 << r.below(8); present(*box, k, s, m2, good, "other message"); }
    present(*box, k, s, m, good, "genuine");
  }
}
// Keys too small for the scheme, of every size from 3 bits: there is no valid signature under them.
static void small_keys(Rng& r, uint64_t i) {
  for (int t = 0; t < 12; t++) {
    int s = (int)r.below(kSchemes);
    size_t top = 1; while (!fits(s, top)) top++;           // the smallest size that fits
    size_t bits = t < 4 ? top - 1 - r.below(9) : t < 6 ? top + r.below(10) : r.chance(1, 2) ? r.range(4, 64) : r.range(4, top);
    Key k;
    for (;;) {
      Z u = uniform(r, bits - bits / 2), v = uniform(r, bits / 2);
      mpz_setbit(u.get_mpz_t(), bits - bits / 2 - 1); mpz_setbit(v.get_mpz_t(), bits / 2 - 1); if (bits > 8) mpz_setbit(u.get_mpz_t(), bits - bits / 2 - 2);
      mpz_nextprime(k.p.get_mpz_t(), u.get_mpz_t()); mpz_nextprime(k.q.get_mpz_t(), v.get_mpz_t());
      if (k.p == 2 || k.q == 2 || k.p == k.q) { if (bits < 6) bits++; continue; }
      k.n = k.p * k.q; k.bits = mpz_sizeinbase(k.n.get_mpz_t(), 2);
      Z lam = (k.p - 1) * (k.q - 1);
      k.e = r.chance(1, 2) ? 65537 : r.chance(1, 2) ? 3 : 17 + 2 * r.below(200);
      if (mpz_invert(k.d.get_mpz_t(), k.e.get_mpz_t(), lam.get_mpz_t())) break;
      if (bits < 12) bits++;
    }
    auto box = RsaBox::make(k, r.chance(1, 16) ? 2048 : RsaBox::width_for(k.bits));
    std::string h = hash_of(s);
    bytes m = r.data(r.below(100)), d = ref::digest(h.c_str(), rfc8017::der_wrap(0x30, m)), di = rfc8017::digest_info(h);
    size_t L = k.len();
    auto number = [&](const Z& z, const std::string& what) { if (z >= 0 && z < pow2(8 * L)) present(*box, k, s, m, toBytesBE(z, L), what + ", small key"); };
    for (Z z : {Z(0), Z(1), Z(2), Z(k.n - 1), k.n, Z(k.n + 1), Z(k.p), Z(k.q), Z(pow2(8 * L) - 1)}) number(z, "special value");
    for (int c = 0; c < 4; c++) present(*box, k, s, m, r.raw(L), "random, small key");
    for (size_t c = 0; c < 6; c++) present(*box, k, s, m, bytes(r.below(2 * L + 3), c & 1 ? 0xff : 0), "zeros or ones, small key");
    auto sign = [&](bytes e, const std::string& what) { if (e.size() > L) e.resize(L); Z z = fromBytesBE(e); if (z < k.n) number(powm(z, k.d, k.n), what); };
    bytes t15 = di; t15.insert(t15.end(), d.begin(), d.end());
    for (size_t pad = 0; pad < 12; pad++) { bytes e{0, 1}; e.resize(2 + pad, 0xff); e.push_back(0); e.insert(e.end(), t15.begin(), t15.end()); sign(e, "short padding"); }
    { bytes e = t15; sign(e, "DigestInfo alone"); e = d; if (e.size() < L) e.insert(e.begin(), L - e.size(), 0); sign(e, "digest alone"); bytes f(d.end() - std::min(L, d.size()), d.end()); f[0] = 0; sign(f, "end of the digest"); }
    bytes mh = ref::digest(h.c_str(), m);
    for (size_t sl : {(size_t)0, (size_t)1, (size_t)r.below(64), hash_len(s) - 1, hash_len(s)}) { bytes e = rfc8017::pss(h, mh, r.data(sl), k.bits - 1); if (!e.empty()) sign(e, "salt length"); }
    { bytes e(L, 0); e.back() = 0xbc; sign(e, "trailer alone"); bytes g(mh.begin(), mh.end()); g.push_back(0xbc); if (g.size() > L) g.erase(g.begin(), g.end() - L); g[0] = 0; sign(g, "digest and trailer"); }
    observed("small/" + name(s) + "/" + std::to_string(k.bits), 3);
    count("keys at or below the smallest size that fits the scheme");
  }
}
VF_MAIN({ {"small-keys", 24, 1500, small_keys, 120}, {"related", 24, 1200, related}, {"big", 16, 600, big}, {"positions", 36, 720, positions, 200}, {"schemes", 6, 300, schemes, 120}, {"padding-pss", 36, 3600, padding_pss, 200}, {"padding15", 36, 3600, padding15, 120}, {"cubes", 12, 600, cubes}, {"modified", 36, 4800, modified} })
