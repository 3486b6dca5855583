// C19: encoded messages evolved by the coverage they reach in the verifier (inside the encoding: before masking, with the
// hash made to fit or not), signed with the private key; every verdict is compared with the RFC 8017 reference.
#include "rsabox.h"
#include "evolve.h"
using namespace vf;
using rfc8017::raw_sign;
static std::string name(int s) { return std::string(is_pss(s) ? "PSS-" : "PKCS1-") + hash_of(s); }

static void forge(Rng& r, uint64_t i) {
  int s = (int)(i % kSchemes);
  const Key& k = key_where(r, [&](const Key& k) { return k.bits <= 1600 && k.e < 100000 && fits(s, k.bits); });
  auto box = RsaBox::make(k, RsaBox::width_for(k.bits));
  bytes m = r.data(r.below(40)), mh = ref::digest(hash_of(s), m);
  size_t hl = mh.size(), emBits = k.bits - 1, emLen = is_pss(s) ? (emBits + 7) / 8 : k.len(), dbl = is_pss(s) ? emLen - hl - 1 : 0;
  bytes blank = is_pss(s) ? bytes(1 + emLen, 0) : rfc8017::pkcs1(hash_of(s), m, k.len());
  if (is_pss(s)) { bytes salt = r.raw(hl); std::copy(salt.begin(), salt.end(), blank.begin() + 1 + dbl - hl); blank[1 + dbl - hl - 1] = 1; blank[0] = 1; blank.back() = 0xbc; }
  Evolution e(r, blank.size() + 8);
  size_t accepted = 0, refused = 0;
  auto f = [&](const bytes& in) {
    bytes g = in; g.resize(blank.size()); bytes em;
    if (is_pss(s)) {
      bytes db(g.begin() + 1, g.begin() + 1 + dbl), H(g.begin() + 1 + dbl, g.end() - 1);
      if (g[0] & 1) { bytes mp(8, 0); mp.insert(mp.end(), mh.begin(), mh.end()); mp.insert(mp.end(), db.end() - hl, db.end()); H = ref::digest(hash_of(s), mp); }
      bytes mask = rfc8017::mgf1(hash_of(s), H, dbl); for (size_t j = 0; j < dbl; j++) db[j] ^= mask[j];
      if (!(g[0] & 2)) db[0] &= 0xff >> (8 * emLen - emBits);
      em = db; em.insert(em.end(), H.begin(), H.end()); em.push_back(g.back());
    } else em = g;
    if (rfc8017::os2ip(em) >= k.n) return;
    bytes sig = raw_sign(k, em);
    bool want = is_pss(s) ? rfc8017::pss_valid(k, hash_of(s), m, sig, hl) : rfc8017::pkcs1_valid(k, hash_of(s), m, sig), got;
    auto ctx = [&] { return "evolved: " + name(s) + " width=" + std::to_string(box->width()) + " n=" + str(k.n) + " e=" + str(k.e) + " message=" + hex(m) + " signature=" + hex(sig, 1600) + " encoded=" + hex(em, 1600); };
    try { got = box->verify(s, m, sig); } catch (const std::exception& x) { fail("verify-throws", ctx() + ": " + x.what()); }
    require(got == want, want ? "valid-signature-rejected" : "forged-signature-accepted", ctx);
    (want ? accepted : refused)++;
  };
  e.mutators = {{4, [&](Rng& r, bytes& d) { if (d.size()) d[0] = (uint8_t)r.below(4); }}, {6, [&](Rng& r, bytes& d) { d.resize(blank.size()); if (is_pss(s)) { size_t at = 1 + r.below(dbl); if (r.chance(1, 2)) at = 1 + dbl - hl - 1 - r.below(std::min<size_t>(dbl - hl, 3)); d[at] = r.pick(std::vector<uint8_t>{0, 1, 0x80, 0xff, (uint8_t)r.u32()}); } else d[r.below(d.size())] = r.pick(std::vector<uint8_t>{0, 1, 2, 0xff, (uint8_t)r.u32()}); }}};
  if (!is_pss(s)) e.mutators.erase(e.mutators.begin());
  e.tryout(blank, name(s), f);
  e.run(250, name(s), f);
  count("evolved accepted rightly", accepted); count("evolved rejected rightly", refused);
  if (!accepted) count("jobs without an accepted encoding");
  if (i < 6) sample([&] { return name(s) + " key of " + std::to_string(k.bits) + " bits: " + std::to_string(accepted) + " accepted, " + std::to_string(refused) + " refused, " + std::to_string(e.found()) + " behaviours"; });
}
VF_MAIN({ {"evolved", 24, 240, forge, 90} })
