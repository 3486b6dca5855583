// C24: random PKIs with adversarial certificates; trust verdicts against a model of chains.
#include "x509gen.h"
#include <caligo/Truststore.h>
using namespace vf;
using namespace Caligo;

struct Made { CertSpec spec; bytes der, tbs, sig; int outer = 0; std::string why; };   // outer: algorithm announced with the signature, -1 unknown
static const char* const H[] = {"SHA256", "SHA384", "SHA512"};
static const Key& pool(Rng& r) { return key_where(r, [](const Key& k) { return k.bits >= 800 && k.bits <= 1100 && k.e == 65537; }); }
static bytes outer_algo(int a) {
  if (a >= 0 && a < 3) return algo(a);
  if (a == -1) return seq({bytes{6, 9, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 5}, bytes{5, 0}});          // SHA-1
  if (a == -2) return seq({bytes{6, 8, 0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 2}});                               // ECDSA
  return seq({bytes{6, 9, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 0x0a}, bytes{0x30, 0}});                   // PSS
}
static void finish(Made& m) { m.der = seq({m.tbs, outer_algo(m.outer), der_wrap(3, m.sig)}); }
static bytes sign(const Key& k, int h, const bytes& t) { bytes s{0}; app(s, rfc8017::raw_sign(k, rfc8017::pkcs1_of_digest(H[h], ref::digest(H[h], t), k.len()))); return s; }
static Made make(Rng& r, const CertSpec& c, const Key& by) { Made m; m.spec = c; m.outer = c.hash; m.tbs = tbs(r, c); m.sig = sign(by, c.hash, m.tbs); finish(m); return m; }

// The model: does `c` carry a valid signature of `issuer` and lie within its validity?
static bool linked(const Made& c, const Made& issuer) {
  if (c.spec.from.expected() < issuer.spec.from.expected() || c.spec.to.expected() > issuer.spec.to.expected()) return false;
  if (issuer.spec.kind != RSA_KEY || c.outer < 0 || c.sig.empty() || c.sig[0] != 0) return false;
  const Key& k = *issuer.spec.key; bytes s(c.sig.begin() + 1, c.sig.end());
  if (s.size() != k.len() || fromBytesBE(s) >= k.n) return false;
  bytes em = rfc8017::pkcs1_of_digest(H[c.outer], ref::digest(H[c.outer], c.tbs), k.len());
  return !em.empty() && rfc8017::open(k, s, k.len()) == em;
}
static bool model(const std::map<std::string, const Made*>& roots, const std::vector<const Made*>& list, uint64_t now) {
  if (list.empty() || list[0]->spec.from.expected() > now || list[0]->spec.to.expected() < now) return false;
  std::multimap<std::string, const Made*> known(roots.begin(), roots.end());   // issuers vouched for so far; never a second one of a trusted name
  std::vector<bool> in(list.size());
  for (bool more = true; more;) {
    more = false;
    for (size_t i = 0; i < list.size(); i++) {
      if (in[i] || roots.count(name_text(list[i]->spec.subject))) continue;
      auto [from, to] = known.equal_range(name_text(list[i]->spec.issuer));
      if (!std::any_of(from, to, [&](auto& k) { return linked(*list[i], *k.second); })) continue;
      if (i == 0) return true;
      known.emplace(name_text(list[i]->spec.subject), list[i]); in[i] = more = true;
    }
  }
  return false;
}
static x509certificate parse(const Made& m) { return parseCertificate(m.der); }
static uint64_t serial_no = 0;
static std::string fresh(const char* what) { return std::string(what) + " " + std::to_string(getpid()) + "-" + std::to_string(serial_no++); }

struct Pki {
  std::vector<Made> roots, certs;     // certs: everything that may be presented
  std::map<std::string, const Made*> trusted;
  Pki() { roots.reserve(8); certs.reserve(300); }
};
static const int64_t T0 = 1600000000;
static CertSpec spec(Rng& r, const Name& subject, const Name& issuer, const When& from, const When& to, const Key& k) {
  CertSpec c; c.subject = subject; c.issuer = issuer; c.from = from; c.to = to; c.key = &k; c.hash = (int)r.below(3); c.serial = number(r, 120);
  if (r.chance(1, 2)) c.extensions = basic_extensions(r, r.chance(1, 2), "");
  return c;
}
static void add_root(Rng& r, Pki& p) {
  Name n = simple_name(fresh("Root")); const Key& k = pool(r);
  p.roots.push_back(make(r, spec(r, n, n, When::at(T0 - (int64_t)r.range(900, 1100) * 86400), When::at(T0 + (int64_t)r.range(4000, 5000) * 86400), k), k));
  if (r.chance(1, 10)) p.roots.back().spec.kind = RSA_KEY;
  Truststore::Instance().addCertificate(parse(p.roots.back()));
}
static const Made& child(Rng& r, Pki& p, const Made& issuer, const char* what, int fault, std::string* label = nullptr) {
  int64_t f = (int64_t)issuer.spec.from.unix_time(), t = (int64_t)issuer.spec.to.unix_time();
  if (!r.chance(1, 3)) f += (int64_t)r.below(100000);
  if (!r.chance(1, 3)) t -= (int64_t)r.below(100000);
  const Key& k = pool(r); Name n = r.chance(1, 2) ? simple_name(fresh(what)) : random_name(r, fresh(what));
  CertSpec c = spec(r, n, issuer.spec.subject, When::at(f), When::at(t), k);
  std::string why = "good";
  const Key* by = issuer.spec.key;
  switch (fault) {
    case 1: c.from = When::at(issuer.spec.from.unix_time() - 1 - (int64_t)(r.chance(1, 2) ? 0 : r.below(1000000))); why = "starts before its issuer"; break;
    case 2: c.to = When::at(issuer.spec.to.unix_time() + 1 + (int64_t)(r.chance(1, 2) ? 0 : r.below(1000000))); why = "ends after its issuer"; break;
    case 3: { const Key* o = by; while (o->n == by->n) o = &pool(r); by = o; why = "signed by another key"; break; }
    case 4: c.kind = (KeyKind)r.range(1, 3); why = "key of another type"; break;
    default: break;
  }
  Made m = make(r, c, *by);
  switch (fault) {
    case 5: m.sig[r.range(1, m.sig.size() - 1)] ^= 1 << r.below(8); why = "signature bit flipped"; break;
    case 6: { CertSpec d = c; switch (r.below(4)) { case 0: d.serial += 1; break; case 1: d.key = &pool(r); if (d.key->n == c.key->n) d.serial += 1; break; case 2: d.from = When::at(c.from.unix_time() + 1); break; default: d.subject[0].text += "x"; }
              bytes t2 = tbs(r, d); m.spec = d; m.tbs = t2; why = "changed after signing"; break; }
    case 7: m.outer = (m.outer + 1 + (int)r.below(2)) % 3; why = "other algorithm announced"; break;
    case 8: m.outer = -1 - (int)r.below(3); why = "unsupported algorithm announced"; break;
    case 9: if (r.chance(1, 2)) m.sig.push_back(0); else if (r.chance(1, 2)) m.sig.insert(m.sig.begin() + 1, 0); else m.sig.pop_back(); why = "signature of another length"; break;
    case 10: m.sig[0] = (uint8_t)r.range(1, 7); why = "unused bits in the signature"; break;
    case 11: m.sig = bytes(r.below(2), 0); why = "no signature"; break;
    case 12: { bytes s(m.sig.begin() + 1, m.sig.end()); Z z = fromBytesBE(s) + issuer.spec.key->n; bytes b{0}; app(b, toBytesBE(z, s.size())); m.sig = b; why = "signature plus modulus"; break; }
    default: break;
  }
  m.why = why; finish(m);
  p.certs.push_back(m);
  if (label) *label = why;
  return p.certs.back();
}
static void verdict(Rng& r, Pki& p, const std::vector<const Made*>& list, uint64_t now, const std::string& what) {
  bool want = model(p.trusted, list, now);
  std::vector<x509certificate> v; for (auto m : list) v.push_back(parse(*m));
  bool got;
  auto ctx = [&] { std::string s = what + " at " + std::to_string(now) + ", " + std::to_string(list.size()) + " certificates:"; for (auto m : list) s += " [" + name_text(m->spec.subject) + " by " + name_text(m->spec.issuer) + " " + m->why + " " + std::to_string(m->spec.from.expected()) + ".." + std::to_string(m->spec.to.expected()) + "]"; return s; };
  try { got = Truststore::Instance().trust(v, now); } catch (const std::exception& e) { fail("trust-throws", ctx() + ": " + e.what()); }
  require(got == want, want ? "trusted-chain-refused" : "untrusted-chain-accepted", ctx);
  for (auto& [n, m] : p.trusted) { auto g = Truststore::Instance().get(n); require(g && (*g)->derCert == m->der, "trust-store-changed", ctx); }
  for (auto m : list) if (!p.trusted.count(name_text(m->spec.subject))) require(!Truststore::Instance().get(name_text(m->spec.subject)), "trust-store-grew", ctx);
  observed(what + "/" + std::to_string(list.size()) + "/" + (want ? "t" : "f") + "/" + (list.empty() ? "" : list[0]->why), 2);
  count(want ? "trusted lists" : "untrusted lists");
}
static void start(Rng& r, Pki& p) { for (size_t n = r.range(1, 3); n--;) add_root(r, p); for (auto& m : p.roots) p.trusted[name_text(m.spec.subject)] = &m; }
static uint64_t some_time(Rng& r, const Made& leaf) {
  uint64_t f = leaf.spec.from.expected(), t = leaf.spec.to.expected();
  switch (r.below(9)) { case 0: return f; case 1: return f - 1; case 2: return t; case 3: return t + 1; case 4: return 0; case 5: return ~0ull; default: return f + r.below(t - f + 1); }
}
static std::vector<const Made*> shuffled(Rng& r, std::vector<const Made*> v) { for (size_t i = v.size(); i > 2; i--) std::swap(v[i - 1], v[1 + r.below(i - 1)]); return v; }

// A chain of some depth with at most one fault somewhere, presented in several orders with noise.
static void chains(Rng& r, uint64_t i) {
  Pki p; start(r, p);
  size_t depth = r.range(0, 4); int fault = i % 2 ? (int)r.range(1, 12) : 0; size_t at = r.below(depth + 1);
  const Made* issuer = &r.pick(p.roots); std::vector<const Made*> chain; std::string why = "good";
  for (size_t d = 0; d <= depth; d++) { issuer = &child(r, p, *issuer, d == depth ? "Leaf" : "CA", fault && d == at ? fault : 0, fault && d == at ? &why : nullptr); chain.insert(chain.begin(), issuer); }
  std::vector<const Made*> noise;
  for (size_t n = r.below(4); n--;) noise.push_back(&child(r, p, r.chance(1, 2) ? r.pick(p.roots) : r.pick(p.certs), "Noise", r.chance(1, 2) ? (int)r.range(1, 12) : 0));
  { Name u = simple_name(fresh("Unknown")); const Key& k = pool(r); p.certs.push_back(make(r, spec(r, u, u, When::at(T0 - 86400), When::at(T0 + 86400), k), k)); p.certs.back().why = "self-signed"; noise.push_back(&p.certs.back()); }
  std::string what = "chain of depth " + std::to_string(depth) + ", " + why + " at " + std::to_string(depth - at);
  verdict(r, p, chain, some_time(r, *chain[0]), what);
  for (int k = 0; k < 3; k++) { auto v = chain; if (k) v.insert(v.end(), noise.begin(), noise.end()); verdict(r, p, shuffled(r, v), some_time(r, *chain[0]), what + " shuffled"); }
  if (chain.size() > 1) { auto v = chain; v.erase(v.begin() + r.range(1, v.size() - 1)); v.insert(v.end(), noise.begin(), noise.end()); verdict(r, p, shuffled(r, v), some_time(r, *chain[0]), "missing link"); }
  { auto v = chain; v.push_back(&r.pick(p.roots)); verdict(r, p, shuffled(r, v), some_time(r, *chain[0]), what + " with root"); }
  if (chain.size() > 1) { auto v = chain; std::swap(v[0], v[r.range(1, v.size() - 1)]); verdict(r, p, v, some_time(r, *v[0]), "CA presented first"); }
  verdict(r, p, chain, some_time(r, *chain[0]), what + " again");
  sample([&] { return what; });
}
// Impostors: certificates bearing trusted or chain members' names with the attacker's keys.
static void impostors(Rng& r, uint64_t i) {
  Pki p; start(r, p); if (p.roots.size() < 2) { add_root(r, p); p.trusted.clear(); for (auto& m : p.roots) p.trusted[name_text(m.spec.subject)] = &m; }
  const Made &victim = p.roots[0], &other = p.roots[1];
  const Key* ak = &pool(r); while (ak->n == victim.spec.key->n || ak->n == other.spec.key->n) ak = &pool(r);
  auto forge = [&](const Name& subj, const Name& iss, const Key& own, const Key& by, const char* why) -> const Made& {
    When f = victim.spec.from.expected() > other.spec.from.expected() ? victim.spec.from : other.spec.from, t = victim.spec.to.expected() < other.spec.to.expected() ? victim.spec.to : other.spec.to;
    p.certs.push_back(make(r, spec(r, subj, iss, f, t, own), by)); p.certs.back().why = why; return p.certs.back(); };
  // the victim root's name on the attacker's key: self-signed, by the other trusted root, or by an intermediate
  const Made& selfs = forge(victim.spec.subject, victim.spec.subject, *ak, *ak, "impostor root, self-signed");
  const Made& cross = forge(victim.spec.subject, other.spec.subject, *ak, *other.spec.key, "impostor root, signed by another root");
  const Made& l1 = forge(simple_name(fresh("Leaf")), victim.spec.subject, pool(r), *ak, "leaf by the impostor");
  uint64_t now = T0;
  for (auto v : std::vector<std::vector<const Made*>>{{&l1, &selfs}, {&l1, &cross}, {&l1, &cross, &selfs}, {&l1, &selfs, &cross}, {&selfs}, {&cross}, {&l1}, {&victim}, {&cross, &selfs}}) verdict(r, p, v, now, "impostor root");
  const Made& good = forge(simple_name(fresh("Leaf")), victim.spec.subject, pool(r), *victim.spec.key, "good");
  for (auto v : std::vector<std::vector<const Made*>>{{&good, &selfs, &cross}, {&good, &cross}, {&good, &l1, &selfs}, {&good}}) verdict(r, p, v, now, "good leaf beside impostors");
  // an intermediate and invalid certificates bearing its name
  const Made& ca = forge(simple_name(fresh("CA")), victim.spec.subject, pool(r), *victim.spec.key, "good");
  const Made& leaf = forge(simple_name(fresh("Leaf")), ca.spec.subject, pool(r), *ca.spec.key, "good");
  const Made& f1 = forge(ca.spec.subject, victim.spec.subject, *ak, *ak, "impostor CA, badly signed"); const Made& f2 = forge(ca.spec.subject, ca.spec.subject, *ak, *ak, "impostor CA, self-signed");
  const Made& evil = forge(simple_name(fresh("Leaf")), ca.spec.subject, pool(r), *ak, "leaf by the impostor");
  for (auto v : std::vector<std::vector<const Made*>>{{&leaf, &ca, &f1, &f2}, {&leaf, &f1, &f2, &ca}, {&leaf, &f1, &ca}, {&leaf, &f2, &ca, &f1}, {&leaf, &f1, &f2}, {&evil, &f1, &ca, &f2}, {&evil, &ca}, {&evil, &f1}, {&evil, &f2}, {&leaf, &evil, &ca}}) verdict(r, p, v, now, "impostor CA");
  // cycles and chains that never reach a root
  Name na = simple_name(fresh("A")), nb = simple_name(fresh("B")); const Key &ka = pool(r), &kb = pool(r);
  const Made& a = forge(na, nb, ka, kb, "cycle"); const Made& b = forge(nb, na, kb, ka, "cycle"); const Made& cl = forge(simple_name(fresh("Leaf")), na, pool(r), ka, "leaf of a cycle");
  for (auto v : std::vector<std::vector<const Made*>>{{&cl, &a, &b}, {&a, &b}, {&cl, &b, &a, &leaf, &ca}, {&leaf, &a, &b, &ca}}) verdict(r, p, v, now, "cycle");
  verdict(r, p, {}, now, "empty list");
  // an end-entity's name equal to the issuer's textual name with attributes moved around
  Name tricky = victim.spec.subject; std::reverse(tricky.begin(), tricky.end()); const Made& tr = forge(simple_name(fresh("Leaf")), tricky, pool(r), *ak, "leaf by the impostor"); verdict(r, p, {&tr, &selfs}, now, "reordered name");
  (void)i;
}
// Several valid CA certificates of one name: renewed keys, renewed certificates, one CA vouched for by two others.
static void twins(Rng& r, uint64_t) {
  Pki p; start(r, p);
  size_t depth = r.range(1, 3), n = r.range(2, 3);
  std::vector<const Made*> noise; const Made* issuer = &r.pick(p.roots); std::vector<const Made*> chain;
  for (size_t d = 0; d < depth; d++) {
    std::vector<const Made*> same{&child(r, p, *issuer, "CA", 0)};
    for (size_t k = 1; k < n; k++) {   // certificates of the same name, for another or the same key, of other issuers and periods, some of them invalid
      const Made& by = r.chance(1, 2) ? *issuer : r.pick(p.roots);
      CertSpec c = spec(r, same[0]->spec.subject, by.spec.subject, r.chance(1, 3) ? When::at(T0 + 500 * 86400) : r.chance(1, 2) ? by.spec.from : same[0]->spec.from, r.chance(1, 4) ? When::at(T0 - 3 * 86400) : r.chance(1, 2) ? same[0]->spec.to : by.spec.to, r.chance(1, 3) ? *same[0]->spec.key : pool(r));
      p.certs.push_back(make(r, c, r.chance(1, 6) ? pool(r) : *by.spec.key)); p.certs.back().why = "twin"; same.push_back(&p.certs.back());
    }
    issuer = r.pick(same); for (auto m : same) (m == issuer ? chain : noise).push_back(m);
  }
  const Made& leaf = child(r, p, *issuer, "Leaf", r.chance(1, 5) ? (int)r.range(1, 12) : 0);
  for (int k = 0; k < 6; k++) {
    std::vector<const Made*> v{&leaf};
    for (auto m : chain) if (!r.chance(1, 12)) v.push_back(m);
    for (auto m : noise) if (k == 0 || r.chance(3, 4)) v.push_back(m);
    if (r.chance(1, 6)) v.push_back(r.pick(v));
    verdict(r, p, shuffled(r, v), T0, "twins");
  }
}
// Arbitrary graphs.
static void graphs(Rng& r, uint64_t) {
  Pki p; start(r, p);
  size_t n = r.range(3, 9);
  for (size_t k = 0; k < n; k++) child(r, p, p.certs.empty() || r.chance(1, 3) ? r.pick(p.roots) : r.pick(p.certs), "Node", r.chance(1, 3) ? (int)r.range(1, 12) : 0);
  for (int k = 0; k < 8; k++) {
    std::vector<const Made*> v; for (auto& m : p.certs) if (r.chance(4, 5)) v.push_back(&m);
    if (v.empty()) continue;
    std::swap(v[0], v[r.below(v.size())]);
    verdict(r, p, shuffled(r, v), r.chance(1, 3) ? some_time(r, *v[0]) : T0, "graph");
  }
}
// Crowds: presentations of many certificates - long chains, many siblings, the same certificate many times.
static void crowds(Rng& r, uint64_t i) {
  Pki p; start(r, p);
  size_t size = i % 3 == 0 ? r.range(65, 140) : r.range(10, 70), depth = i % 2 ? r.range(1, 4) : std::min<size_t>(size, r.range(5, 70)), at = ~size_t(0);
  if (r.chance(1, 4)) at = r.below(depth + 1);
  const Made* issuer = &r.pick(p.roots); std::vector<const Made*> chain, all; std::string why = "good";
  for (size_t d = 0; d <= depth; d++) {
    issuer = &child(r, p, *issuer, d == depth ? "Leaf" : "CA", d == at ? (int)r.range(1, 12) : 0, d == at ? &why : nullptr); chain.insert(chain.begin(), issuer);
    if (d < depth) all.push_back(issuer);
  }
  while (all.size() < size && p.certs.size() < 280) {
    if (r.chance(1, 8) && all.size()) { all.push_back(r.pick(all)); continue; }
    const Made& by = r.chance(1, 2) || chain.size() < 2 ? r.pick(p.roots) : r.chance(2, 3) ? *chain[r.range(1, chain.size() - 1)] : all.empty() ? r.pick(p.roots) : *r.pick(all);
    all.push_back(&child(r, p, by, "Sibling", r.chance(1, 5) ? (int)r.range(1, 12) : 0));
  }
  std::string what = std::string("crowd of depth ") + (depth > 8 ? "over 8" : std::to_string(depth)) + ", " + why;
  auto show = [&](std::vector<const Made*> v) { verdict(r, p, v, r.chance(1, 6) ? some_time(r, *chain[0]) : T0, what); count("certificates in crowds", v.size()); };
  std::vector<const Made*> v{chain[0]}; v.insert(v.end(), all.begin(), all.end());
  show(shuffled(r, v)); show(shuffled(r, v));
  { auto w = chain; for (auto m : all) if (std::find(chain.begin(), chain.end(), m) == chain.end()) w.push_back(m); show(w); std::reverse(w.begin() + 1, w.end()); show(w); }
  if (chain.size() > 1) { auto gone = chain[r.range(1, chain.size() - 1)]; std::vector<const Made*> w; for (auto m : v) if (m != gone) w.push_back(m); show(shuffled(r, w)); }
  if (chain.size() > 1) { std::vector<const Made*> w{chain[0]}; for (auto m : all) if (m != chain[1]) w.push_back(m); auto x = w; w.push_back(chain[1]); show(w); x.insert(x.begin() + 1, chain[1]); show(x); }   // the leaf's issuer last, first
}
// Issuer names that are almost the name of a trusted or presented certificate, signed with that certificate's key.
static void names(Rng& r, uint64_t) {
  Pki p; start(r, p);
  const Made& root = r.pick(p.roots); const Made& ca = child(r, p, root, "CA", 0);
  if (r.chance(1, 2)) child(r, p, ca, "CA", 0);
  for (int k = 0; k < 12; k++) {
    const Made& is = r.chance(1, 2) ? root : r.pick(p.certs);
    if (is.why != "good" && &is != &root) continue;
    Name n = is.spec.subject; std::string why = "exact issuer name";
    size_t a = r.below(n.size()); std::string& t = n[a].text;
    switch (k == 0 ? 99 : r.below(10)) {
      case 0: t += std::string(r.range(1, 3), "x 0"[r.below(3)]); why = "issuer name extended"; break;
      case 1: if (!t.empty()) t.pop_back(); else t = "x"; why = "issuer name shortened"; break;
      case 2: if (!t.empty()) t = t.substr(0, r.below(t.size())); else t = "x"; why = "issuer name cut"; break;
      case 3: for (char& c : t) if (isalpha((unsigned char)c)) { c ^= 0x20; if (r.chance(1, 2)) break; } why = "issuer name in other case"; break;
      case 4: if (!t.empty()) t[r.below(t.size())] ^= 1 << r.below(3); else t = "x"; why = "issuer name with one other character"; break;
      case 5: t.insert(0, 1, ' '); why = "issuer name with a leading space"; break;
      case 6: t += ' '; why = "issuer name with a trailing space"; break;
      case 7: t += std::string(1, '\0') + (r.chance(1, 2) ? "x" : ""); n[a].tag = 0x0c; why = "issuer name with a NUL"; break;
      case 8: if (n.size() > 1) n.erase(n.begin() + a); else t += "x"; why = "issuer name without an attribute"; break;
      case 9: { std::set<int> have; for (auto& x : n) have.insert(x.kind); int kd = (int)r.below(12); while (have.count(kd)) kd = (int)r.below(12); n.push_back({kd, 0x0c, r.chance(1, 3) ? "" : "z"}); why = n.back().text.empty() ? "issuer name with an empty attribute" : "issuer name with a further attribute"; break; }
      default: break;
    }
    CertSpec c = spec(r, simple_name(fresh("Leaf")), n, is.spec.from, is.spec.to, pool(r));
    p.certs.push_back(make(r, c, *is.spec.key)); p.certs.back().why = why; const Made& leaf = p.certs.back();
    std::vector<const Made*> v{&leaf}; for (auto& m : p.certs) if (m.why == "good") v.push_back(&m);
    verdict(r, p, shuffled(r, v), T0, why);
    if (r.chance(1, 2)) {   // the same one link further down
      const Made& below = child(r, p, leaf, "Leaf", 0); p.certs.back().why = "below: " + why; v.insert(v.begin(), &below);
      verdict(r, p, shuffled(r, v), T0, "below a CA with " + why);
    }
  }
}
// Far times: validity beyond 2038, 2106 and up to 9999, judged at times that agree with valid ones in their low bits.
static void times(Rng& r, uint64_t) {
  Pki p; p.roots.reserve(8);
  static const int64_t end = 253402300799ll;
  auto far = [&] { return When::at(r.chance(1, 4) ? end : r.chance(1, 3) ? (1ll << r.range(31, 37)) + (int64_t)r.below(7) - 3 : (int64_t)r.range(2000000000ull, (uint64_t)end - 10)); };
  auto past = [&] { return When::at(r.chance(1, 3) ? 0 : r.chance(1, 2) ? (int64_t)r.below(1000000000) : r.chance(1, 2) ? (int64_t)r.range(4000000000ull, 5000000000ull) : T0); };
  for (int k = 0; k < 2; k++) {
    Name n = simple_name(fresh("Root")); const Key& rk = pool(r); When f = past(), t = far(); if (t.unix_time() < f.unix_time()) std::swap(f, t); if (!k) { f = When::at(0); t = When::at(end); }
    p.roots.push_back(make(r, spec(r, n, n, f, t, rk), rk)); Truststore::Instance().addCertificate(parse(p.roots.back()));
  }
  for (auto& m : p.roots) p.trusted[name_text(m.spec.subject)] = &m;
  for (int k = 0; k < 6; k++) {
    const Made* issuer = &r.pick(p.roots); std::vector<const Made*> chain; size_t depth = r.below(3);
    for (size_t d = 0; d <= depth; d++) {
      int64_t f = issuer->spec.from.unix_time(), t = issuer->spec.to.unix_time(), a = f + (int64_t)r.below((uint64_t)(t - f) / 2 + 1), b = r.chance(1, 2) ? t : a + (int64_t)r.below((uint64_t)(t - a) + 1);
      if (r.chance(1, 3)) a = f;
      if (r.chance(1, 6)) { if (r.chance(1, 2)) { b = t + (1ll << r.range(0, 36)); if (b > end) b = t; } else { a = f - (1ll << r.range(0, 33)); if (a < 0) a = f; } }
      CertSpec c = spec(r, simple_name(fresh(d == depth ? "Leaf" : "CA")), issuer->spec.subject, When::at(a), When::at(b), pool(r));
      p.certs.push_back(make(r, c, *issuer->spec.key)); p.certs.back().why = "far times"; issuer = &p.certs.back(); chain.insert(chain.begin(), issuer);
    }
    uint64_t f = chain[0]->spec.from.expected(), t = chain[0]->spec.to.expected(), in = f + r.below(t - f + 1);
    for (uint64_t now : std::vector<uint64_t>{in, f, t, f - 1, t + 1, in + (1ull << 32), in - (1ull << 32), t + (1ull << 32), in & 0xffffffffull, in | 1ull << 63, in | 1ull << 31, in ^ 1ull << 33, (uint64_t)(int64_t)(int32_t)in, in * 1000, ~0ull, 0ull, in + (1ull << r.range(31, 63)), (t & ~0xffffffffull) - 1, (f & ~0xffffffffull), f + (1ull << 32), 1ull << r.below(64)})
      verdict(r, p, chain, now, "far times of depth " + std::to_string(depth));
  }
}
// Histories: the same names and signatures come again with other contents, roots are replaced by new ones of their name.
static void histories(Rng& r, uint64_t) {
  Pki p; p.roots.reserve(32); start(r, p);
  auto current = [&](size_t n) -> const Made& { return *p.trusted[name_text(p.roots[n].spec.subject)]; };
  size_t nroots = p.roots.size();
  std::vector<std::vector<const Made*>> chains;
  auto variant = [&](const Made& m) -> const Made* {   // the same certificate with something changed
    if (p.certs.size() > 60) return &m;
    Made x = m; CertSpec d = m.spec;
    switch (r.below(7)) {
      case 0: d.serial = m.spec.serial == 0 ? Z(1) : Z(m.spec.serial ^ 1); x.tbs = tbs(r, d); x.why = "same signature, other serial"; break;
      case 1: d.key = &key_where(r, [&](const Key& k) { return k.bits == m.spec.key->bits && k.e == 65537; }); if (d.key->n == m.spec.key->n) d.serial ^= 2; x.tbs = tbs(r, d); x.why = "same signature, other key"; break;
      case 2: x.sig[r.range(1, x.sig.size() - 1)] ^= 1 << r.below(8); x.why = "same contents, other signature"; break;
      case 3: for (char& c : d.subject.back().text) if (isalnum((unsigned char)c)) { c ^= 1; break; } x.tbs = tbs(r, d); x.why = "same signature, other subject"; break;
      case 4: d.to = When::at(d.to.unix_time() - 86400); x.tbs = tbs(r, d); x.why = "same signature, other period"; break;
      case 5: { // the same name again, with another key, properly signed by whoever signed the first
        const Key* by = nullptr; for (auto& q : p.roots) if (name_text(q.spec.subject) == name_text(m.spec.issuer) && linked(m, q)) by = q.spec.key;
        for (auto& q : p.certs) if (name_text(q.spec.subject) == name_text(m.spec.issuer) && linked(m, q)) by = q.spec.key;
        if (!by) return &m;
        d.key = &pool(r); if (r.chance(1, 2)) d.serial = m.spec.serial; x = make(r, d, *by); x.why = "renewed with another key"; break; }
      default: { d.issuer = current(r.below(nroots)).spec.subject; x.tbs = tbs(r, d); x.why = "same signature, other issuer"; }
    }
    x.spec = d; finish(x); p.certs.push_back(x); return &p.certs.back();
  };
  for (int step = 0; step < 24; step++) {
    unsigned what = step < 2 ? 0 : (unsigned)r.below(8);
    if (what == 0 && p.certs.size() < 50) {
      const Made* issuer = &current(r.below(nroots)); std::vector<const Made*> c;
      for (size_t d = r.below(3) + 1; d--;) { issuer = &child(r, p, *issuer, d ? "CA" : "Leaf", 0); c.insert(c.begin(), issuer); }
      chains.push_back(c); verdict(r, p, c, T0, "history: new chain");
    } else if (what == 1 && p.roots.size() < 12) {   // a root is replaced
      size_t n = r.below(nroots); const Made& old = current(n); const Key& k = r.chance(1, 4) ? *old.spec.key : pool(r); CertSpec c = old.spec; c.key = &k; c.serial += 1;
      if (r.chance(1, 2)) { c.from = When::at(T0 - r.range(1, 400) * 86400 * 30); c.to = When::at(T0 + r.range(1, 400) * 86400 * 30); }
      p.roots.push_back(make(r, c, k)); p.roots.back().why = "replaced root"; p.trusted[name_text(c.subject)] = &p.roots.back();
      Truststore::Instance().addCertificate(parse(p.roots.back())); count("roots replaced");
      auto g = Truststore::Instance().get(name_text(c.subject)); require(g && (*g)->derCert == p.roots.back().der, "trust-store-changed", [&] { return "replaced root " + name_text(c.subject); });
      for (auto& ch : chains) verdict(r, p, ch, T0, "history: after a root was replaced");
    } else if (chains.size()) {
      std::vector<const Made*> c = r.pick(chains); std::string label = "history: seen before";
      if (what > 3) { size_t at = r.below(c.size()); const Made* v = variant(*c[at]); label = "history: changed"; if (r.chance(1, 4)) c.push_back(v); else c[at] = v; if (r.chance(1, 3)) chains.push_back(c); }
      verdict(r, p, c, T0, label);
    }
  }
}
VF_MAIN({ {"crowds", 60, 1500, crowds}, {"names", 120, 3000, names}, {"times", 60, 2000, times}, {"histories", 120, 3000, histories}, {"impostors", 48, 1500, impostors}, {"chains", 320, 12000, chains}, {"twins", 200, 6000, twins}, {"graphs", 240, 6000, graphs} })
