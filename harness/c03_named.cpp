// C03: hashes selected by name.
#include "hashes.h"
#include <caligo/hash.h>
using namespace vf;

struct Named { const char* name; const char* ref; size_t block; std::vector<uint8_t> id; };
static bytes sha_id(uint8_t n, uint8_t len) { return {0x30, uint8_t(0x11 + len), 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, n, 0x05, 0x00, 0x04, len}; }
static const std::vector<Named>& names() {
  static const bytes md5 = {0x30, 0x20, 0x30, 0x0c, 0x06, 0x08, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x02, 0x05, 0x05, 0x00, 0x04, 0x10};
  static const bytes sha1 = {0x30, 0x21, 0x30, 0x09, 0x06, 0x05, 0x2b, 0x0e, 0x03, 0x02, 0x1a, 0x05, 0x00, 0x04, 0x14};
  static const std::vector<Named> n = {
    {"md5", "MD5", 64, md5}, {"sha", "SHA1", 64, sha1}, {"sha1", "SHA1", 64, sha1},
    {"sha224", "SHA224", 64, sha_id(4, 28)}, {"sha2-224", "SHA224", 64, sha_id(4, 28)},
    {"sha256", "SHA256", 64, sha_id(1, 32)}, {"sha2-256", "SHA256", 64, sha_id(1, 32)},
    {"sha384", "SHA384", 128, sha_id(2, 48)}, {"sha2-384", "SHA384", 128, sha_id(2, 48)},
    {"sha512", "SHA512", 128, sha_id(3, 64)}, {"sha2-512", "SHA512", 128, sha_id(3, 64)},
    {"sha3-224", "SHA3-224", 144, sha_id(7, 28)}, {"sha3-256", "SHA3-256", 136, sha_id(8, 32)},
    {"sha3-384", "SHA3-384", 104, sha_id(9, 48)}, {"sha3-512", "SHA3-512", 72, sha_id(10, 64)},
  };
  return n;
}

static void behave(Rng& r, uint64_t i) {
  const Named& n = names()[i % names().size()];
  for (int rep = 0; rep < 60; rep++) {
    bytes msg = r.data(length(r, n.block, 20000));
    // the name need not be terminated
    std::string longer = std::string(n.name) + "-512";
    std::string_view nm = r.chance(1, 2) ? std::string_view(n.name) : std::string_view(longer).substr(0, strlen(n.name));
    auto ctx = [&] { return std::string(n.name) + " len=" + std::to_string(msg.size()); };
    bytes want = ref::digest(n.ref, msg);
    if (r.chance(1, 4)) {
      size_t c = r.below(msg.size() + 1);
      Caligo::Hash h(nm, cspan(msg).subspan(0, c), std::string((const char*)msg.data() + c, msg.size() - c));
      require_same(h.data(), want, std::string("digest-") + n.name, ctx);
      count("constructed from pieces");
    }
    Caligo::Hash h(nm);
    ref::Digest so(n.ref);
    size_t o = 0;
    for (size_t k : pieces(r, msg.size(), n.block)) {
      if (r.chance(1, 5)) h.add(std::string_view((const char*)msg.data() + o, k)); else h.add(cspan(msg).subspan(o, k));
      so.add(cspan(msg).subspan(o, k));
      o += k;
      if (r.chance(1, 6)) { bytes v = h; require_same(v, so.get(), std::string("digest-") + n.name, ctx); count("intermediate reads"); }
    }
    bytes v = h;
    require_same(v, want, std::string("digest-") + n.name, ctx);
    require_same(h.data(), want, std::string("digest-") + n.name, ctx);
    std::string t = h;
    require_same(t, ref::hexlow(want), std::string("text-") + n.name, ctx);
    require(h.hashsize() == want.size(), std::string("size-") + n.name, [&] { return std::to_string(h.hashsize()); });
    require_same(h.getAsn1Id(), n.id, std::string("identifier-") + n.name, ctx);
    require(h.MaxLength() >= (1ull << 61) - 1, std::string("maxlength-") + n.name, [&] { return std::to_string(h.MaxLength()); });
    observed(std::string(n.name) + "/" + std::to_string(msg.size() % n.block));
    sample([&] { return ctx() + " -> " + t; });
  }
}

// Large messages, at once and in few pieces.
static void big(Rng& r, uint64_t i) {
  const Named& n = names()[i % names().size()];
  for (int k = 0; k < 10; k++) {
    bytes buf = r.raw(biglen(r, k == 0 ? 24 : 21));
    cspan m = cspan(buf).subspan(r.below(16));
    std::string text;
    auto ctx = [&] { return std::string(n.name) + " random bytes, pieces so far " + text; };
    Caligo::Hash h(n.name);
    ref::Digest want(n.ref);
    size_t o = 0;
    for (size_t c : bigpieces(r, m.size())) {
      if (r.chance(1, 5)) h.add(std::string_view((const char*)m.data() + o, c)); else h.add(m.subspan(o, c));
      want.add(m.subspan(o, c));
      o += c;
      if (text.size() < 300) text += std::to_string(c) + ",";
      if (r.chance(1, 8)) { bytes v = h; require_same(v, want.get(), std::string("digest-") + n.name, ctx); }
    }
    require_same(h.data(), want.get(), std::string("digest-") + n.name, ctx);
    if (k % 3 == 0) {
      size_t c = r.below(m.size() + 1);
      Caligo::Hash g(n.name, m.subspan(0, c), std::string_view((const char*)m.data() + c, m.size() - c));
      require_same(g.data(), want.get(), std::string("digest-") + n.name, [&] { return ctx() + " (constructed from two pieces, cut " + std::to_string(c) + ")"; });
    }
    observed(std::string("big/") + n.name + "/" + std::to_string(64 - __builtin_clzll(m.size())) + "/" + std::to_string(m.size() % n.block));
    count("messages of 2 KiB to 16 MiB");
  }
}
// Single additions of every order of size up to 2^26 bytes, and (index 0) one past 2^32, in an object that already holds some bytes.
static void whole(Rng& r, uint64_t i) {
  static const size_t quickest[] = {0, 1, 5, 9, 2, 11, 3, 7};
  bool huge = i < 3;
  const Named& n = names()[huge ? quickest[i] : i % names().size()];
  size_t big = huge ? (1ull << 32) + r.below(200) : ((size_t)1 << (24 + i / names().size() % 3)) + r.below(400) - 20, head = r.chance(1, 2) ? 0 : r.below(300);
  bytes unit = r.raw(1u << 20), buf(big);
  for (size_t o = 0; o < big; o += unit.size()) { unit[r.below(unit.size())] ^= uint8_t(1 + r.below(255)); memcpy(buf.data() + o, unit.data(), std::min(unit.size(), big - o)); }
  cspan first = cspan(unit).subspan(0, head);
  bytes hd(first.begin(), first.end());
  ref::Digest want(n.ref);
  want.add(hd); want.add(buf);
  auto ctx = [&] { return std::string(n.name) + " " + std::to_string(head) + " bytes, then one addition of " + std::to_string(big); };
  Caligo::Hash h(n.name);
  if (head) h.add(hd);
  if (i % 2) h.add(std::string_view((const char*)buf.data(), big)); else h.add(buf);
  require_same(h.data(), want.get(), std::string("digest-") + n.name, ctx);
  observed(std::string("whole/") + n.name + "/" + std::to_string(64 - __builtin_clzll(big)) + "/" + std::to_string(head % n.block));
  count(huge ? "single additions past 2^32 bytes" : "single additions of 16 to 64 MiB");
}
static void reject(Rng& r, uint64_t i) {
  std::set<std::string> good;
  for (auto& n : names()) good.insert(n.name);
  std::vector<std::string> tries;
  if (i == 0) {
    tries = {"", " ", "md", "md4", "md5 ", " md5", "MD5", "Md5", "SHA1", "SHA256", "Sha-256", "sha-1", "sha-256", "sha-512", "sha0", "sha2", "sha3", "sha2-", "sha3-",
             "sha3-1", "sha3-128", "sha3_256", "sha3256", "sha3-2560", "sha1-160", "sha2-1", "sha2-160", "sha512-256", "sha512/256", "sha512t", "shake128", "shake256",
             "crc32", "crc", "blake2", "keccak-256", "sha3-224 ", "sha224\n", "sha2_256", "sha2-2566", "sha22-256", "ssha256", "5", "256", "null", "none"};
    for (auto& g : good) { tries.push_back(g + std::string(1, '\0')); tries.push_back(std::string(1, '\0') + g); tries.push_back(g + g); }
  }
  for (int k = 0; k < 400; k++) {
    std::string s = r.pick(names()).name;
    switch (r.below(6)) {
      case 0: s.insert(s.begin() + r.below(s.size() + 1), (char)r.u64()); break;
      case 1: s.erase(r.below(s.size()), 1); break;
      case 2: s[r.below(s.size())] = (char)r.u64(); break;
      case 3: { size_t c = r.below(s.size()); s[c] = (char)toupper(s[c]); break; }
      case 4: if (s.size() > 1) { size_t c = r.below(s.size() - 1); std::swap(s[c], s[c + 1]); } break;
      default: { s = "sha"; for (unsigned n = r.below(7); n--;) s += "0123456789-"[r.below(11)]; }
    }
    tries.push_back(s);
  }
  for (auto& s : tries) {
    if (good.count(s)) continue;
    bool threw = false;
    try { Caligo::Hash h((std::string_view(s))); } catch (const std::exception&) { threw = true; }
    require(threw, "accepted-unknown-name", [&] { return "name '" + s + "' (" + hex(cspan((const uint8_t*)s.data(), s.size())) + ") was accepted"; });
    count("names rejected");
    observed("reject/" + s);
  }
}

// Every name one character away from a known one: each character inserted at, put in place of, or taken from every position; case; padding.
static void near(Rng&, uint64_t i) {
  std::set<std::string> good, tries;
  for (auto& n : names()) good.insert(n.name);
  std::string g = names()[i % names().size()].name;
  for (size_t p = 0; p <= g.size(); p++) {
    for (int c = 0; c < 256; c++) {
      tries.insert(g.substr(0, p) + char(c) + g.substr(p));
      if (p < g.size()) { std::string s = g; s[p] = char(c); tries.insert(s); }
    }
    tries.insert(g.substr(0, p)); tries.insert(g.substr(p));
    if (p < g.size()) { tries.insert(g.substr(0, p) + g.substr(p + 1)); std::string s = g; s[p] = (char)toupper(s[p]); tries.insert(s); }
    if (p + 1 < g.size()) { std::string s = g; std::swap(s[p], s[p + 1]); tries.insert(s); }
    for (auto& o : good) tries.insert(g.substr(0, p) + o);
    for (size_t k = 1; k <= 40; k++) for (char c : {'\0', ' ', '0', '-', '\n', 'a'}) tries.insert(g.substr(0, p) + std::string(k, c) + g.substr(p));
  }
  std::string up = g; for (auto& c : up) c = (char)toupper(c);
  tries.insert(up);
  for (auto& o : good) for (const char* sep : {"", " ", ",", ":", "/", "-"}) tries.insert(g + sep + o);
  for (auto& s : tries) {
    if (good.count(s)) continue;
    bool threw = false;
    try { Caligo::Hash h((std::string_view(s))); } catch (const std::exception&) { threw = true; }
    require(threw, "accepted-unknown-name", [&] { return "name '" + s + "' (" + hex(cspan((const uint8_t*)s.data(), s.size())) + ") was accepted"; });
    count("names rejected"); count("names one character from a known one");
    observed("reject/" + s);
  }
}

VF_MAIN({ {"whole", 63, 200, whole, 200}, {"near", 15, 15, near}, {"big", 240, 900, big}, {"behave", 1800, 6000, behave}, {"reject", 200, 1000, reject} })
