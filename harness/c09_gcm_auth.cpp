// C09: a channel of encryptor and decryptor with an adversary in between, against a model of what must be accepted.
#include "gcmref.h"
#include "relocate.h"
#include <caligo/aes.h>
#include <caligo/gcm.h>
using namespace vf;

struct Dec { virtual ~Dec() = default; virtual void move(Rng& r) = 0; virtual bool jump(uint64_t n) = 0; virtual std::pair<bytes, bool> open(cspan ct, cspan aad, std::array<uint8_t, 16> tag) = 0; virtual ref::Sealed seal(cspan pt, cspan aad) = 0; };
template <size_t bits> struct Box final : Dec {
  using G = Caligo::GCM<Caligo::AES<bits>>;
  static std::unique_ptr<G> fresh(cspan key, cspan iv) { return std::make_unique<G>(Caligo::key_iv_pair<Caligo::AES<bits>>(key, iv)); }
  std::unique_ptr<G> g;
  Box(cspan key, cspan iv) : g(fresh(key, iv)) {}
  void move(Rng& r) override { relocate(g, fresh(r.raw(bits / 8), r.raw(12)), (unsigned)r.below(4)); }
  std::pair<bytes, bool> open(cspan ct, cspan aad, std::array<uint8_t, 16> tag) override { return g->Decrypt(ct, aad, tag); }
  ref::Sealed seal(cspan pt, cspan aad) override { auto [c, t] = g->Encrypt(pt, aad); return {std::move(c), t}; }
  template <typename G> static bool jump_in(G& g, uint64_t n) { if constexpr (requires { g.message_counter = n; }) { g.message_counter = n; return true; } else return false; }
  bool jump(uint64_t n) override { return jump_in(*g, n); }
};
static std::unique_ptr<Dec> make(cspan key, cspan iv) {
  if (key.size() == 16) return std::make_unique<Box<128>>(key, iv);
  return std::make_unique<Box<256>>(key, iv);
}
struct Msg { bytes pt, aad, ct; std::array<uint8_t, 16> tag; };
static size_t len(Rng& r) { switch (r.below(5)) { case 0: return r.below(3); case 1: return 16 * r.below(6); case 2: return 16 * r.range(1, 6) + r.below(3) - 1; case 3: return r.below(300); default: return r.below(60); } }
static size_t ivlen(Rng& r) { switch (r.below(5)) { case 0: return 8; case 1: return 16; case 2: return 13 + r.below(50); default: return 12; } }

static Msg tamper(Rng& r, const Msg& m, const std::vector<Msg>& all, std::string& how) {
  Msg t = m;
  switch (r.below(16)) {
    case 0: { size_t b = r.below(128); t.tag[b / 8] ^= uint8_t(1 << b % 8); how = "tag bit " + std::to_string(b); break; }
    case 1: if (t.ct.size()) { size_t b = r.below(t.ct.size() * 8); t.ct[b / 8] ^= uint8_t(1 << b % 8); how = "ciphertext bit"; } break;
    case 2: if (t.aad.size()) { size_t b = r.below(t.aad.size() * 8); t.aad[b / 8] ^= uint8_t(1 << b % 8); how = "associated data bit"; } break;
    case 3: if (t.ct.size()) { t.ct.resize(r.below(t.ct.size())); how = "ciphertext truncated"; } break;
    case 4: if (t.aad.size()) { t.aad.resize(r.below(t.aad.size())); how = "associated data truncated"; } break;
    case 5: t.ct.resize(t.ct.size() + r.range(1, 33), r.chance(1, 2) ? 0 : (uint8_t)r.u64()); how = "ciphertext extended"; break;
    case 6: t.aad.resize(t.aad.size() + r.range(1, 33), r.chance(1, 2) ? 0 : (uint8_t)r.u64()); how = "associated data extended"; break;
    case 7: { bytes all = t.aad; all.insert(all.end(), t.ct.begin(), t.ct.end()); size_t c = r.below(all.size() + 1); t.aad.assign(all.begin(), all.begin() + c); t.ct.assign(all.begin() + c, all.end()); how = "boundary moved"; break; }
    case 8: std::swap(t.aad, t.ct); how = "data and associated data exchanged"; break;
    case 9: t.tag = r.pick(all).tag; how = "tag of another message"; break;
    case 10: t.aad = r.pick(all).aad; how = "associated data of another message"; break;
    case 11: t.ct = r.pick(all).ct; how = "ciphertext of another message"; break;
    case 12: { bytes n = r.raw(16); std::copy(n.begin(), n.end(), t.tag.begin()); switch (r.below(8)) { case 0: t.tag = {}; break; case 1: t.tag.fill(0xff); break; case 2: t.tag.fill((uint8_t)r.u64()); break; case 3: { bytes d = r.data(16); std::copy(d.begin(), d.end(), t.tag.begin()); break; } case 4: for (size_t j = 0; j < 16; j++) t.tag[j] = m.tag[15 - j]; break; case 5: for (size_t j = 0; j < 16; j++) t.tag[j] = ~m.tag[j]; break; default: break; } how = "made-up tag"; break; }
    case 13: { size_t k = r.below(16); for (size_t i = k; i < 16; i++) t.tag[i] = (uint8_t)r.u64(); how = "tag tail replaced from byte " + std::to_string(k); break; }
    case 14: { size_t k = r.range(1, 16); for (size_t i = 0; i < k; i++) t.tag[i] ^= 0x80; how = "same difference in several tag bytes"; break; }
    default: { for (auto& b : t.tag) if (r.chance(1, 4)) b ^= 1; t.aad.clear(); how = "associated data dropped"; }
  }
  return t;
}
static bool same(const Msg& a, const Msg& b) { return a.ct == b.ct && a.aad == b.aad && a.tag == b.tag; }

static void channel(Rng& r, uint64_t i) {
  for (int rep = 0; rep < 10; rep++) {
    bytes key = r.data(i % 2 ? 16 : 32), iv = r.data(ivlen(r));
    // what the encryptor would send for messages 0..
    size_t n = r.range(1, 12);
    std::vector<Msg> sent(n);
    bool own = r.chance(1, 2);   // encrypted by the library itself, or by the reference
    auto e = make(key, iv);
    for (size_t k = 0; k < n; k++) {
      Msg& m = sent[k];
      if (k && r.chance(1, 3)) { m.pt = sent[k - 1].pt; m.aad = sent[k - 1].aad; } else { m.pt = r.data(len(r)); m.aad = r.data(len(r)); }
      if (own && r.chance(1, 5)) e->move(r);
      ref::Sealed s = own ? e->seal(m.pt, m.aad) : ref::gcm(key, iv, k, m.pt, m.aad);
      m.ct = s.ct; m.tag = s.tag;
    }
    auto d = make(key, iv);
    std::string shape;
    for (size_t pos = 0; pos < n; pos++) {
      // every call consumes position `pos`; only sent[pos] may be accepted there
      std::string how = "authentic";
      Msg p = sent[pos];
      switch (r.below(4)) {
        case 0: p = tamper(r, sent[pos], sent, how); break;
        case 1: { size_t j = r.below(n); p = sent[j]; if (j != pos) how = "message " + std::to_string(j) + " at position " + std::to_string(pos); break; }
        default: break;
      }
      bool expect = same(p, sent[pos]);
      if (r.chance(1, 5)) { d->move(r); count("objects copied, moved or assigned in a sequence"); }
      Guarded gc(p.ct), ga(p.aad);
      auto [pt, ok] = d->open(gc.get(), ga.get(), p.tag);
      auto ctx = [&] { return how + ": key=" + hex(key) + " iv=" + hex(iv) + " position=" + std::to_string(pos) + " ct=" + hex(p.ct) + " aad=" + hex(p.aad) + " tag=" + hex(p.tag) + " history=" + shape; };
      require(ok == expect, expect ? "gcm-authentic-rejected" : "gcm-forgery-accepted", ctx);
      if (ok) require_same(pt, sent[pos].pt, "gcm-wrong-plaintext", ctx);
      shape += expect ? 'a' : 'x';
      count(expect ? "authentic messages accepted" : "forgeries rejected");
      observed(how + "/" + std::to_string(p.ct.size() % 16) + "/" + std::to_string(p.aad.size() % 16) + "/" + std::to_string(iv.size() == 12));
      sample([&] { return how + " ct=" + std::to_string(p.ct.size()) + "B aad=" + std::to_string(p.aad.size()) + "B -> " + (ok ? "accepted" : "rejected"); });
    }
    // other keys and IVs never accept
    for (int k = 0; k < 4; k++) {
      bytes k2 = key, iv2 = iv;
      if (r.chance(1, 2)) k2[r.below(k2.size())] ^= uint8_t(1 << r.below(8));
      else if (r.chance(1, 2)) iv2[r.below(iv2.size())] ^= uint8_t(1 << r.below(8));
      else iv2 = r.raw(ivlen(r));
      if (iv2 == iv && k2 == key) continue;
      auto w = make(k2, iv2);
      auto [pt, ok] = w->open(sent[0].ct, sent[0].aad, sent[0].tag);
      require(!ok, "gcm-wrong-key-or-iv-accepted", [&] { return "key=" + hex(key) + "/" + hex(k2) + " iv=" + hex(iv) + "/" + hex(iv2); });
      count("wrong key or IV rejected"); observed("wrongkey/" + std::to_string(k2 == key) + "/" + std::to_string(iv2.size()));
    }
  }
}
// Every single bit of one message, tag and associated data; every prefix.
static void every_bit(Rng& r, uint64_t i) {
  bytes key = r.raw(i % 2 ? 16 : 32), iv = r.raw(i % 3 ? 12 : ivlen(r));
  size_t cl = i % 5 == 0 ? 0 : r.below(50), al = i % 5 == 1 ? 0 : r.below(40);
  bytes pt = r.raw(cl), aad = r.raw(al);
  ref::Sealed s = ref::gcm(key, iv, 0, pt, aad);
  auto attempt = [&](cspan ct, cspan ad, const std::array<uint8_t, 16>& tag, bool expect, const std::string& how) {
    auto d = make(key, iv);
    auto [p, ok] = d->open(ct, ad, tag);
    require(ok == expect, expect ? "gcm-authentic-rejected" : "gcm-forgery-accepted", [&] { return how + " key=" + hex(key) + " iv=" + hex(iv) + " ct=" + hex(ct) + " aad=" + hex(ad) + " tag=" + hex(tag); });
    if (ok) require_same(p, pt, "gcm-wrong-plaintext", [&] { return how; });
    observed("bit/" + how + "/" + std::to_string(cl % 16) + "/" + std::to_string(al % 16)); count(expect ? "authentic messages accepted" : "forgeries rejected");
  };
  attempt(s.ct, aad, s.tag, true, "authentic");
  for (size_t b = 0; b < 128; b++) { auto t = s.tag; t[b / 8] ^= uint8_t(1 << b % 8); attempt(s.ct, aad, t, false, "tag bit " + std::to_string(b)); }
  for (size_t b = 0; b < s.ct.size() * 8; b++) { bytes c = s.ct; c[b / 8] ^= uint8_t(1 << b % 8); attempt(c, aad, s.tag, false, "ct bit " + std::to_string(b)); }
  for (size_t b = 0; b < aad.size() * 8; b++) { bytes a = aad; a[b / 8] ^= uint8_t(1 << b % 8); attempt(s.ct, a, s.tag, false, "aad bit " + std::to_string(b)); }
  for (size_t k = 0; k < s.ct.size(); k++) attempt(cspan(s.ct).subspan(0, k), aad, s.tag, false, "ct prefix");
  for (size_t k = 0; k < aad.size(); k++) attempt(s.ct, cspan(aad).subspan(0, k), s.tag, false, "aad prefix");
  for (size_t k = 1; k <= 48; k++) { bytes c = s.ct, a = aad; c.resize(c.size() + k); a.resize(a.size() + k); attempt(c, aad, s.tag, false, "ct zero padded"); attempt(s.ct, a, s.tag, false, "aad zero padded"); }
}
// Long sequences delivered in order, across counter byte boundaries; then one replay and one skip.
static void long_order(Rng& r, uint64_t i) {
  bytes key = r.raw(i % 2 ? 16 : 32), iv = r.raw(12);
  auto d = make(key, iv);
  size_t total = i % 2 ? 66000 : 1500;
  auto msg = [&](uint64_t n) { bytes nonce = iv; for (int b = 0; b < 8; b++) nonce[4 + b] ^= uint8_t(n >> (56 - 8 * b)); bytes pt = {uint8_t(n), 1}; return ref::gcm_openssl(key, nonce, pt, {}); };
  for (uint64_t n = 0; n < total; n++) {
    uint64_t use = n;
    if (n > 2 && r.chance(1, 500)) use = r.chance(1, 2) ? r.below(n) : n >= 256 && r.chance(1, 2) ? n - 256 : n + r.range(1, 3);
    auto s = msg(use);
    auto [pt, ok] = d->open(s.ct, {}, s.tag);
    require(ok == (use == n), use == n ? "gcm-authentic-rejected" : "gcm-replay-accepted", [&] { return "message " + std::to_string(use) + " at position " + std::to_string(n); });
    observed(use != n || (n & 255) == 0 ? "order/" + std::to_string(n) : "");
    count(use == n ? "authentic messages accepted" : "replays rejected");
  }
}
static void large(Rng& r, uint64_t i) {
  bytes key = r.raw(i % 2 ? 16 : 32), iv = r.raw(i % 3 == 2 ? 20 : 12);
  bytes pt = r.raw((16u << 16) + 1000 + r.below(100)), aad = r.raw(i % 4 == 1 ? 70000 : i % 4 == 3 ? (16u << 16) + 40 + r.below(5000) : 13);
  auto s = ref::gcm_openssl(key, iv, pt, aad);
  for (int k = 0; k < 5; k++) {
    bytes c = s.ct, ad = aad;
    if (k == 4 && i % 2) { size_t at = r.chance(1, 2) ? ad.size() - 1 - r.below(16) : r.below(ad.size()); ad[at] ^= uint8_t(1 << r.below(8)); }
    else if (k) { size_t at = k == 1 ? c.size() - 1 : k == 2 ? 0 : r.below(c.size()); c[at] ^= uint8_t(1 << r.below(8)); }
    auto d = make(key, iv);
    auto [p, ok] = d->open(c, ad, s.tag);
    require(ok == (k == 0), k ? "gcm-forgery-accepted" : "gcm-authentic-rejected", [&] { return "large message of " + std::to_string(pt.size()) + " bytes"; });
    if (ok) require(p == pt, "gcm-wrong-plaintext", [&] { return "large message of " + std::to_string(pt.size()) + " bytes"; });
    observed("large/" + std::to_string(k) + "/" + std::to_string(i % 6)); count(k ? "forgeries rejected" : "authentic messages accepted");
  }
}
// Texts and associated data of every order of size: accepted as they are, refused with any one change, in one sequence.
static void sizes(Rng& r, uint64_t i) {
  bytes key = r.raw(i % 2 ? 16 : 32), iv = r.raw(r.chance(1, 4) ? biglen(r, 13) : r.chance(1, 3) ? ivlen(r) : 12);
  auto d = make(key, iv);
  for (uint64_t n = 0; n < 10; n++) {
    unsigned w = (unsigned)r.below(4);
    bytes pt = r.raw(w == 0 ? len(r) : biglen(r, 19)), aad = r.raw(w == 1 ? biglen(r, 18) : len(r));
    auto s = ref::gcm(key, iv, n, pt, aad);
    bytes ct = s.ct, ad = aad; auto tag = s.tag;
    bool forged = r.chance(2, 3);
    auto at = [&](size_t n) { return r.chance(1, 4) ? n - 1 : r.chance(1, 4) ? 0 : r.chance(1, 3) ? (n - 1) / 16 * 16 : (size_t)r.below(n); };
    if (forged) {
      unsigned how = (unsigned)r.below(8);
      if (how < 3 && ct.size()) ct[at(ct.size())] ^= uint8_t(1 << r.below(8));
      else if (how == 3 && ct.size()) ct.resize(ct.size() - (r.chance(1, 2) ? r.range(1, std::min<size_t>(33, ct.size())) : r.range(1, ct.size())));
      else if (how == 4) ct.resize(ct.size() + (r.chance(1, 2) ? r.range(1, 33) : biglen(r, 17)));
      else if (how == 5 && ad.size()) ad[at(ad.size())] ^= uint8_t(1 << r.below(8));
      else if (how == 6 && ad.size()) ad.resize(r.below(ad.size()));
      else tag[r.below(16)] ^= uint8_t(1 << r.below(8));
    }
    Guarded gc(ct, r.chance(1, 2)), ga(ad, r.chance(1, 2));
    auto [p, ok] = d->open(gc.get(), ga.get(), tag);
    auto ctx = [&] { return "random text of " + std::to_string(pt.size()) + " bytes (presented " + std::to_string(ct.size()) + "), associated data of " + std::to_string(aad.size()) + ", IV of " + std::to_string(iv.size()) + ", n=" + std::to_string(n) + " key=" + hex(key); };
    require(ok == !forged, forged ? "gcm-forgery-accepted" : "gcm-authentic-rejected", ctx);
    if (ok) require_same(p, pt, "gcm-wrong-plaintext", ctx);
    observed("size/" + std::to_string(64 - __builtin_clzll(pt.size() | 1)) + "/" + std::to_string(64 - __builtin_clzll(aad.size() | 1)) + "/" + std::to_string(forged));
    count(forged ? "forgeries rejected" : "authentic messages accepted"); count("messages of 2 KiB to 512 KiB");
  }
}
// Message positions around every bit of the 64-bit counter: the message of that position is accepted, those of positions
// that differ in one bit, or by a multiple of a power of two, are not.
static void counters(Rng& r, uint64_t i) {
  bytes key = r.raw(i % 2 ? 16 : 32), iv = r.raw(r.chance(2, 3) ? 12 : ivlen(r));
  auto d = make(key, iv);
  static const bool can = [] {
    bytes key(16, 7), iv(12, 9), pt(3, 1);
    return jumps_work([&] { return make(key, iv); }, [](auto& o, uint64_t n) { return o->jump(n); }, [&](auto& o) { auto [p, ok] = o->open(pt, {}, {}); return p; })
        && jumps_work([&] { return make(key, iv); }, [](auto& o, uint64_t n) { return o->jump(n); }, [&](auto& o) { return o->seal(pt, pt).ct; });
  }();
  if (!can) { count("counter jumps impossible in this implementation"); observed("nojump"); return; }
  for (int b = 0; b < 64; b++) {
    uint64_t p = r.chance(1, 3) ? r.u64() >> r.below(60) : r.chance(1, 2) ? (1ull << b) - 2 : (1ull << b) | r.u64() >> (63 - b) >> 1;
    if (p > ~0ull - 4) p = ~0ull - 4;
    d->jump(p);
    for (uint64_t n = p; n < p + 4; n++) {
      bytes pt = r.raw(r.below(40)), aad = r.raw(r.below(20));
      uint64_t use = n;
      bool forged = r.chance(1, 2);
      if (forged) use = r.chance(1, 2) ? n ^ (1ull << (r.chance(1, 2) ? b : r.below(64))) : r.chance(1, 2) ? (n & ((1ull << b) - 1)) : r.chance(1, 2) ? (uint32_t)n : n + (1ull << r.below(64));
      forged = use != n;
      auto s = ref::gcm(key, iv, use, pt, aad);
      auto [got, ok] = d->open(s.ct, aad, s.tag);
      auto ctx = [&] { return "message " + std::to_string(use) + " at position " + std::to_string(n) + " key=" + hex(key) + " iv=" + hex(iv) + " pt=" + hex(pt) + " aad=" + hex(aad); };
      require(ok == !forged, forged ? "gcm-forgery-accepted" : "gcm-authentic-rejected", ctx);
      if (ok) require_same(got, pt, "gcm-wrong-plaintext", ctx);
      observed("counter/" + std::to_string(64 - __builtin_clzll(n | 1)) + "/" + std::to_string(forged) + "/" + std::to_string(64 - __builtin_clzll((n ^ use) | 1)));
      count(forged ? "messages of another position rejected at a jumped-to position" : "authentic messages accepted at a jumped-to position");
    }
  }
}
VF_MAIN({ {"counters", 60, 600, counters}, {"sizes", 200, 2000, sizes}, {"long_order", 8, 40, long_order}, {"large", 24, 200, large}, {"every_bit", 360, 3000, every_bit}, {"channel", 1800, 15000, channel} })
